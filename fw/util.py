"""Helpers shared by checks."""
import json

from . import gen, model, parse
from .core import Violation


def sched_env(rng, p=0.5):
    """Random schedule: GOMAXPROCS and perturbation of scheduling points."""
    env = {}
    if rng.random() < 0.4:
        env["GOMAXPROCS"] = str(rng.choice((1, 2, 3, 8, 16, 32)))
    if rng.random() < 0.15:
        # Frequent collections empty pools of reused objects.
        env["GOGC"] = str(rng.choice((5, 20)))
    if rng.random() < p:
        env["FLATJSONL_VERIF_SCHED"] = "%d:%d:%d" % (rng.randint(1, 1 << 30), rng.choice((5, 20, 50, 100)),
                                                     rng.choice((0, 50, 300, 2000)))
    return env


def conc(rng):
    return rng.choice((1, 1, 2, 3, 4, 8, 16, 32, 100))


def run_csv(cx, data, args=(), env=None, out="out.csv", inp="in.jsonl", timeout=60, ok=True):
    if data is not None:
        cx.write(inp, data)
    cx.rm(out)
    r = cx.flat(["-verbosity", "0", "-csv", out] + list(args) + [inp], env=env, timeout=timeout, ok=ok, outputs=(out,))
    return r


def get_csv(cx, out="out.csv"):
    return parse.read_csv(parse.decompress(out, cx.read(out)))


def cfg(d):
    return ["-config", json.dumps(d)]


def compare(cx, t, tab, order=False, nocase=False, what="CSV"):
    """Compares model table with parsed one, registers evidence."""
    if not t.cols:
        if tab.rows and any(any(r) for r in tab.rows):
            raise Violation("%s has data, no columns expected" % what)
        return 0
    n = parse.diff_tables(t.cols, t.rows, tab.cols, tab.rows, order=order, nocase=nocase, what=what)
    cx.count("rows", len(t.rows))
    cx.count("cells", n)
    cx.count("columns", len(t.cols))
    return n


def check_csv(cx, ds, data, args=(), env=None, order=False, nocase=False, timeout=60, **mk):
    run_csv(cx, data, args, env, timeout=timeout)
    t = model.table(ds, **mk)
    compare(cx, t, get_csv(cx), order=order, nocase=nocase)
    if t.cols and len(ds) > 1:
        cx.seen(data + repr(args).encode() + repr(env).encode())
    return t
