"""C13: line limits select exactly the requested window."""
import gzip

from fw import gen, model, outs, parse
from fw.core import Violation
from fw.util import cfg, compare, conc, sched_env

LEVEL = "exploration"
RULE = ("Random inputs (with blank and malformed lines, plain and gzip) and windows around all boundaries: offset and maximum "
        "of 0, 1, length-1, length, length+1, far beyond; a separate limit for key scan below, at and above the maximum. "
        "Oracles: model of the table of exactly the lines of the window (columns from the scanned ones), and byte equality "
        "of CSV and RAW with a run over a file that has only these lines (one worker). Non-trivial: the window differs from "
        "the whole file; distinct by input, options and schedule.")
ASSUMPTIONS = ["one input file; keys that differ in letter case are not generated together with a limit for key scan",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("window", 300), ("keys", 200), ("include", 120), ("flat", 60), ("big", 8), ("outs", 60), ("seq", 60)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 3, 10, 50, 130))
    if kind == "big":
        n = rng.choice((10001, 20100))
    c = 1 if rng.random() < 0.5 else conc(rng)
    env = sched_env(rng, 0.5 if kind != "big" else 0)
    sch = gen.Schema(rng, width=5, depth=2 if kind != "big" else 0, keymode="plain", valmode="mixed" if kind != "big" else "plain")
    ds, lns = [], []
    for i in range(n):
        d = sch.doc()
        r = rng.random()
        if r < 0.04:
            ds.append(None)
            lns.append(rng.choice(("", "x", "{", '{"a":', "[]", "   ")))
            continue
        d["id"] = "L%d" % i
        if rng.random() < 0.1 and (kind != "big" or i > n - 20):
            d["u%d" % i] = i
        ds.append(d)
        lns.append(gen.to_json(d, rng, 0, 0.05))

    def limit():
        return rng.choice((0, 1, 2, n // 2, n - 1, n, n + 1, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63 - 2, rng.randint(1, n)))
    off = max(0, limit()) if rng.random() < 0.7 else 0
    mx = max(0, limit()) if rng.random() < 0.7 else 0
    mk = 0
    if kind == "keys":
        left = max(1, min(mx or n, n - off))
        mk = rng.choice((1, 2, 2 ** 63 - 1, left - 1, left, left + 1, mx + 1, mx, n, n + 5, rng.randint(1, n)))
        mk = min(max(0, mk), 2 ** 63 - 1)
    if kind == "big":
        off = rng.choice((0, 9999, 10000, 5))
        mx = rng.choice((0, 10000, 1, 9999))
    hi = n if mx == 0 else min(n, off + mx)
    win = ds[off:hi]
    wl = lns[off:hi]
    scan = None
    if mk:
        scan = mk if mx == 0 else min(mk, mx)
    cs = False
    paths = {e.path for d in win if d is not None for e in model.walk(d)}
    if len({p.lower() for p in paths}) != len(paths):
        cs = True
    a = ["-concurrency", str(c)]
    if cs:
        a.append("-case-sensitive-keys")
    seq = kind == "seq" or rng.random() < 0.15
    pre = None
    if seq and kind != "include":
        a.append("-add-sequence")

        def pre(i):
            return [("._sequence", ("_sequence",), gen.Num(str(i + 1)))]
    t = model.table(win, case_sensitive=cs, scan=scan, pre=pre)
    win_args = []
    if off or rng.random() < 0.1:
        win_args += ["-offset-lines", str(off)]
    if mx or rng.random() < 0.1:
        win_args += ["-max-lines", str(mx)]
    if mk:
        win_args += ["-max-lines-keys", str(mk)]
    conf = {}
    explicit = None
    if kind == "include":
        pool = model.table(ds, case_sensitive=cs).cols or [".id"]
        explicit = rng.sample(pool, min(len(pool), rng.choice((1, 1, 3))))
        conf["includeKeys"] = explicit
        t.cols = explicit
    if conf:
        a += cfg(conf)
    data = gen.lines(rng, lns, eol=rng.choice(("\n", "\n", "\r\n")), final=rng.random() < 0.7 or lns[-1] == "")
    inp = "in.jsonl"
    if rng.random() < 0.15:
        inp = "in.jsonl.gz"
        data = gzip.compress(data)
    cx.write(inp, data)
    if not data:
        return
    fn = outs.names()
    which = outs.ALL if kind in ("outs", "big") and not cs else ("csv", "raw")
    outs.run(cx, fn, which, a + win_args, env, inp=inp)
    b = cx.read(fn["csv"])
    if t.cols:
        tab = outs.csv_tab(cx, fn["csv"])
        compare(cx, t, tab, order=(c == 1 or explicit is not None))
        outs.check_all(cx, fn, tab, which)
    elif b.strip(b"\n"):
        raise Violation("no columns are expected, CSV has %r" % b[:200])
    if kind == "flat":
        # Window applies to the list of keys as well.
        r = cx.flat(["-verbosity", "0", "-show-keys-flat"] + a + win_args + [inp], env)
        got = r.out.decode("utf-8", "surrogateescape")
        want = "keys:\n" + "".join('"%s",\n' % k for k in t.cols)
        if sorted(got.split('",\n')) != sorted(want.split('",\n')) and not any("\n" in k or '"' in k for k in t.cols):
            if sorted(got.split("\n")) != sorted(want.split("\n")):
                raise Violation("list of keys is %r, expected %r" % (got[:600], want[:600]))
    if c == 1 and not mk and wl and b"\n".join(x.encode("utf-8", "surrogateescape") for x in wl):
        raw = cx.read(fn["raw"])
        cx.write("win.jsonl", gen.lines(rng, wl))
        outs.run(cx, fn, ("csv", "raw"), a, None, inp="win.jsonl")
        if cx.read(fn["csv"]) != b or cx.read(fn["raw"]) != raw:
            raise Violation("output differs from that of a file with only lines %d..%d: %r and %r" % (
                off + 1, hi, b[:300], cx.read(fn["csv"])[:300]))
        cx.count("compared_with_file_of_window")
    cx.count("window_lines", len(win))
    if len(win) != n or mk:
        cx.seen(data + repr(a + win_args).encode() + repr(env).encode())
    if len(win) == 0:
        cx.count("empty_windows")
