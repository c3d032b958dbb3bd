"""C21: repeated runs give the same result."""
import collections
import hashlib
import json
import os
import re

from fw import mix, outs, parse
from fw.core import Violation
from fw.util import sched_env

from . import c19

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential monitor over repeated runs and perturbed schedules of the same workload"
RULE = ("Random combinations of all features are run twice with one worker (different GOMAXPROCS) and several times with many "
        "workers under random schedules injected at synchronisation points. Monitors: with one worker CSV, RAW, PostgreSQL and "
        "transposed files are identical byte by byte and SQLite tables are identical; with many workers rows, set of columns and "
        "cells are the same (columns are matched by name, or by contents where names depend on their order), transposed rows are "
        "the same multiset of every line, types of columns in SQL and reports are the same; bytes, size and modification time of inputs do not "
        "change. Non-trivial: at least two rows; distinct by workload and schedule.")
ASSUMPTIONS = ["SQLite files are compared by tables they hold", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("mix", 420), ("big", 16), ("reports", 120), ("uniq", 80), ("hc", 60), ("case", 60), ("trans", 60)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def stamp(cx, names):
    res = {}
    for n in names:
        st = os.stat(cx.path(n))
        with open(cx.path(n), "rb") as f:
            res[n] = (hashlib.sha256(f.read()).hexdigest(), st.st_size, st.st_mtime_ns)
    return res


def execute(cx, w, k, which, reps, c, env):
    """Runs workload in its own directory, returns {file: parsed or bytes} and stdout."""
    d = "r%d" % k
    os.makedirs(cx.path(d))
    fn = outs.names(d + "/o")
    a = [x for x in w.args]
    r = cx.flat(a + reps + ["-concurrency", str(c)] + outs.args(fn, which, "\x1f|") + w.inputs, env)
    files = {}
    for f in sorted(os.listdir(cx.path(d))):
        p = d + "/" + f
        b = files[f] = parse.read_sqlite(cx.path(p)) if f.endswith(".sqlite") else cx.read(p)
        if f.endswith(".sql"):
            # Progress message has approximate number of lines.
            files[f] = re.sub(rb"(?m)^SELECT '\d+(/\d+)? lines completed[^'\n]*' AS status;$", b"SELECT '' AS status;", b)
    return files, r.out


def by_name(cols, rows, nocase):
    """{column: tuple of cells}."""
    res = {}
    for j, c in enumerate(cols):
        res[c.lower() if nocase else c] = tuple(r[j] for r in rows)
    return res


def cmp_cols(what, e, g, nocase, names):
    if len(e[1]) != len(g[1]):
        raise Violation("%s has %d rows with many workers, %d with one" % (what, len(g[1]), len(e[1])))
    if names:
        x, y = by_name(e[0], e[1], nocase), by_name(g[0], g[1], nocase)
        if set(x) != set(y) or len(e[0]) != len(g[0]):
            raise Violation("%s: columns %r are missing, %r are unexpected with many workers" % (
                what, sorted(set(x) - set(y))[:5], sorted(set(y) - set(x))[:5]))
        for c in x:
            if x[c] != y[c]:
                i = next(i for i in range(len(x[c])) if x[c][i] != y[c][i])
                raise Violation("%s row %d column %r: %r with one worker, %r with many" % (what, i + 1, c, x[c][i], y[c][i]))
    else:
        x = collections.Counter(tuple(r[j] for r in e[1]) for j in range(len(e[0])))
        y = collections.Counter(tuple(r[j] for r in g[1]) for j in range(len(g[0])))
        if x != y:
            raise Violation("%s: contents of columns differ with many workers: %r, %r" % (
                what, list((x - y).elements())[:2], list((y - x).elements())[:2]))


def cmp_trans(what, e, g, names, nocase):
    """Transposed rows of a line may be in other order."""
    if names:
        lo = (lambda s: s.lower()) if nocase else (lambda s: s)
        if sorted(map(lo, e[0])) != sorted(map(lo, g[0])):
            raise Violation("%s: columns %r, with many workers %r" % (what, e[0][:8], g[0][:8]))
        order = sorted(range(2, len(e[0])), key=lambda j: lo(e[0][j]))
        pos = {lo(c): j for j, c in enumerate(g[0])}
        xs = [tuple(r[:2]) + tuple(r[j] for j in order) for r in e[1]]
        ys = [tuple(r[:2]) + tuple(r[pos[lo(e[0][j])]] for j in order) for r in g[1]]
    else:
        xs = [tuple(r[:2]) + tuple(sorted(map(repr, r[2:]))) for r in e[1]]
        ys = [tuple(r[:2]) + tuple(sorted(map(repr, r[2:]))) for r in g[1]]
    # Rows are in order of lines in both.
    if [x[0] for x in xs] != [y[0] for y in ys]:
        raise Violation("%s: sequence of lines differs" % what)
    if sorted(xs, key=repr) != sorted(ys, key=repr):
        a = collections.Counter(xs)
        b = collections.Counter(ys)
        raise Violation("%s: rows differ: %r with one worker, %r with many" % (
            what, list((a - b).elements())[:3], list((b - a).elements())[:3]))


def join(tables, name, what):
    _, cols, rows = outs.join_parts(tables, name, 0, what, lambda t: (t[0], t[2]))
    ps = parse.parts(tables, name)
    types = []
    for p in ps:
        types += list(tables[p][1])[1:]
    return cols, rows, types


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    feats = None
    n = None
    if kind == "big":
        n = rng.choice((2500, 6000, 11000))
    if kind == "uniq":
        feats = {rng.choice(("snake", "keylimit", "replacere", "snake"))} | set(rng.sample(mix.FEATURES, 2))
    if kind == "hc":
        feats = {"children"} | set(rng.sample(("extract", "keep", "case", "snake", "multi", "seq", "zero", "exclude"), 2))
    if kind == "case":
        feats = set(rng.sample(("extract", "include", "zero", "concat", "multi", "keep", "getkey"), 2))
    if kind == "trans":
        feats = {"transpose"} | set(rng.sample(("extract", "case", "multi", "seq", "zero", "exclude", "include", "snake", "keylimit"), 2))
    ex = ("reports", "memlimit") if kind == "big" else ("reports",)
    if feats:
        feats -= {"reports"}
        if "getkey" in feats:
            feats -= {"includere"}
    w = mix.workload(cx, n=n, feats=feats, exclude=ex, maxfeats=7)
    if kind == "case":
        # Letter case variants of keys.
        d = cx.read(w.inputs[0]) if w.inputs[0].endswith(".jsonl") else None
        if d is not None:
            ls = d.split(b"\n")
            for i in range(len(ls)):
                if rng.random() < 0.3:
                    ls[i] = ls[i].replace(b'"id"', rng.choice((b'"ID"', b'"Id"'))).replace(b'"tags"', rng.choice((b'"Tags"', b'"tags"')))
            cx.write(w.inputs[0], b"\n".join(ls))
    reps = []
    if kind == "reports":
        reps = [r for r in mix.REPORTS if rng.random() < 0.6] or ["-show-keys-info"]
    which = outs.ALL if kind != "big" and rng.random() < 0.6 else ("csv",)
    if kind == "big" and rng.random() < 0.5:
        which = ("csv", "pg")
    before = stamp(cx, w.inputs)
    base, out0 = execute(cx, w, 0, which, reps, 1, {"GOMAXPROCS": "1"})
    again, out1 = execute(cx, w, 1, which, reps, 1, sched_env(rng, 0.2 if kind != "big" else 0))
    if set(base) != set(again):
        raise Violation("second run made files %r, first run made %r" % (sorted(again), sorted(base)))
    for f in base:
        if base[f] != again[f]:
            if isinstance(base[f], bytes):
                x, y = base[f], again[f]
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                raise Violation("file %s differs in the second run with one worker at byte %d: %r, %r" % (
                    f, i, x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60]))
            raise Violation("tables of %s differ in the second run with one worker: %r, %r" % (
                f, list(base[f])[:5], list(again[f])[:5]))
        cx.count("files_identical")
    nocase = "case" not in w.feats
    # Names made by uniqueness depend on order of columns.
    names = not (set(w.feats) & {"snake", "keylimit", "replacere", "replace"}) and "concat" not in w.feats
    # Values of letter case variants that share a column by a name in config, or are not scanned.
    for k in range(3 if kind != "big" else 1):
        c = rng.choice((2, 3, 8, 16, 32, 100))
        env = sched_env(rng, 0.8)
        if kind == "big" and "FLATJSONL_VERIF_SCHED" in env:
            env["FLATJSONL_VERIF_SCHED"] = "%d:20:50" % rng.randint(1, 1 << 30)
        got, out = execute(cx, w, 2 + k, which, reps, c, env)
        if set(base) != set(got):
            raise Violation("run with %d workers made files %r, expected %r" % (c, sorted(got), sorted(base)))
        for f in base:
            what = f
            if f.endswith(".csv"):
                e, g = parse.read_csv(base[f]), parse.read_csv(got[f])
                if f == "o.csv":
                    cmp_cols(what, (e.cols, e.rows), (g.cols, g.rows), nocase, names)
                    cx.count("rows", len(e.rows))
                else:
                    cmp_trans(what, (e.cols, e.rows), (g.cols, g.rows), names, nocase)
                    cx.count("transposed_rows", len(e.rows))
            elif f.endswith(".raw"):
                cx.count("raw_bytes", len(base[f]))
                if len(base[f]) != len(got[f]):
                    raise Violation("%s has %d bytes with many workers, %d with one" % (f, len(got[f]), len(base[f])))
            else:
                if f.endswith(".sqlite"):
                    et, gt = base[f], got[f]
                else:
                    et, gt = parse.read_pg(base[f]).tables, parse.read_pg(got[f]).tables
                if set(et) != set(gt):
                    raise Violation("%s has tables %r with many workers, %r with one" % (f, sorted(gt), sorted(et)))
                for t in et:
                    if re.search(r"_part\d+$", t):
                        continue
                    if t != "flatjsonl":
                        # Column of row numbers is not unique here.
                        e = (et[t][0][1:], [r[1:] for r in et[t][2]])
                        g = (gt[t][0][1:], [r[1:] for r in gt[t][2]])
                        if t + "_part2" not in et:
                            cmp_trans(what + " " + t, e, g, names, nocase)
                        continue
                    e, g = join(et, t, what), join(gt, t, what)
                    cmp_cols(what + " " + t, ([None] + e[0] if False else e[0], [r[1:] for r in e[1]]),
                             (g[0], [r[1:] for r in g[1]]), nocase, names)
                    if names:
                        lo = (lambda s: s.lower()) if nocase else (lambda s: s)
                        a = {lo(c_): y for c_, y in zip(e[0], e[2])}
                        b = {lo(c_): y for c_, y in zip(g[0], g[2])}
                        if a != b:
                            d = [(c_, a[c_], b[c_]) for c_ in a if a[c_] != b[c_]]
                            raise Violation("%s: types differ with many workers: %r" % (what, d[:5]))
                    cx.count("sql_tables")
        if reps:
            cmp_reports(cx, reps, out0, out, nocase, names)
        cx.seen(repr((w.args, w.inputs, c, env)).encode() + w.data)
        cx.count("schedules")
    if stamp(cx, w.inputs) != before:
        raise Violation("input was modified")
    cx.count("workloads")


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
    return v


def paths(v, p=""):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from paths(x, p + "/" + k)
    else:
        yield "%s = %s" % (p, json.dumps(v))


def cmp_reports(cx, reps, a, b, nocase, names):
    x, y = c19.split_reports(a, reps), c19.split_reports(b, reps)
    lo = (lambda s: s.lower()) if nocase else (lambda s: s)
    for r in reps:
        if r == "-show-keys-flat":
            p, q = sorted(map(lo, c19.flat_list(x[r]))), sorted(map(lo, c19.flat_list(y[r])))
        elif r == "-show-keys-info":
            p, q = c19.info_list(x[r]), c19.info_list(y[r])
            if names:
                p, q = sorted(map(lo, p)), sorted(map(lo, q))
            else:
                t = [re.sub(r".*, TYPE", "TYPE", s, flags=re.S) for s in p]
                u = [re.sub(r".*, TYPE", "TYPE", s, flags=re.S) for s in q]
                p, q = sorted(s for s in t if s.startswith("TYPE")), sorted(s for s in u if s.startswith("TYPE"))
        else:
            p, q = norm(x[r]), norm(y[r])
        if p != q:
            if isinstance(p, dict):
                p, q = sorted(paths(p)), sorted(paths(q))
            d = [s for s in p if s not in q][:4], [s for s in q if s not in p][:4]
            raise Violation("%s differs with many workers: %r" % (r, d))
        if cx is not None:
            cx.count("reports")
