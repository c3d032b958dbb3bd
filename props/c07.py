"""C07: keys replaced into one name are coalesced or concatenated."""
import re

from fw import gen, model, outs
from fw.util import cfg, compare, conc, sched_env
from props import c08

LEVEL = "exploration"
RULE = ("Random documents where groups of keys (listed or matched by patterns, at different depths, in random order within "
        "lines, with nulls and absent keys) are replaced into one name, with and without a concat delimiter, in the main and in "
        "transposed tables. Expected "
        "cells are computed from the order of elements in the line. Non-trivial: a line has at least two keys of one "
        "group; distinct by input, options and schedule.")
ASSUMPTIONS = ["keys of a group differ not only in letter case", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("list", 160), ("regex", 110), ("nested", 100), ("include", 80), ("nulls", 80), ("concat1", 40),
                    ("transposed", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind == "transposed":
        return c08.run_case(cx, {"kind": "merge"})
    c = 1 if rng.random() < 0.4 else conc(rng)
    ks = ["k%d" % i for i in range(rng.randint(2, 9))]
    n = rng.choice((1, 3, 20, 130))
    pnull = 0.6 if kind == "nulls" else 0.15

    def val():
        r = rng.random()
        if r < 0.02:
            # Long literals and strings.
            m = rng.choice((40, 64, 100, 300, 5000))
            return rng.choice((gen.Num("1" * m if m < 300 else "0." + "7" * m), gen.Num("-0." + "3" * m), "v" * m, "é" * m))
        return None if rng.random() < pnull else gen.rscalar(rng)

    ds = []
    for i in range(n):
        d = {}
        for k in rng.sample(ks, rng.randint(0, len(ks))):
            r = rng.random()
            if kind in ("nested", "regex") and r < 0.4:
                d[k] = {x: val() for x in rng.sample(("a", "b", "c"), rng.randint(0, 3))}
            elif kind in ("nested", "regex") and r < 0.6:
                d[k] = [val() for _ in range(rng.randint(0, 4))]
            else:
                d[k] = val()
        ds.append(d)
    if rng.random() < 0.15:
        # Keys of a group are far from each other in a wide table.
        pad = rng.choice((10, 70, 140, 300, 600))
        for i in rng.sample(range(n), min(n, 3)):
            items = list(ds[i].items())
            at = rng.randint(0, len(items))
            ds[i] = dict(items[:at] + [("pad%d" % j, j) for j in range(pad)] + items[at:])
    base = model.table(ds)
    if not base.cols:
        return
    keys = list(base.cols)
    conf, a = {}, []
    if kind == "include" or c > 1:
        inc = list(keys)
        rng.shuffle(inc)
        if kind == "include":
            inc = inc[:rng.randint(1, len(inc))]
        conf["includeKeys"] = inc
        keys = inc
    ren = {}
    if kind == "regex":
        k = rng.choice(ks)
        pat, rx, name = rng.choice((
            ("." + k + ".*", re.compile(r"^\." + k + r"\.([^.]+)$"), "grp"),
            (".*.a", re.compile(r"^\.([^.]+)\.a$"), "all a"),
            (r"\.\[\d+\]$", re.compile(r"\.\[\d+\]$"), "items"),
            ("^\\.(k[01])$", re.compile(r"^\.(k[01])$"), "first"),
            (".*", re.compile(r"^\.([^.]+)$"), "everything"),
        ))
        conf["replaceKeysRegex"] = {pat: name}
        for x in keys:
            if rx.search(x):
                ren[x] = name
        if rng.random() < 0.4:
            x = rng.choice(keys)
            conf["replaceKeys"] = {x: rng.choice((name, "other"))}
            ren[x] = conf["replaceKeys"][x]
    else:
        pool = list(keys)
        rng.shuffle(pool)
        st = rng.choice((("grp0", "Group 1"), ("grp0", "Group 1"), ("x", "x "), (" x", "x"), ("x ", "y"), ("g\t", "g"), ("a.b", ".a.b")))
        for g in range(rng.randint(1, 2)):
            m = rng.randint(2, 4)
            for x in pool[:m]:
                ren[x] = st[g]
            pool = pool[m:]
        if rng.random() < 0.2:
            # A key that is absent in the data takes part too.
            ren[".nope"] = ren[next(iter(ren))]
        conf["replaceKeys"] = dict(ren)
    delim = None
    if kind == "concat1" or rng.random() < 0.55:
        delim = rng.choice(("::", ",", "", " ", "\n", '"', "|", "é"))
        conf["concatDelimiter"] = delim

    t = model.Table()
    for k in keys:
        x = ren.get(k, k)
        if x not in t.cols:
            t.cols.append(x)
    included = {k.lower() for k in keys}
    multi = 0
    missing = []
    for d in ds:
        row = {}
        hits = {}
        for e in model.walk(d):
            if e.container or e.path.lower() not in included or e.value is None:
                continue
            x = ren.get(e.path, e.path)
            s = model.fmt(e.value)
            if x not in hits:
                hits[x] = 1
                row[x] = s
            else:
                hits[x] += 1
                multi += 1
                if delim is not None:
                    row[x] = row[x] + delim + s
        t.rows.append(row)
        missing.append(set(t.cols) - set(hits))
    a += cfg(conf) + ["-concurrency", str(c)]
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    env = sched_env(rng, 0.4)
    fn = outs.names()
    which = rng.choice((("csv",), outs.ALL))
    outs.run(cx, fn, which, a, env)
    tab = outs.csv_tab(cx, fn["csv"])
    compare(cx, t, tab, order=True)
    names = {x: i for i, x in enumerate(t.cols)}
    outs.check_all(cx, fn, tab, which, nulls=lambda i, col: col in missing[i])
    cx.count("merged_values", multi)
    cx.count("concat" if delim is not None else "coalesce")
    if multi:
        cx.seen(data + repr(a).encode() + repr(env).encode())
