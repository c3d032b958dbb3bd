"""C09: kept JSON is equivalent to the original subtree."""
import json

from fw import gen, model, outs, parse
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
RULE = ("Random documents with keys listed in keepJSON (nested, arrays, keys that are scalars in some lines) and containers "
        "with a number of distinct child keys around the children limit, spread over lines, nested and mixed with scalars, "
        "with and without allowCardinality. Kept columns are parsed as JSON (member order and number literals preserved) "
        "and compared with the generated subtree; all other columns are compared with the model. Non-trivial: at least "
        "one cell holds kept JSON, or the limit is nearly reached; distinct by input, options and schedule.")
ASSUMPTIONS = ["keys do not differ only in letter case", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("keep", 160), ("limit", 160), ("default", 24), ("allow", 60), ("nestedlimit", 80), ("extract", 40),
                    ("include", 50), ("prefixkeys", 50)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


class Bad(Exception):
    pass


def load(s):
    """Parses JSON preserving order of members and number literals."""
    def no(x):
        raise Bad(x)
    return json.loads(s, object_pairs_hook=lambda p: ("o", p), parse_float=gen.Num, parse_int=gen.Num, parse_constant=no,
                      strict=False)


def shape(v):
    if isinstance(v, dict):
        return ("o", [(k, shape(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return [shape(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return gen.Num(str(v))
    return v


def leafs(rng, m):
    return {"c%d" % j: j for j in range(m)}


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    c = 1 if rng.random() < 0.4 else conc(rng)
    env = sched_env(rng, 0.5)
    a, conf = [], {}
    n = rng.choice((1, 2, 8, 40, 120))
    limit = 100
    hook = None

    def leaf():
        return gen.rscalar(rng)

    def sub(d):
        r = rng.random()
        if d == 0 or r < 0.3:
            return leaf()
        if r < 0.75:
            return {gen.rkey(rng, "plain") if rng.random() < 0.7 else rng.choice(gen.EVIL_KEY): sub(d - 1)
                    for _ in range(rng.randint(0, 4))}
        return [sub(d - 1) for _ in range(rng.randint(0, 4))]

    def nest(d):
        return {k: sub(d) for k in rng.sample(("x", "y", "z"), rng.randint(0, 3))}

    keep = set()
    explicit = []
    allow = set()
    if kind in ("keep", "include", "prefixkeys"):
        ds = []
        for i in range(n):
            d = {"id": "L%d" % i}
            for k in ("a", "ab", "b", "c"):
                if rng.random() < 0.8:
                    d[k] = sub(3) if rng.random() < 0.5 else {"in": sub(2), "arr": [sub(2), nest(1)]}
            ds.append(d)
        explicit = rng.sample((".a", ".b", ".a.in", ".b.arr", ".c.arr.[1]", ".c.arr.[0]", ".nope", ".id"), rng.randint(1, 4))
    elif kind in ("limit", "allow", "default"):
        if kind == "default":
            limit = 100
        else:
            limit = rng.choice((1, 2, 3, 5, 10, 30))
            a += ["-children-limit", str(limit)]
            if rng.random() < 0.1:
                a[-1] = "0"
        groups = {}
        for g in rng.sample(("m", "o.p", "arr", "m2", "m.q"), rng.randint(1, 4)):
            groups[g] = max(1, limit + rng.choice((-1, 0, 0, 1, 1, 2, 5)))
        ds = []
        if n < 3 and limit > 5:
            n = 8
        for i in range(n):
            d = {"id": "L%d" % i}
            for g, m in groups.items():
                if rng.random() < 0.8 or i == 0:
                    # Each line has a part of child keys, all lines together have m of them.
                    lo = (m * i) // n if rng.random() < 0.7 else 0
                    hi = m if i == n - 1 or (rng.random() < 0.1) else max(lo + 1, (m * (i + 1)) // n)
                    if g == "arr":
                        v = [leaf() if rng.random() < 0.7 else {"v": leaf()} for _ in range(hi)]
                    else:
                        v = {}
                        for j in range(lo, hi):
                            v["c%d" % j] = rng.choice((leaf(), leaf(), {"w": leaf()}, None, {}))
                    p = g.split(".")
                    if len(p) == 1:
                        old = d.get(g)
                        if isinstance(old, dict):
                            old.update(v)
                        else:
                            d[g] = v
                    else:
                        o = d.setdefault(p[0], {})
                        if isinstance(o, dict):
                            o[p[1]] = v
            if rng.random() < 0.1:
                d[rng.choice(list(groups)).split(".")[0]] = leaf()
            ds.append(d)
        if kind == "allow":
            allow = {"." + g for g in rng.sample(sorted(groups), rng.randint(1, len(groups)))}
            conf["allowCardinality"] = sorted(allow)
        if rng.random() < 0.3:
            explicit = ["." + rng.choice(sorted(groups))]
    elif kind == "nestedlimit":
        limit = rng.choice((2, 3, 6))
        a += ["-children-limit", str(limit)]

        def big(d):
            if d == 0 or rng.random() < 0.3:
                return leaf()
            if rng.random() < 0.6:
                return {"k%d" % j: big(d - 1) for j in rng.sample(range(limit + 3), rng.randint(0, limit + 1))}
            return [big(d - 1) for _ in range(rng.randint(0, limit + 1))]
        ds = [{"r": big(4), "s": {"t": big(3)}, "id": i} for i in range(rng.choice((1, 3, 10)))]
    else:
        limit = rng.choice((2, 5, 100))
        a += ["-extract-strings"] + (["-children-limit", str(limit)] if limit != 100 else [])
        ds = []
        for i in range(n):
            d = {"id": i}
            for k in ("s", "t"):
                if rng.random() < 0.8:
                    m = rng.randint(0, limit + 1)
                    doc = {"c%d" % j: rng.choice((j, "v", {"w": 1})) for j in rng.sample(range(limit + 2), m)}
                    d[k] = gen.to_json(doc if rng.random() < 0.7 else list(doc.values()))
            ds.append(d)
        if rng.random() < 0.4:
            explicit = [rng.choice((".s.JSON", ".t.JSON.c0", ".s.JSON.[0]"))]

        def hook(path, s):
            if len(s) > 2 and s[0] in "{[":
                try:
                    return [("JSON", from_json(s))]
                except ValueError:
                    return []
            return []
    if explicit:
        conf["keepJSON"] = explicit
    keep |= set(explicit)

    scanning = not (kind == "include")
    if scanning and not (a and "-children-limit" in a and a[a.index("-children-limit") + 1] == "0"):
        # Distinct children of every container that is not inside of a kept one.
        kids = {}
        for d in ds:
            for e in model.walk(d, keep=keep, hook=hook):
                if len(e.segs) > 1:
                    par = "." + ".".join(e.segs[:-1])
                    kids.setdefault(par, set()).add(e.path)
        for par, ch in kids.items():
            cx.count("containers")
            if len(ch) > limit and par not in allow:
                keep.add(par)
                cx.count("high_cardinality")
            if len(ch) in (limit, limit + 1):
                cx.count("at_limit")
    if hook is not None and any(len(v) > limit for v in ()):
        return
    # A string key is not a container, so extracted children of a string do not count as its children beyond .JSON.
    t = model.table(ds, keep=keep, hook=hook)
    if not t.cols:
        return
    if kind == "include":
        inc = [k for k in t.cols if rng.random() < 0.8] or t.cols[:1]
        rng.shuffle(inc)
        conf["includeKeys"] = inc
        t.cols = inc
    if kind == "prefixkeys" and explicit:
        pass
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    fn = outs.names()
    which = rng.choice((("csv",), ("csv",), outs.ALL))
    outs.run(cx, fn, which, a, env)
    tab = outs.csv_tab(cx, fn["csv"])

    ordered = c == 1 or kind == "include"
    if sorted(tab.cols) != sorted(t.cols):
        raise Violation("columns differ: missing %r, unexpected %r" % (
            sorted(set(t.cols) - set(tab.cols))[:8], sorted(set(tab.cols) - set(t.cols))[:8]))
    if ordered and tab.cols != t.cols:
        raise Violation("order of columns differs: %r, expected %r" % (tab.cols[:20], t.cols[:20]))
    if len(tab.rows) != len(ds):
        raise Violation("%d rows, expected %d" % (len(tab.rows), len(ds)))
    kept_cells = 0
    for i, (d, row) in enumerate(zip(ds, tab.rows)):
        got = dict(zip(tab.cols, row))
        kept = {}
        for e in model.walk(d, keep=keep, hook=hook):
            if e.container and e.path in keep:
                kept.setdefault(e.path, e.value)
        for col in t.cols:
            w, g = t.rows[i].get(col, ""), got[col]
            if col in kept:
                kept_cells += 1
                try:
                    v = load(g)
                except (ValueError, Bad):
                    raise Violation("row %d column %r is not JSON: %r, expected %r" % (i + 1, col, g[:300], w[:300]))
                if v != shape(kept[col]):
                    raise Violation("row %d column %r: %r is not equivalent to %r" % (i + 1, col, g[:300], w[:300]))
            elif g != w:
                raise Violation("row %d column %r: expected %r, got %r" % (i + 1, col, w[:300], g[:300]))
    outs.check_all(cx, fn, tab, which)
    cx.count("rows", len(ds))
    cx.count("kept_cells", kept_cells)
    if kept_cells or kind in ("limit", "default"):
        cx.seen(data + repr(a).encode() + repr(env).encode())


def from_json(s):
    d = json.JSONDecoder(parse_float=gen.Num, parse_int=gen.Num, strict=False)
    return d.raw_decode(s)[0]
