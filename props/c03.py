"""C03: columns are exactly the distinct scalar keys, named by their path."""
from fw import gen, model
from fw.core import Violation
from fw.util import compare, conc, get_csv, run_csv, sched_env

LEVEL = "exploration"
RULE = ("Documents are generated over a pool of paths where the same path is a scalar, null, object, array or empty "
        "container in different lines, letter case of keys varies, and keys appear late or once. The header is compared "
        "with the set (order, with one worker) of scalar paths of an independent model, and cells with its values. "
        "Non-trivial: at least one column; distinct by input, options and schedule.")
ASSUMPTIONS = ["letter case is varied for ASCII letters only", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("big", 6), ("late", 24), ("case", 120), ("kinds", 240), ("empty", 40), ("order", 80), ("names", 60), ("longcase", 30),
                    ("nullonly", 40), ("odd", 60)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def variant(rng, k):
    r = rng.random()
    if r < 0.4:
        return k
    if r < 0.6:
        return k.upper()
    if r < 0.8:
        return k.capitalize()
    return "".join(ch.upper() if rng.random() < 0.5 else ch for ch in k)


def any_value(rng, depth=2):
    r = rng.random()
    if r < 0.25:
        return gen.rscalar(rng)
    if r < 0.4:
        return None
    if r < 0.5:
        return {}
    if r < 0.6:
        return []
    if depth == 0:
        return gen.rscalar(rng)
    if r < 0.8:
        return {k: any_value(rng, depth - 1) for k in rng.sample("abcd", rng.randint(1, 3))}
    return [any_value(rng, depth - 1) for _ in range(rng.randint(1, 3))]


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    c = rng.choice((1, 1, conc(rng)))
    a = []
    cs = False
    if kind == "kinds":
        ds = [{k: any_value(rng) for k in rng.sample(("p", "q", "r", "s"), rng.randint(0, 4))}
              for _ in range(rng.randint(1, 40))]
    elif kind == "empty":
        ds = [{k: rng.choice(({}, [], [[]], {"x": {}}, [{}], {"x": []}, None, [None], {"x": None}, {"x": [1]}))
               for k in rng.sample("abcdef", rng.randint(0, 6))} for _ in range(rng.randint(1, 8))]
        ds.append({"one": "1"})
        rng.shuffle(ds)
    elif kind == "nullonly":
        ds = []
        for i in range(rng.randint(1, 30)):
            d = {}
            for k in ("n", "m", "o"):
                if rng.random() < 0.7:
                    d[k] = rng.choice((None, None, None, {"n": None}, [None], {"n": 1} if rng.random() < 0.1 else None))
            ds.append(d)
        ds.append({"x": rng.choice((None, 1))})
    elif kind == "odd":
        # Names with dots and empty names.
        ks = ["", "a", "a.", ".a", "b..", "c.d", ".", "..", "e..f", " ", " g ", "h. ", "[0]", "i[0]", "[0].j", "k.[1]", "l]", "m\t", "n\u00a0"]
        rng.shuffle(ks)
        ks = ks[:rng.randint(1, 7)]
        sh = {k: rng.choice((0, 0, 1, 2, 3)) for k in ks}
        seen, ds = {}, []
        for i in range(rng.randint(1, 12)):
            d = {}
            for k in ks:
                if rng.random() < 0.7:
                    d[k] = (gen.rscalar(rng), {rng.choice(("", "x", ".")): gen.rscalar(rng, "plain")}, [1, {"": "s"}], {"": {"": {}}})[sh[k]]
            ds.append(d)
        for e in (e for d in ds for e in model.walk(d)):
            if seen.setdefault(e.path.lower(), e.segs) != e.segs:
                return  # Different elements with the same path.
    elif kind == "case":
        keys = rng.sample(gen.WORDS, 4) + rng.sample(("\u00e9t\u00e9", "\u043a\u043b\u044e\u0447", "gr\u00fcn", "\u03c9\u03bc\u03ad\u03b3\u03b1", "\u01c6x", "\uff41b"), 1)
        cs = rng.random() < 0.4
        if cs:
            a.append("-case-sensitive-keys")
        ds = []
        for i in range(rng.randint(1, 40)):
            d = {}
            for k in keys:
                for _ in range(rng.choice((0, 1, 1, 1, 2))):
                    v = rng.random()
                    d[variant(rng, k)] = (gen.rscalar(rng, "plain") if v < 0.6 else
                                          {variant(rng, "in"): gen.rscalar(rng, "plain")} if v < 0.9 else None)
            items = list(d.items())
            rng.shuffle(items)
            ds.append(dict(items))
    elif kind == "longcase":
        # Long paths (long segments or deep nesting) that differ in letter case or only in the tail.
        n = rng.choice((30, 60, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1025, 4100, 5200))
        base = "".join(rng.choice("abcdefgh") for _ in range(n))
        ds = []
        for i in range(rng.randint(2, 20)):
            k = rng.choice((base, base.upper(), base[:-1] + base[-1].upper(), base.capitalize(), base[:-1], base + "x"))
            v = rng.choice((gen.rscalar(rng, "plain"), {"in": 1}, {"In": "x"}, [1], None))
            ds.append({k: v, "s": i} if rng.random() < 0.6 else {"o": {"p": {k: v}}, "s": i})
    elif kind == "late":
        # Keys that are seen once, far from the start, at boundaries of worker recycling.
        n = rng.choice((101, 202, 450, 1200))
        ds = [{"id": i} for i in range(n)]
        for j, at in enumerate(rng.sample(range(n), 20) + [n - 1, 99, 100]):
            ds[at]["late%d" % j] = gen.rscalar(rng)
            if rng.random() < 0.5:
                ds[at]["deep"] = {"l%d" % j: [gen.rscalar(rng)]}
    elif kind == "order":
        c = 1
        ks = ["k%d" % i for i in range(rng.randint(3, 40))]
        ds = []
        for i in range(rng.randint(1, 30)):
            d = {}
            for k in rng.sample(ks, rng.randint(1, min(10, len(ks)))):
                d[k] = rng.choice((1, {"b": 1, "a": [1, 2]}, [1, {"z": 1}], None, {}))
            ds.append(d)
    elif kind == "big":
        a += ["-children-limit", "0"]
        w = rng.choice((100, 101, 1000, 3000))
        ds = [{"k%d" % (i * 13 + j): j for j in range(w)} for i in range(rng.randint(2, 5))]
        ds.append({"arr": list(range(w))})
    else:
        ds = gen.docs(rng, rng.choice((1, 3, 20, 80)), width=rng.choice((3, 10)), depth=3, unique=0.2)
        if rng.random() < 0.3:
            a.append("-case-sensitive-keys")
            cs = True

    data = gen.lines(rng, ds)
    env = sched_env(rng, 0.6)
    a += ["-concurrency", str(c)]
    run_csv(cx, data, a, env)
    t = model.table(ds, case_sensitive=cs)
    if not t.cols:
        b = cx.read("out.csv")
        if b.strip(b"\n"):
            raise Violation("no columns are expected, CSV has %r" % b[:200])
        return
    tab = get_csv(cx)
    if c > 1:
        # Any of the names that differ in case may be given to a shared column.
        if not cs:
            names = {e.path for d in ds for e in model.walk(d)}
            for n in tab.cols:
                if n not in names:
                    raise Violation("column %r is not a key of the data" % n[:200])
        compare(cx, t, tab, nocase=not cs)
    else:
        compare(cx, t, tab, order=True)
        cx.count("ordered_headers")
    cx.count("max_columns", len(t.cols))
    cx.seen(data + repr(a).encode() + repr(env).encode())
