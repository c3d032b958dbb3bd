"""C05: key selection is a projection of the full table."""
import re

from fw import gen, model, parse
from fw.core import Violation
from fw.util import cfg, compare, conc, get_csv, run_csv, sched_env

LEVEL = "exploration"
RULE = ("Random documents and random selections (includeKeys, includeKeysRegex, excludeKeys, excludeKeysRegex, -get-key, "
        "const:, missing keys; exact names, * patterns and regular expressions; different letter case). Expected table is "
        "the projection of the model of the full table, computed independently; it is compared column by column (order of "
        "explicitly included keys exactly) and cell by cell. Non-trivial: selection differs from the full table; distinct "
        "by input, selection and schedule.")
ASSUMPTIONS = ["patterns are mutually unambiguous with respect to the order of included columns",
               "without a key scan included names have the letter case of the data",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("include", 120), ("getkey", 140), ("exclude", 90), ("regex", 120), ("mixed", 120), ("const", 40),
                    ("scancase", 40), ("getkeyscan", 60)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def star(p):
    """Pattern with * as a key segment."""
    return re.compile("^" + "([^.]+)".join(re.escape(x) for x in p.split("*")) + "$")


def esc(s):
    return re.sub(r"([\\.+*?()|\[\]{}^$])", r"\\\1", s)


def pattern(rng, keys):
    k = rng.choice(keys)
    segs = k.split(".")[1:]
    r = rng.random()
    if r < 0.55 and not re.search(r"[+?()|^$\\*]", k):
        p = "." + ".".join("*" if rng.random() < 0.5 else s for s in segs)
        return p, star(p)
    if r < 0.7:
        p = "^" + esc(k) + "$"
        return p, re.compile(p)
    if r < 0.85:
        p = "^\\." + esc(segs[0]) + "(\\.|$)"
        return p, re.compile(p)
    t = esc(segs[-1])
    return t + "$", re.compile(t + "$")


def plain_docs(rng, n, depth=3, keymode="plain"):
    s = gen.Schema(rng, width=rng.choice((3, 5, 8)), depth=depth, keymode=keymode, valmode="mixed", typemix=0.1)
    return [s.doc() for _ in range(n)]


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 10, 60, 130))
    if kind in ("getkey", "getkeyscan", "include") and rng.random() < 0.4:
        # Same name at different levels, names that are prefixes of others, dots in names, duplicate paths.
        pool = ("a", "ab", "abc", "b", "a.b", "b.c", "[0]", "c", "[1]", "x")

        def node(d):
            r = rng.random()
            if d == 0 or r < 0.35:
                return gen.rscalar(rng, "plain") if rng.random() < 0.85 else None
            if r < 0.8:
                return {k: node(d - 1) for k in rng.sample(pool, rng.randint(1, 4))}
            return [node(d - 1) for _ in range(rng.randint(0, 13))]
        ds = [{k: node(3) for k in rng.sample(pool, rng.randint(1, 5))} for _ in range(n)]
    else:
        ds = plain_docs(rng, n, keymode="mixed" if kind in ("include", "getkey") and rng.random() < 0.3 else "plain")
        if rng.random() < 0.08:
            # Wide table.
            for d in rng.sample(ds, min(3, len(ds))):
                for i in rng.sample(range(300), rng.choice((70, 130, 260))):
                    d["wide%d" % i] = gen.rscalar(rng, "plain")
    full = model.table(ds)
    keys = list(full.cols)
    if not keys:
        return
    c = 1 if rng.random() < 0.5 else conc(rng)
    if c > 1:
        # Column name of keys in different case depends on schedule.
        allp = {e.path for d in ds for e in model.walk(d)}
        if len({p.lower() for p in allp}) != len(allp):
            c = 1
    a = ["-concurrency", str(c)]
    conf = {}
    env = sched_env(rng, 0.4)
    regscan = False
    inc, incre, exc, excre = [], [], [], []

    def missing():
        return rng.choice((".nope", ".no.such.[0]", keys[0] + ".zz", keys[0] + "x", ".[99]"))

    def pick(m):
        res = [k for k in rng.sample(keys, min(len(keys), rng.randint(1, m)))]
        if rng.random() < 0.25:
            res.insert(rng.randint(0, len(res)), missing())
        return res

    if kind == "include":
        inc = pick(rng.choice((1, 6, 6, 60)))
        if rng.random() < 0.2:
            # A key may be listed more than once: it is one column, where it was named first.
            for _ in range(rng.randint(1, 3)):
                inc.insert(rng.randint(0, len(inc)), rng.choice(inc))
        if rng.random() < 0.3:
            exc = rng.sample(inc, 1)
        if rng.random() < 0.35:
            excre = [pattern(rng, keys) for _ in range(rng.randint(1, 3))]
    elif kind in ("getkey", "getkeyscan"):
        inc = [rng.choice(keys) if rng.random() < 0.9 else missing()]
        if kind == "getkeyscan":
            # Pattern matching nothing but the key makes a scan of keys.
            incre = [("^" + esc(rng.choice(inc + ["nothing"])) + "$", None)]
            incre = [(incre[0][0], re.compile(incre[0][0]))]
            if rng.random() < 0.5:
                inc = []
    elif kind == "exclude":
        exc = [k for k in pick(4)]
        if rng.random() < 0.5:
            excre = [pattern(rng, keys) for _ in range(rng.choice((1, 1, 2, 3)))]
    elif kind == "regex":
        incre = [pattern(rng, keys) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.4:
            exc = pick(2)
        if rng.random() < 0.4:
            excre = [pattern(rng, keys) for _ in range(rng.choice((1, 1, 2, 3)))]
    elif kind == "mixed":
        inc = pick(4)
        if rng.random() < 0.6:
            incre = [pattern(rng, keys)]
        if rng.random() < 0.6:
            exc = pick(3)
        if rng.random() < 0.4:
            excre = [pattern(rng, keys) for _ in range(rng.choice((1, 1, 2, 3)))]
    elif kind == "const":
        inc = pick(3)
        for v in rng.sample(("", "my-value", "a,b", "1", "x:y", 'q"', "const:z", "日本", "a b"), rng.randint(1, 3)):
            inc.insert(rng.randint(0, len(inc)), "const:" + v)
        if rng.random() < 0.3:
            incre = [pattern(rng, keys)]
    elif kind == "scancase":
        # With a scan, names are matched regardless of case.
        inc = [k for k in pick(3)]
        inc = [k.upper() if rng.random() < 0.5 else k for k in inc]
        if len({k.lower() for k in inc}) != len(inc):
            return
        incre = [pattern(rng, keys)]
        exc = [k.upper() for k in pick(2)] if rng.random() < 0.5 else []

    scan = bool(incre) or not inc
    if not scan and len({e.path for d in ds for e in model.walk(d)}) != len({e.path.lower() for d in ds for e in model.walk(d)}):
        # Without a scan only the exact name is looked up.
        cs_data = True
    else:
        cs_data = False
    if cs_data and kind != "scancase":
        full = model.table(ds, case_sensitive=True)
        a.append("-case-sensitive-keys")
        if not all(k in set(full.cols) for k in keys):
            return

    # Selection.
    lc = (lambda s: s) if "-case-sensitive-keys" in a else (lambda s: s.lower())
    excs = {lc(k) for k in exc}
    cols = []
    for k in inc:
        if lc(k) in excs or any(r.search(k) for _, r in excre) or k in cols:
            continue
        cols.append(k)
    got = {lc(k) for k in cols}
    explicit = len(cols)
    if incre or not inc:
        for k in full.cols:
            if lc(k) in got or lc(k) in excs or any(r.search(k) for _, r in excre):
                continue
            if incre and not any(r.search(k) for _, r in incre):
                continue
            cols.append(k)
            got.add(lc(k))
    bycanon = {lc(k): k for k in full.cols}
    exp_cols, vals = [], []
    for k in cols:
        if k.startswith("const:"):
            exp_cols.append(k)
            vals.append(("c", k[6:]))
        else:
            src = bycanon.get(lc(k))
            exp_cols.append(src or k)
            vals.append(("k", src))
    if len(set(exp_cols)) != len(exp_cols):
        return
    rows = []
    for r in full.rows:
        o = {}
        for n_, (t, s) in zip(exp_cols, vals):
            if t == "c":
                if s:
                    o[n_] = s
            elif s in r:
                o[n_] = r[s]
        rows.append(o)

    if inc:
        if kind in ("getkey", "getkeyscan") and rng.random() < 0.7:
            a += ["-get-key", inc[0]]
        else:
            conf["includeKeys"] = inc
    if incre:
        conf["includeKeysRegex"] = [p for p, _ in incre]
    if exc:
        conf["excludeKeys"] = exc
    if excre:
        conf["excludeKeysRegex"] = [p for p, _ in excre]
    if conf:
        a += cfg(conf)
    data = gen.lines(rng, ds)
    run_csv(cx, data, a, env)
    b = cx.read("out.csv")
    if not exp_cols:
        if b.strip(b"\n"):
            raise Violation("no columns are selected, CSV has %r" % b[:200])
        return
    tab = parse.read_csv(b)
    t = model.Table()
    t.cols, t.rows = exp_cols, rows
    if tab.cols[:explicit] != exp_cols[:explicit]:
        raise Violation("explicitly included columns are not in the given order: %r, expected %r" % (
            tab.cols[:explicit], exp_cols[:explicit]))
    compare(cx, t, tab, order=c == 1)
    cx.count("selected_columns", len(exp_cols))
    if len(exp_cols) == 1:
        cx.count("single_key_runs")
    if exp_cols != full.cols:
        cx.seen(data + repr(a).encode() + repr(env).encode())
