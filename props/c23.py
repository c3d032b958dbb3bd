"""C23: skipping zero columns drops exactly the columns that have only zero values."""
import gzip
import json

from fw import gen, model, outs
from fw.core import Violation
from fw.gen import Num
from fw.util import compare, conc, sched_env

LEVEL = "exploration"
RULE = ("Keys with a planned distribution of values over lines: zeros of one or all kinds (null, false, empty string, 0, -0, 0.0, "
        "0e5, 0.000) everywhere, and a single or a few non-zero values at the first, last or a random line, at first or late "
        "appearance of the key, in one of letter case variants, in a nested object, an array, an extracted string, a line "
        "prefix, a container, beyond the limit of the key scan, in the second input. Random workers and perturbed schedules "
        "of key scan. Oracles: model of zero status of every column; the run without the option with dropped columns removed "
        "is the same table (bytes with one worker). Non-trivial: at least one column is dropped and one is kept.")
ASSUMPTIONS = ["columns are not selected explicitly, concatenated or transposed", "numbers do not underflow",
               "held on the executions listed, not for all inputs"]

ZEROS = [None, False, "", 0, Num("0"), Num("-0"), Num("0.0"), Num("0e5"), Num("0.000"), Num("-0.0e-3")]
NONZERO = [True, 1, Num("0.1"), Num("-1"), Num("1e-300"), Num("5e-324"), "0", "false", "null", " ", "\x00", "x", Num("1e22")]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("plain", 420), ("case", 200), ("nested", 160), ("extract", 80), ("prefix", 60), ("scan", 120), ("multi", 60),
                    ("outs", 80), ("wide", 40), ("big", 6), ("allzero", 20), ("cardinality", 60), ("race", 120)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def is_zero(v):
    if v is None or v is False:
        return True
    if v is True:
        return False
    if isinstance(v, Num):
        return float(v.lit) == 0
    if isinstance(v, int):
        return v == 0
    return v == ""


def column(rng, n, conts):
    """Values of a key over lines, Ellipsis is for absence."""
    zs = rng.choice(([rng.choice(ZEROS)], ZEROS, rng.sample(ZEROS, 2)))
    p = rng.choice((1, 1, 0.7, 0.2))
    vals = [rng.choice(zs) if rng.random() < p else ... for _ in range(n)]
    mode = rng.choice(("zero", "zero", "one", "one", "last", "first", "some", "all", "single", "cont"))
    nz = rng.choice(NONZERO)
    if mode == "one":
        vals[rng.randrange(n)] = nz
    elif mode == "last":
        vals[-1] = nz
    elif mode == "first":
        vals[0] = nz
    elif mode == "some":
        for _ in range(rng.randint(1, 4)):
            vals[rng.randrange(n)] = rng.choice(NONZERO)
    elif mode == "all":
        vals = [rng.choice(NONZERO) for _ in vals]
    elif mode == "single":
        vals = [...] * n
        vals[rng.randrange(n)] = rng.choice((nz, rng.choice(ZEROS)))
    elif mode == "cont" and conts:
        vals[rng.randrange(n)] = rng.choice(({"in": rng.choice(ZEROS)}, [], {}, [0], [1, None]))
    return vals


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 3, 10, 40, 120))
    if kind == "big":
        n = 20500
    if kind == "race":
        n = rng.choice((16, 60, 200))
    ncol = rng.choice((1, 2, 4, 8))
    if kind == "wide":
        ncol = rng.choice((60, 300))
    if kind == "big":
        ncol = 3
    names, low = [], set()
    while len(names) < ncol:
        k = gen.rkey(rng, rng.choice(("plain", "mixed"))) + ("" if ncol < 20 else str(len(names)))
        if "." in k or k.lower() in low or len(k) > 100:
            continue
        low.add(k.lower())
        names.append(k)
    if kind == "case":
        for k in list(names):
            for v in (k.upper(), k.title(), k.swapcase()):
                if v not in names and v.lower() == k.lower():
                    names.append(v)
    docs = [{} for _ in range(n)]
    for k in names:
        if kind == "allzero":
            vals = [rng.choice(ZEROS) for _ in range(n)]
        else:
            vals = column(rng, n, kind not in ("big", "cardinality"))
        for d, v in zip(docs, vals):
            if v is not ...:
                d[k] = v
    if rng.random() < 0.4:
        for d in docs:
            it = list(d.items())
            rng.shuffle(it)
            d.clear()
            d.update(it)
    args = []
    cs = rng.random() < (0.4 if kind == "case" else 0.1)
    mk = dict(case_sensitive=cs)
    if cs:
        args.append("-case-sensitive-keys")
    if kind in ("nested", "outs") and rng.random() < 0.8:
        docs = [{"a": d, "l": [d.get(k) for k in names if k in d][:3], "x": {"y": [{"z": d.get(names[0], 0)}]}}
                if rng.random() < 0.9 else {"a": rng.choice(ZEROS)} for d in docs]
    if kind == "extract":
        docs = [{"js": gen.to_json(d), "n": i % 2} if rng.random() < 0.9 else {"js": rng.choice(("", "x"))}
                for i, d in enumerate(docs)]
        args.append("-extract-strings")

        # Extracted values have their own columns.
        def num(o):
            if isinstance(o, dict):
                return {k: num(v) for k, v in o.items()}
            if isinstance(o, list):
                return [num(v) for v in o]
            return o

        def hk(path, s):
            if path != ".js" or not s.startswith("{"):
                return []
            return [("JSON", num(json.loads(s, parse_int=Num, parse_float=Num)))]
        mk["hook"] = hk
        if any("://" in k for k in names):
            return
    pre = []
    if kind == "prefix":
        args += ["-match-line-prefix", r"^(\w*) (\d*)\|"]
        z = rng.choice((("", ""), ("", "7"), ("w", ""), ("w", "0")))
        for i in range(n):
            a, b = z if rng.random() < 0.9 else rng.choice((("", ""), z))
            pre.append((a, b))
        mk["pre"] = lambda i: [("._prefix.[%d]" % j, ("_prefix", "[%d]" % j), v) for j, v in enumerate(pre[i])]
    elif rng.random() < 0.1:
        args.append("-add-sequence")
        mk["pre"] = lambda i: [("._sequence", ("_sequence",), Num(str(i + 1)))]
    if kind == "cardinality":
        args += ["-children-limit", "3"]
        pool = rng.choice((3, 4, 50))
        for d in docs:
            d["HC" if "hc" in low else "hc"] = {"k%d" % rng.randrange(pool): 0 for _ in range(2)}
        docs = [{"hcroot": d.get("hc", d.get("HC"))} if rng.random() < 0.5 else d for d in docs]
    else:
        args += ["-children-limit", "0"]
    scan = None
    if kind == "scan":
        scan = rng.choice((1, 2, max(1, n // 2), n, n + 1))
        args += ["-max-lines-keys", str(scan)]
    lns = [gen.to_json(d, rng, rng.choice((0, 0.1)), 0.05) for d in docs]
    if pre:
        lns = ["%s %s|%s" % (a, b, x) for (a, b), x in zip(pre, lns)]
    c = 1 if rng.random() < 0.4 else conc(rng)
    env = sched_env(rng, 0.6 if kind not in ("big",) else 0)
    if kind == "race":
        c = rng.choice((8, 16, 32))
        env["FLATJSONL_VERIF_SCHED"] = "%d:%d:%d" % (rng.randint(1, 1 << 30), rng.choice((20, 50)), rng.choice((200, 1000)))
        env.pop("GOMAXPROCS", None)
    args += ["-concurrency", str(c)]
    k = rng.randint(1, n) if kind == "multi" else n
    inputs = []
    for i, part in enumerate((lns[:k], lns[k:])):
        if part:
            b = gen.lines(rng, part, final=rng.random() < 0.8)
            if rng.random() < 0.05:
                inputs.append(cx.write("in%d.jsonl.gz" % i, gzip.compress(b)))
            else:
                inputs.append(cx.write("in%d.jsonl" % i, b))
    fn = outs.names()
    which = outs.ALL if kind in ("outs", "wide", "big") and not cs else ("csv", "raw")
    if any("\x00" in x for x in names) or kind == "wide":
        which = tuple(w for w in which if w != "sqlite")
    if kind != "cardinality":
        t = model.table(docs, scan=scan, **mk)
        zero = {x for x in t.canon}
        for i, d in enumerate(docs):
            if scan is not None and i >= scan:
                break
            evs = model.walk(d, (), mk.get("hook"))
            if "pre" in mk:
                evs = [model.Ev(p, s, False, v) for p, s, v in mk["pre"](i)] + evs
            for e in evs:
                if e.container or not is_zero(e.value):
                    zero.discard(e.path if cs else e.path.lower())
        keep = [(x, y) for x, y in zip(t.cols, t.canon) if y not in zero]
        dropped = len(t.cols) - len(keep)
        cols = [x for x, _ in keep]
        if not cols:
            which = tuple(w for w in which if w in ("csv", "raw"))
    outs.run(cx, fn, which, args + ["-skip-zero-cols"] + inputs, env, inp=None)
    b = cx.read(fn["csv"])
    tab = outs.csv_tab(cx, fn["csv"]) if b.strip(b"\n") else None
    raw = cx.read(fn["raw"])
    if kind != "cardinality":
        t.cols = cols
        if cols:
            if tab is None:
                raise Violation("CSV is empty, expected columns %r" % cols[:10])
            compare(cx, t, tab, order=c == 1, nocase=c != 1 and not cs)
            outs.check_all(cx, fn, tab, which)
        elif tab is not None:
            raise Violation("no columns are expected, CSV has %r" % b[:300])
    # The same run without the option.
    outs.run(cx, fn, ("csv", "raw"), args + inputs, sched_env(rng, 0.3 if kind != "big" else 0), inp=None)
    fb = cx.read(fn["csv"])
    if not fb.strip(b"\n"):
        if tab is not None:
            raise Violation("columns appear with zero columns skipped: %r" % b[:300])
        return
    full = outs.csv_tab(cx, fn["csv"])
    if tab is None:
        if kind == "cardinality":
            return
        cx.count("all_columns_dropped")
        if dropped and kind == "allzero":
            cx.seen(b"".join(x.encode("utf-8", "surrogateescape") for x in lns) + repr(args).encode())
        return
    nc = (lambda x: x.lower()) if not cs else (lambda x: x)
    pos = {nc(x): i for i, x in enumerate(full.cols)}
    for x in tab.cols:
        if nc(x) not in pos:
            raise Violation("column %r appears only with zero columns skipped" % x)
    if c == 1 and [x for x in full.cols if x in set(tab.cols)] != tab.cols:
        raise Violation("order of columns is changed: %r, without the option %r" % (tab.cols[:20], full.cols[:20]))
    if len(full.rows) != len(tab.rows):
        raise Violation("%d rows, %d without the option" % (len(tab.rows), len(full.rows)))
    ix = [pos[nc(x)] for x in tab.cols]
    for i, (r, f) in enumerate(zip(tab.rows, full.rows)):
        if r != [f[j] for j in ix]:
            raise Violation("row %d is %r, without the option %r" % (i + 1, r[:10], [f[j] for j in ix][:10]))
    if kind == "cardinality":
        # Zero status of columns comes from cells.
        have = {nc(x) for x in tab.cols}
        for j, x in enumerate(full.cols):
            z = all(f[j] in ("", "false") or _num0(f[j]) for f in full.rows)
            if not z and nc(x) not in have:
                raise Violation("column %r with values is dropped" % x)
        dropped = len(full.cols) - len(tab.cols)
        cx.count("high_cardinality_runs")
    cx.count("columns_dropped", dropped)
    cx.count("columns_kept", len(tab.cols))
    if raw is not None and len(raw) == 0:
        raise Violation("RAW output is empty")
    if dropped and tab.cols:
        cx.seen(b"".join(x.encode("utf-8", "surrogateescape") for x in lns) + repr(args).encode() + repr(env).encode())


def _num0(s):
    try:
        return float(s) == 0
    except ValueError:
        return False
