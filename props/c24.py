"""C24: field limit cuts only strings that are longer, to exactly the limit."""
from fw import gen, model, outs
from fw.core import Violation
from fw.gen import Num
from fw.util import cfg, compare, conc, get_csv, sched_env

LEVEL = "exploration"
RULE = ("Strings with lengths around the limit (limit-1, limit, limit+1, 2*limit, 0, thousands), with multi-byte characters, "
        "escapes and quotes at the cut, long numbers, booleans and nulls, nested and in arrays, as parts of a line prefix, as "
        "sources of extracted JSON and URL values, as values of replaced, coalesced, concatenated and transposed keys, "
        "limits 1..5000. Oracles: model of the table with strings cut by bytes; differential run without the limit for "
        "combinations of features (strings are marked, so that cells of strings are known in any output). Non-trivial: at "
        "least one string is cut and one is not; distinct by input, options and schedule.")
ASSUMPTIONS = ["limit is not combined with time conversion and keepJSON", "multi-byte strings are not cut in SQLite and PostgreSQL "
               "outputs", "numbers do not overflow", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("plain", 300), ("extract", 150), ("prefix", 80), ("concat", 120), ("getkey", 60), ("transpose", 100),
                    ("outs", 80), ("rename", 60), ("off", 20), ("big", 6), ("par", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def cut(s, limit):
    return s.encode("utf-8", "surrogateescape")[:limit].decode("utf-8", "surrogateescape")


CH = ["a", "b", " ", "\"", "\\", "\n", "é", "漢", "😀", ",", "{", "0", "\t", "/"]


def text(rng, limit, ascii=False):
    """String with a length in bytes near to the limit."""
    ln = max(0, rng.choice((limit - 1, limit, limit + 1, limit + 2, limit * 2, limit - 3, 0, rng.randint(0, limit * 3), limit, limit + 1)))
    if rng.random() < 0.02:
        ln = limit + rng.choice((1000, 70000))
    if ascii == "z":
        s = "z" + "".join(rng.choice("abc é😀,\"") for _ in range(max(0, ln - 1)))
        return s.encode()[:max(1, ln)].decode("utf-8", "ignore")
    if ascii:
        return "s" + "".join(rng.choice("abc019 ,;\"") for _ in range(max(0, ln - 1)))
    r = rng.random()
    if r < 0.4:
        return "".join(rng.choice("abcxyz019") for _ in range(ln))
    s = "".join(rng.choice(CH) for _ in range(ln))
    b = s.encode()
    if len(b) > ln and r < 0.9:
        s = b[:ln].decode("utf-8", "ignore")
        s += "z" * (ln - len(s.encode()))
    return s


def value(rng, limit, depth=2, ascii=False):
    r = rng.random()
    if r < 0.6:
        return text(rng, limit, ascii)
    if r < 0.75:
        return rng.choice((Num("123456789012345678901234567890"), Num("0.30000000000000004"), Num("1" * 30 + "." + "2" * 20),
                           Num("-1.5e-10"), Num(str(rng.randint(0, 10 ** 18)))))
    if r < 0.85:
        return rng.choice((True, False, None))
    if depth and r < 0.93:
        return {k: value(rng, limit, depth - 1, ascii) for k in rng.sample(("k", "l", "m n"), rng.randint(0, 2))}
    if depth:
        return [value(rng, limit, depth - 1, ascii) for _ in range(rng.randint(0, 3))]
    return text(rng, limit, ascii)


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 5, 20, 60))
    if kind == "big":
        n = 10100
    if kind == "par":
        n = 200
    limit = rng.choice((1, 2, 3, 4, 5, 8, 16, 50, 100, 255, 256, 1000, 4096, 5000))
    if kind in ("big", "par"):
        limit = rng.choice((1, 5, 20))
    c = 1 if rng.random() < 0.4 else conc(rng)
    env = sched_env(rng, 0.5 if kind != "big" else 0)
    args = ["-concurrency", str(c), "-children-limit", "0", "-case-sensitive-keys"] if rng.random() < 0.5 else \
        ["-concurrency", str(c), "-children-limit", "0"]
    keys = ["a", "b", "c", "d e", "f"][:rng.randint(1, 5)]
    if kind in ("transpose", "rename"):
        return marked(cx, kind, n, limit, args, env)
    ascii = "z" if kind == "extract" else kind == "outs"
    docs = [{k: value(rng, limit, 2, ascii) for k in keys if rng.random() < 0.9} for _ in range(n)]
    mk = {}
    conf = {}
    lns = None
    explicit = None
    concat = None
    if kind == "extract":
        kinds = {}
        for d in docs:
            for k in list(d):
                r = rng.random()
                if r < 0.4:
                    x = {"j": value(rng, limit, 1, ascii), "t": text(rng, limit, ascii)}
                    # Strings are not extracted again by accident.
                    s = gen.to_json(x, rng, 0, 0.05)
                    kinds[s] = ("JSON", x)
                    d[k] = s
                elif r < 0.55:
                    h, p = "host" + "x" * rng.randint(0, limit), "p" * rng.randint(1, limit + 2)
                    d[k] = "http://%s/%s" % (h, p)
                    kinds[d[k]] = ("URL", {"scheme": "http", "host": h, "path": [p]})
        if rng.random() < 0.5:
            args.append("-extract-strings")
        else:
            conf["extractValuesRegex"] = {"^\\.[a-z ]*$": "JSON"}
            kinds = {s: v for s, v in kinds.items() if v[0] == "JSON"}
        allk = {"." + k for k in keys}
        rx = "extractValuesRegex" in conf

        def hook(path, s):
            if s in kinds and (not rx or path in allk):
                return [kinds[s]]
            return []
        mk["hook"] = hook
    pre = None
    if kind == "prefix":
        args += ["-match-line-prefix", r"^([a-z]*)=([^|]*)\|"]
        pre = [("".join(rng.choice("xyz") for _ in range(rng.choice((0, limit, limit + 1, limit - 1)))),
                "".join(rng.choice("x \"é,0") for _ in range(rng.choice((0, limit, limit + 1, 3))))) for _ in docs]
        mk["pre"] = lambda i: [("._prefix.[%d]" % j, ("_prefix", "[%d]" % j), v) for j, v in enumerate(pre[i])]
    cs = "-case-sensitive-keys" in args
    t = model.table(docs, case_sensitive=cs, **mk)
    if kind == "getkey" and t.cols:
        explicit = [rng.choice(t.cols)]
        args += ["-get-key", explicit[0]]
        t.cols = explicit
    if kind == "concat" and len(keys) > 1:
        # All root scalars go into one column.
        conf["replaceKeys"] = {"." + k: "J" for k in keys}
        if rng.random() < 0.7:
            concat = rng.choice(("|", "", ", "))
            conf["concatDelimiter"] = concat
    if conf:
        args += cfg(conf)
    t.rows = []
    cuts = whole = 0
    for i, d in enumerate(docs):
        row = {}
        evs = [model.Ev(p, s, False, v) for p, s, v in mk["pre"](i)] if pre else []
        evs += model.walk(d, (), mk.get("hook"))
        for e in evs:
            if e.container or e.value is None or e.path not in t.cols:
                continue
            v = model.fmt(e.value)
            if isinstance(e.value, str) and kind != "off":
                s = cut(v, limit)
                if s != v:
                    cuts += 1
                else:
                    whole += 1
                v = s
            name = e.path
            if "replaceKeys" in conf and name in conf["replaceKeys"]:
                name = "J"
                if name in row:
                    if concat is not None:
                        row[name] += concat + v
                    continue
            row[name] = v
        t.rows.append(row)
    if "replaceKeys" in conf:
        cols = []
        for x in t.cols:
            x = "J" if x in conf["replaceKeys"] else x
            if x not in cols:
                cols.append(x)
        t.cols = cols
    lns = [gen.to_json(d, rng, 0, rng.choice((0, 0.05))) for d in docs]
    if pre:
        lns = ["%s=%s|%s" % (a, b, x) for (a, b), x in zip(pre, lns)]
    data = gen.lines(rng, lns)
    cx.write("in.jsonl", data)
    fn = outs.names()
    which = outs.ALL if kind == "outs" and t.cols else ("csv", "raw")
    outs.run(cx, fn, which, args + ["-field-limit", str(limit if kind != "off" else 0)], env)
    if not t.cols:
        if cx.read(fn["csv"]).strip(b"\n"):
            raise Violation("no columns are expected, CSV has %r" % cx.read(fn["csv"])[:300])
        return
    tab = get_csv(cx, fn["csv"])
    compare(cx, t, tab, order=c == 1)
    outs.check_all(cx, fn, tab, which)
    cx.count("strings_cut", cuts)
    cx.count("strings_whole", whole)
    if kind == "off" or (cuts and whole):
        cx.seen(data + repr(args).encode() + repr(env).encode())


def marked(cx, kind, n, limit, args, env):
    """Strings start with a letter that no other value has, runs with and without the limit are compared."""
    rng = cx.rng
    conf = {}
    docs = []
    for i in range(n):
        d = {"id": i, "a": value(rng, limit, 2, True), "tags": [value(rng, limit, 0, True) for _ in range(rng.randint(0, 4))],
             "m": {k: value(rng, limit, 1, True) for k in rng.sample(("x", "y", "z"), rng.randint(0, 3))},
             "arr": [{"k": value(rng, limit, 0, True), "v": text(rng, limit, True)} for _ in range(rng.randint(0, 3))]}
        docs.append(d)
    if kind == "transpose":
        conf["transpose"] = dict(rng.sample(((".tags", "tags"), (".m", "m"), (".arr", "arr")), rng.randint(1, 3)))
    else:
        r = rng.random()
        if r < 0.4:
            args.append("-replace-keys")
            # Unique names depend on order of keys.
            args[1] = "1"
        elif r < 0.7:
            conf["replaceKeysRegex"] = {r"^\.m\.(.+)$": "m_${1}|to_snake_case", r"^\.arr\.\[(\d)\]\.k$": "k${1}"}
        else:
            args += ["-key-limit", "4"]
            args[1] = "1"
    if rng.random() < 0.2:
        args += ["-skip-zero-cols"]
    if rng.random() < 0.2 and kind != "transpose":
        args += ["-add-sequence"]
    if conf:
        args += cfg(conf)
    data = gen.lines(rng, docs)
    cx.write("in.jsonl", data)
    res = []
    for lim in ([], ["-field-limit", str(limit)]):
        for f in list(conf.get("transpose", {}).values()):
            cx.rm("out.csv_%s.csv" % f, "out_%s.csv" % f)
        fn = outs.names()
        outs.run(cx, fn, ("csv",), args + lim, env)
        tabs = {}
        for dst in [None] + sorted(conf.get("transpose", {}).values()):
            f = fn["csv"] if dst is None else None
            if dst is not None:
                f = "out_%s.csv" % dst
                b = cx.read(f, must=False)
                if b is None or not b.strip(b"\n"):
                    tabs[dst] = None
                    continue
            elif not cx.read(f).strip(b"\n"):
                tabs[dst] = None
                continue
            tabs[dst] = get_csv(cx, f)
        res.append(tabs)
    cuts = whole = 0
    for dst, full in res[0].items():
        lim = res[1][dst]
        if (full is None) != (lim is None):
            raise Violation("table %r is present only with or without the limit" % dst)
        if full is None:
            continue
        one = args[1] == "1"
        if (full.cols != lim.cols) if one else (sorted(full.cols) != sorted(lim.cols)):
            raise Violation("table %r has columns %r, without the limit %r" % (dst, lim.cols[:20], full.cols[:20]))
        if len(full.rows) != len(lim.rows):
            raise Violation("table %r has %d rows, without the limit %d" % (dst, len(lim.rows), len(full.rows)))
        exp = []
        for r in full.rows:
            e = []
            for x in r:
                if x[:1] == "s":
                    y = cut(x, limit)
                    cuts += y != x
                    whole += y == x
                    x = y
                e.append(x)
            exp.append(e)
        ix = [lim.cols.index(x) for x in full.cols]
        got = [[r[j] for j in ix] for r in lim.rows]
        if dst is not None:
            exp.sort()
            got.sort()
        for i, (e, g) in enumerate(zip(exp, got)):
            if e != g:
                raise Violation("table %r row %d is %r, expected %r" % (dst, i + 1, g, e))
        cx.count("rows", len(exp))
        cx.count("tables_compared")
    cx.count("strings_cut", cuts)
    cx.count("strings_whole", whole)
    if cuts and whole:
        cx.seen(data + repr(args).encode() + repr(env).encode())
