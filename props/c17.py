"""C17: PostgreSQL dump loads: valid statements and values fit declared types."""
import re

from fw import gen, outs, parse
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline monitor of the dump as a trace of statements (grammar, declare before use, types of values)"
RULE = ("Random columns with every mix and order of value types (also rare types on late lines, several keys, letter case variants "
        "or array elements in one column, extracted and kept JSON values), transposed tables, parts of wide tables, several "
        "flushes of COPY blocks. Monitor: a strict reader of the dump checks grammar, single declaration before use, one "
        "field per declared column, terminated blocks, a type of each column; every non-empty value must be a literal of the "
        "declared type; row numbers are unique in main tables. Non-trivial: at least one typed column with a value; distinct "
        "by input, options and schedule.")
ASSUMPTIONS = ["strings have no NUL characters and no line with only a backslash-dot, names are not longer than PostgreSQL allows",
               "numbers are within the range of FLOAT8", "strings with a configured time format match it",
               "held on the executions listed, not for all inputs"]

_int = re.compile(r"[+-]?\d+\Z")
_float = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
_ts = re.compile(r"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d(:?\d\d)?)?\Z")


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("flush", 3), ("types", 260), ("late", 60), ("edge", 80), ("transpose", 120), ("parts", 60), ("time", 60), ("timemix", 80),
                    ("extract", 60), ("json", 80), ("merge", 120), ("case", 60), ("noscan", 40), ("prefix", 30), ("empty", 20),
                    ("multi", 40)):
        for i in range(n if q else n * 14):
            res.append({"kind": kind, "n": i})
    return res


def literal(tp, v):
    if tp == "INT8":
        return bool(_int.match(v)) and -2 ** 63 <= int(v) < 2 ** 63
    if tp == "FLOAT8":
        if not _float.match(v):
            return False
        f = float(v)
        return f not in (float("inf"), float("-inf")) and (f != 0 or not re.search(r"[1-9]", re.split("[eE]", v)[0]))
    if tp == "BOOL":
        return v in ("true", "false", "t", "f")
    if tp == "TIMESTAMP":
        return bool(_ts.match(v))
    return "\x00" not in v


def check_dump(cx, pg, table, transposed=(), typed=True):
    main = set()
    for tn, (cols, types, rows) in pg.tables.items():
        tr = any(tn == "%s_%s" % (table, d) or tn.startswith("%s_%s_part" % (table, d)) for d in transposed)
        if tn != table and not tr and not tn.startswith(table + "_part"):
            raise Violation("unexpected table %r" % tn)
        if pg.copies.get(tn, 0) == 0:
            raise Violation("table %r has no COPY" % tn)
        for c, t in zip(cols, types):
            if t not in ("INT8", "FLOAT8", "BOOL", "TIMESTAMP", "VARCHAR"):
                raise Violation("column %r of table %r has type %r" % (c[:100], tn, t))
        if cols[0] != "_seq_id" or types[0] != "INT8":
            raise Violation("table %r starts with %r %r instead of the row number" % (tn, cols[0], types[0]))
        if not tr:
            main.add(tn)
            if len({r[0] for r in rows}) != len(rows):
                raise Violation("row number is not unique in table %r" % tn)
            if not pg.primary[tn][0]:
                cx.count("main_tables_without_primary_key")
        elif pg.primary[tn][0] and len({r[0] for r in rows}) != len(rows):
            raise Violation("primary key is not unique in table %r" % tn)
        for j, (c, t) in enumerate(zip(cols, types)):
            if t != "VARCHAR":
                cx.count("columns_" + t)
            n = 0
            for i, r in enumerate(rows):
                v = r[j]
                if v == "":
                    if j == 0:
                        raise Violation("table %r row %d has no row number" % (tn, i + 1))
                    continue
                n += 1
                if (typed or j == 0) and not literal(t, v):
                    raise Violation("table %r column %r is declared as %s, row %d has %r" % (tn, c[:100], t, i + 1, v[:200]))
            cx.count("values_" + t, n)
    if table not in main:
        raise Violation("table %r is not declared, there are %r" % (table, sorted(pg.tables)[:10]))


def num(rng):
    r = rng.random()
    if r < 0.35:
        return gen.Num(str(rng.randint(-10 ** rng.randint(1, 18), 10 ** rng.randint(1, 18))))
    if r < 0.6:
        return gen.Num(("%." + str(rng.randint(1, 17)) + "f") % rng.uniform(-1e6, 1e6))
    return gen.Num(rng.choice(EDGE))


EDGE = ["0", "-0", "1.0", "-1.50", "1e5", "1E5", "1e+5", "1E-7", "1.5e300", "123456789012345678901234567890", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "9007199254740993", "1e22", "1e18",
        "100000.0", "0.0", "0e0", "1e-300", "1e19", "4294967296", "1.0e0", "2e0"]


EVIL = ['a"b', '"', '""', 'q"', "x,y", "new\nline", "it's", "back\\slash", "\u00e9", "a b", ");--", "VARCHAR", "\t", "select", "$1", "(", "a;b"]


def val(rng, t):
    if t == "i":
        return gen.Num(str(rng.choice((0, 1, -1, 2 ** 31, 2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1, rng.randint(-10 ** 6, 10 ** 6)))))
    if t == "f":
        return num(rng)
    if t == "b":
        return rng.random() < 0.5
    if t == "s":
        return rng.choice(("", "x", "1", "true", "1.5", "a,b", 'q"q', "two\nlines", "\\", " ", "NULL", "\\N", "日本"))
    if t == "o":
        return rng.choice(({}, {"in": num(rng)}, {"in": "s"}, {"in": None}))
    if t == "a":
        return [val(rng, rng.choice("ifbsn")) for _ in range(rng.randint(0, 3))]
    return None


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 3, 10, 60, 150))
    c = 1 if rng.random() < 0.2 else conc(rng)
    env = sched_env(rng, 0.5 if kind != "flush" else 0)
    a, conf, transposed = [], {}, []
    typed = True
    maxcols = 500
    ncol = rng.choice((1, 3, 8))
    if kind in ("late", "flush"):
        n = rng.choice((150, 400)) if kind == "late" else rng.choice((10000, 10001, 20010))
    # Types that take part in a column.
    plan = []
    for j in range(ncol):
        k = rng.choice((1, 1, 2, 2, 3))
        plan.append([rng.choice("iifbsn" + ("oa" if kind not in ("flush",) else "")) for _ in range(k)])
    ds = []
    for i in range(n):
        d = {}
        for j, ts in enumerate(plan):
            if rng.random() < 0.15 and n > 1:
                continue
            t = rng.choice(ts)
            if kind in ("late", "flush"):
                # The last type appears once, late.
                t = ts[0] if i != (n - 1 - j) else ts[-1]
            d["c%d" % j] = val(rng, t)
        ds.append(d)
    if rng.random() < 0.25:
        # Names that need quoting in statements.
        ev = rng.sample(EVIL, rng.randint(1, 3))
        for d in ds:
            for j, k in enumerate(ev):
                if rng.random() < 0.7:
                    d[k] = val(rng, "ifbs"[(j + case["n"]) % 4])
    if kind == "edge":
        ls = rng.sample(EDGE, min(len(EDGE), 4))
        ds = [{"e": gen.Num(rng.choice(ls)), "f": gen.Num(EDGE[(case["n"] + i * 7) % len(EDGE)]), "g": rng.choice((1, None, gen.Num(ls[0])))}
              for i in range(rng.choice((1, 2, 3, 30)))]
    elif kind == "transpose":
        ty = rng.choice(["y"] + EVIL)
        for i, d in enumerate(ds):
            ts = rng.choice(plan)
            d["t"] = [rng.choice((val(rng, rng.choice(ts)), {"x": val(rng, rng.choice(ts)), ty: val(rng, rng.choice("ifbsn")), "z": {"w": i}}))
                      for _ in range(rng.randint(0, 12))]
            if rng.random() < 0.7:
                d["m"] = {rng.choice(("a", "b", "0", "1", "12", "k k", "[3]", "[x]", "-1", "007", "99999999999999999999")): val(rng, rng.choice("ifbsn"))
                          for _ in range(rng.randint(0, 4))}
            if rng.random() < 0.1:
                d["m"] = [1, "x"]
        conf["transpose"] = {".t": "t", ".m": rng.choice(("m", "m", "t"))}
        transposed = sorted(set(conf["transpose"].values()))
        maxcols = rng.choice((500, 500, 3, 4))
    elif kind == "parts":
        w = rng.choice((5, 20, 60))
        for d in ds:
            for k in range(w):
                if rng.random() < 0.8:
                    d["w%d" % k] = val(rng, "ifbs"[k % 4] if rng.random() < 0.97 else "i")
        maxcols = rng.choice((2, 3, 5, w, w + 1, w + 2, 21, 11))
    elif kind == "time":
        for d in ds:
            if rng.random() < 0.9:
                d["ts"] = "20%02d-%02d-%02dT%02d:%02d:%02d%s" % (rng.randint(0, 99), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                                                 rng.randint(0, 59), rng.randint(0, 59), rng.choice(("Z", "+02:00", "-11:30")))
                d["Sub"] = {"at": rng.choice(("2020-01-02 03:04:05", None))}
        conf["parseTime"] = {".ts": "2006-01-02T15:04:05Z07:00", ".Sub.at": "2006-01-02 15:04:05"}
        if rng.random() < 0.5:
            conf["outputTZ"] = rng.choice(("UTC", "Asia/Tokyo", "America/New_York"))
        if rng.random() < 0.4:
            conf["outputTimeFormat"] = rng.choice(("2006-01-02 15:04:05", "2006-01-02T15:04:05.000Z07:00"))
        if rng.random() < 0.5:
            conf["replaceKeys"] = {".ts": "created", ".Sub.at": "at"}
        elif rng.random() < 0.5:
            # Names of columns are swapped.
            for d in ds:
                d["text"] = rng.choice(("abc", "12", ""))
            conf["replaceKeys"] = {".ts": ".text", ".text": ".ts"} if rng.random() < 0.6 else {".ts": "t", ".text": ".ts"}
    elif kind == "timemix":
        # Columns of times share values with other keys or have values of other types.
        at = lambda: "2020-%02d-%02d %02d:%02d:00" % (rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59))
        other = rng.choice("sifbno")
        rare = rng.random() < 0.5
        for d in ds:
            for k in rng.sample(("t1", "t2", "t3"), rng.randint(0, 3)):
                d[k] = at() if k != "t3" or rng.random() < 0.7 else val(rng, other)
            if rng.random() < 0.7:
                d["arr"] = [{"at": at() if j < 2 or not rare else val(rng, other)} for j in range(rng.randint(0, 3))]
            if rng.random() < 0.3:
                d["T2"] = at() if rng.random() < 0.7 else val(rng, other)
        if other == "s" and not rare:
            for d in ds:
                if isinstance(d.get("t3"), str):
                    d["t3"] = at()
        elif other == "s":
            # Strings that are not parsed as time.
            for d in ds:
                d.pop("t3", None)
        conf["parseTime"] = {"." + k: "2006-01-02 15:04:05" for k in rng.sample(("t1", "t2", "t3", "arr.[0].at", "arr.[1].at", "arr.[2].at"),
                                                                             rng.randint(1, 6))}
        if other == "s" or not rare:
            conf["parseTime"].pop(".arr.[2].at", None)
        conf["replaceKeys"] = {k: rng.choice(("when", "when2")) for k in rng.sample((".t1", ".t2", ".t3", ".c0", ".c1", ".at"), rng.randint(0, 5))}
        if rng.random() < 0.4:
            conf["concatDelimiter"] = rng.choice((",", "", " "))
        if rng.random() < 0.7:
            conf["transpose"] = {".arr": "arr"}
            transposed = ["arr"]
    elif kind == "extract":
        for d in ds:
            d["js"] = gen.to_json(rng.choice(({"v": val(rng, rng.choice("ifbsnoa"))}, [val(rng, rng.choice("ifbs"))])))
            d["u"] = "http://host:%d/p?a=%s" % (rng.randint(1, 99), rng.choice(("1", "x", "true")))
        if rng.random() < 0.5:
            a.append("-extract-strings")
        else:
            conf["extractValuesRegex"] = {"^\\.js$": "JSON", "^\\.u$": "URL"}
    elif kind == "json":
        for i, d in enumerate(ds):
            d["kj"] = val(rng, rng.choice("oaoaifbsn"))
            d["hc"] = {"k%d" % rng.randint(0, 400): val(rng, rng.choice("ifbs")) for _ in range(3)} if rng.random() < 0.85 else val(rng, rng.choice("ifbsn"))
        conf["keepJSON"] = [".kj"]
        a += ["-children-limit", str(rng.choice((2, 5, 50)))]
    elif kind == "merge":
        m2 = rng.choice(["m2"] + EVIL)
        keys = [".c%d" % j for j in range(ncol)] + [".c0.in", ".c1.[0]"]
        conf["replaceKeys"] = {k: rng.choice(("m1", m2)) for k in keys if rng.random() < 0.8}
        if rng.random() < 0.5:
            conf["concatDelimiter"] = rng.choice((",", "", "::"))
        if rng.random() < 0.2:
            conf["includeKeys"] = ["const:x"]
            conf["includeKeysRegex"] = ["^\\.c"]
    elif kind == "case":
        for d in ds:
            for k in list(d):
                if rng.random() < 0.5:
                    d[k.upper()] = d.pop(k)
    elif kind == "noscan":
        conf["includeKeys"] = [".c0", ".c1", ".c2.in", "const:5"][:rng.randint(1, 4)]
    elif kind == "prefix":
        a += ["-match-line-prefix", r"(\S+) (\d*)"]
    elif kind == "empty":
        ds = [rng.choice(({}, {"o": {}}, {"a": []}, {"n": None})) for _ in range(rng.choice((1, 5)))]
        if rng.random() < 0.3:
            conf["includeKeys"] = ["const:1"]
    lns = [gen.to_json(d, rng, 0, 0) for d in ds]
    if kind == "prefix":
        lns = [rng.choice(("host 12 ", "a b ", "x ", "")) + l if rng.random() < 0.9 else "only prefix" for l in lns]
    if rng.random() < 0.15:
        lns[rng.randrange(len(lns))] = rng.choice(("x", "{"))
    if kind not in ("noscan",) and rng.random() < 0.1:
        a.append("-add-sequence")
    if rng.random() < 0.1:
        a.append("-skip-zero-cols")
    if rng.random() < 0.15:
        a.append("-replace-keys")
    table = rng.choice(("flatjsonl", "flatjsonl", "events", 'we"ird tb', "Select"))
    if table != "flatjsonl":
        a += ["-sql-table", table]
    if maxcols != 500:
        a += ["-sql-max-cols", str(maxcols)]
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    inputs = ["in.jsonl"]
    if kind == "multi" and len(lns) > 1:
        k = rng.randint(1, len(lns) - 1)
        cx.write("a.jsonl", "\n".join(lns[:k]) + "\n")
        cx.write("b.jsonl", "\n".join(lns[k:]) + "\n")
        inputs = ["a.jsonl", "b.jsonl"]
    else:
        cx.write("in.jsonl", "\n".join(lns) + "\n")
    fn = rng.choice(("d.sql", "d.sql", "d.sql", "d.sql.gz", "d.sql.zst"))
    cx.flat(["-verbosity", "0", "-pg-dump", fn] + a + inputs, env, outputs=(fn,))
    pg = outs.pg_tables(cx, fn)
    check_dump(cx, pg, table, transposed, typed)
    n = len(lns)
    for tn in parse.parts(pg.tables, table):
        if len(pg.tables[tn][2]) != n:
            raise Violation("table %r has %d rows for %d lines" % (tn, len(pg.tables[tn][2]), n))
    cx.count("copy_blocks", sum(pg.copies.values()))
    cx.count("tables", len(pg.tables))
    if any(t != "VARCHAR" for x in pg.tables.values() for t in x[1][1:]):
        cx.seen("\n".join(lns).encode("utf-8", "surrogateescape") + repr(a).encode() + repr(env).encode())
