"""C15: malformed lines never crash, hang or affect other lines."""
from fw import gen, model, outs
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
RULE = ("Valid lines are mixed with malformed ones: mutations of valid lines (cut, bit flips, inserted, removed and repeated "
        "bytes), bad numbers and escapes, binary data, deep nesting around and above the depth limit of the parser, long "
        "garbage, empty lines; with random options. Monitor: status zero, no panic report, as many rows as lines, rows of the "
        "valid lines equal to the model of a file without malformed ones (other columns are empty in them). Non-trivial: both "
        "kinds of lines are present; distinct by input, options and schedule.")
ASSUMPTIONS = ["malformed lines that the parser tolerates may add columns", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("mutate", 260), ("numbers", 90), ("deep", 50), ("binary", 90), ("fixed", 90), ("options", 220), ("reports", 80),
                    ("mixed", 160), ("long", 16), ("many", 8), ("single", 80)):
        for i in range(n if q else n * 14):
            res.append({"kind": kind, "n": i})
    return res


FIXED = ["", " ", "\t", "{", "}", "[", "]", "{}", "[]", "null", "true", "1", '"s"', "{{}", "{}}", "{]", "[}", '{"a"', '{"a":', '{"a":}', '{"a":1',
         '{"a":1,', '{"a":1,}', '{,}', '{"a" 1}', "{a:1}", "{'a':1}", '{"a":1 "b":2}', '{"a":[1,2', '{"a":[1,,2]}', '{"a":"', '{"a":"x',
         '{"a":"\\', '{"a":"\\u', '{"a":"\\u12', '{"a":"\\uZZZZ"}', '{"a":"\\ud800"}', '{"a":"\\udc00\\ud800"}', '{"a":"\\x"}', '{"a":tru}',
         '{"a":nul}', '{"a":truex}', '{"a":NaN}', '{"a":Infinity}', '{"a":-Infinity}', '{"a":undefined}', '{"":1}', '{"":{"":{}}}',
         '{"a":1}{"b":2}', '{"a":1} x', "\ufeff{\"a\":1}", "x{\"a\":1}", "{\x00}", "\x00", "{\"a\x00b\":1}", '{"a":"\x00"}', '{"a":1,"a":2,"a":{}}',
         '{"a":{"b":1},"a":2}', '{"a":[{"b":1}],"a":{"b":1}}', '{"a.b":1,"a":{"b":2}}', '{"[0]":1}', '{"a":{"[0]":1},"b":[1]}', "//", "/*{}*/",
         '{"a":/**/1}', "{ }", "{\"a\":1\r}", "\r", "\\", '"', "{\"", "{\"\\\":1}", '{"_sequence":5}', '{"._sequence":5}', '{"_prefix":["x"]}',
         '{"a":{"a":{"a":{"a":[[[[[]]]]]}}}}', '{"a":"{\\"b\\":"}', '{"a":"[1,"}', '{"a":"http://%"}', '{"a":"://"}', '{"a":"{\\"b\\":1}}}"}',
         '{"const:x":1}', '{"a":1e999}', '{"a":-}', '{"a":"\\ud83d"}']
NUMS = ["1-2", "-", "+1", "1e", "1e+", "1E-", "--1", "1..2", ".5", "5.", "0x10", "01", "1e999", "-1e999", "1e-999", "1_000", "1,2", "9" * 400,
        "0." + "1" * 400, "1e1e1", "e5", "-e", "1+1", "1.2.3", "infinity", "-Inf", "nan", "NaN", "1-", "1.e5", "0-0", "-.1", "1e5.5", "2-3-4",
        "1" * 20 + "e" + "1" * 20]


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 2, 3, 8))):
        if not b:
            break
        r = rng.random()
        p = rng.randrange(len(b))
        if r < 0.25:
            b[p] ^= 1 << rng.randrange(8)
        elif r < 0.4:
            del b[p:p + rng.choice((1, 1, 2, 10))]
        elif r < 0.55:
            b[p:p] = bytes([rng.choice(b'{}[]",:\\0123456789-+eE.tfn \x00\xff\x80/')])
        elif r < 0.75:
            del b[p:]
        elif r < 0.85:
            q = rng.randrange(len(b))
            b[p:p] = b[min(p, q):max(p, q)]
        elif r < 0.95:
            b[p] = rng.randrange(256)
        else:
            del b[:p]
    return bytes(b).replace(b"\n", b" ")


def deep(rng):
    d = rng.choice((10, 100, 250, 290, 298, 299, 300, 301, 302, 500, 1000, 20000))
    r = rng.random()
    if r < 0.3:
        s = '{"a":' * d + "1" + "}" * d
    elif r < 0.5:
        s = '{"deep":' + "[" * d + "1" + "]" * d + "}"
    elif r < 0.6:
        s = '{"deep":' + "[" * d
    elif r < 0.7:
        s = '{"a":[' * (d // 2) + "{}" + "]}" * (d // 2)
    elif r < 0.8:
        k = "k" * 30
        s = ('{"%s":' % k) * d + "true" + "}" * d
    elif r < 0.9:
        s = "{" * d
    else:
        # Strings inside of strings.
        s = "1"
        for _ in range(rng.randint(2, 9)):
            s = gen.to_json({"s": s})
    return s.encode()


def binary(rng):
    n = rng.choice((1, 2, 10, 100, 3000))
    b = bytes(rng.randrange(256) for _ in range(n))
    if rng.random() < 0.5:
        b = b'{"a":"' + b + b'"}'
    return b.replace(b"\n", b"")


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((2, 5, 20, 60))
    if kind == "many":
        n = rng.choice((400, 1100, 2100, 3000))
    c = 1 if rng.random() < 0.3 else conc(rng)
    env = sched_env(rng, 0.4)
    sch = gen.Schema(rng, width=5, depth=3, keymode="plain", valmode="mixed" if rng.random() < 0.5 else "plain")
    a, conf = [], {}
    good, lns = [], []
    share = rng.choice((0.2, 0.5, 0.9) if kind != "many" else (0.5, 0.9))
    extract = False
    for i in range(n):
        d = sch.doc()
        d["id"] = "L%d" % i
        js = gen.to_json(d, rng, rng.choice((0, 0.2)), 0.05).encode("utf-8", "surrogateescape")
        if rng.random() > share:
            good.append(d)
            lns.append(js)
            continue
        k = kind
        if k in ("mixed", "options", "reports", "single"):
            k = rng.choice(("mutate", "mutate", "numbers", "deep", "binary", "fixed"))
        if k == "mutate":
            b = mutate(rng, js)
        elif k == "numbers":
            key = rng.choice(list(d))
            if rng.random() < 0.5:
                b = b'{"id":' + rng.choice(NUMS).encode() + b',"z":1}'
            else:
                d2 = dict(d)
                d2[key] = gen.Num(rng.choice(NUMS))
                if rng.random() < 0.3:
                    d2["arr"] = [gen.Num(rng.choice(NUMS)) for _ in range(3)]
                b = gen.to_json(d2).encode("utf-8", "surrogateescape")
        elif k == "deep":
            b = deep(rng)
        elif k == "binary":
            b = binary(rng)
        elif k == "long":
            b = rng.choice((b"x" * 300000, b'{"a":"' + b"y" * 300000, b"{" * 300000, b'{"a":' + b"9" * 100000, b"[" * 200000 + b"]" * 200000,
                            b'{"a":[' + b"1," * 100000, b'{"a":"' + b"\\u00" * 50000))
        elif k == "many":
            b = rng.choice((b'{"a":', b"{bad}", b"text", b"{", b"")) if case["n"] % 2 else b'{"a":'
        else:
            b = rng.choice(FIXED).encode("utf-8", "surrogateescape")
        good.append(None)
        # A tail of carriage returns is a part of the line end.
        lns.append(b.replace(b"\n", b""))
    if not any(d is not None for d in good):
        good[0] = {"id": "L0"}
        lns[0] = b'{"id":"L0"}'
    t = model.table(good)
    hook = None
    check = True
    if kind in ("options", "deep") and rng.random() < 0.8:
        opt = rng.sample(("extract", "prefix", "seq", "limit", "case", "verbose", "children", "keep", "time", "transpose"), rng.randint(1, 4))
        if "extract" in opt and not any(isinstance(v, str) and (v[:1] in "{[" or "://" in v) for vs in t.vals for v in vs.values() if v):
            a.append("-extract-strings")
        if "prefix" in opt:
            a += ["-match-line-prefix", rng.choice((r"^(\S*)", r"(.)", r"([^{]*)$", "x(y)?"))]
        if "seq" in opt:
            a.append("-add-sequence")
        if "limit" in opt:
            a += ["-field-limit", "100000"]
        if "case" in opt:
            a.append("-case-sensitive-keys")
            t = model.table(good, case_sensitive=True)
        if "verbose" in opt:
            a += ["-verbosity", "2", "-progress-interval", "1ms"]
        if "children" in opt:
            a += ["-children-limit", "0"]
        if "keep" in opt:
            conf["keepJSON"] = [".a", ".zz"]
        if "time" in opt:
            conf["parseTime"] = {".a": "2006-01-02", ".zz.[0]": "RAW"}
        if "transpose" in opt:
            conf["transpose"] = {".a": "a", ".deep": "d"}
        # Options address keys of malformed lines only.
        if any(k in (".a", ".zz", ".deep") or k.startswith((".a.", ".zz.", ".deep.")) for k in map(str.lower, t.cols)):
            conf = {}
    if "-children-limit" not in a and rng.random() < 0.8:
        a += ["-children-limit", "0"]
    elif "-children-limit" not in a:
        kids = {}
        for d in good:
            if d is not None:
                for e in model.walk(d):
                    kids.setdefault(e.segs[:-1], set()).add(e.path)
        if any(len(v) > 30 for k, v in kids.items() if k):
            a += ["-children-limit", "0"]
    if kind == "single" and t.cols:
        sel = rng.sample(t.cols, min(len(t.cols), rng.choice((1, 1, 2))))
        t.cols = sel
        if "-case-sensitive-keys" not in a and len({e.path for d in good if d is not None for e in model.walk(d)}) != len(
                {e.path.lower() for d in good if d is not None for e in model.walk(d)}):
            return
        if len(sel) == 1:
            a += ["-get-key", sel[0]]
        else:
            conf["includeKeys"] = sel
    if kind == "reports":
        a += rng.sample(("-show-keys-flat", "-show-keys-info", "-show-keys-hier", "-show-json-schema"), rng.randint(1, 2))
        if rng.random() < 0.3:
            a.append("-replace-keys")
            check = False
        if rng.random() < 0.3:
            a.append("-skip-zero-cols")
            check = False
        if rng.random() < 0.2:
            a += ["-key-limit", "8"]
            check = False
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    if lns[-1] in (b"", b"\r"):
        lns[-1] += b"{"
    data = b"\n".join(lns) + (b"\n" if rng.random() < 0.8 else b"")
    cx.write("in.jsonl", data)
    fn = outs.names()
    # Column names of malformed lines may have NUL characters or differ in letter case only.
    which = ("csv",) if kind != "mixed" else ("csv", "raw", "pg")
    outs.run(cx, fn, which, a, env)
    b = cx.read(fn["csv"])
    if not b.strip(b"\n"):
        if t.cols and any(t.rows):
            raise Violation("CSV is empty, columns %r are expected" % t.cols[:5])
        return
    tab = outs.csv_tab(cx, fn["csv"])
    if len(tab.rows) != n:
        raise Violation("%d rows for %d lines" % (len(tab.rows), n))
    low = (lambda s: s) if "-case-sensitive-keys" in a else (lambda s: s.lower())
    if check:
        pos = {}
        for i, k in enumerate(tab.cols):
            if low(k) in pos and kind != "mixed":
                pass
            pos[low(k)] = i
        own = {low(k): k for k in t.cols}
        for i, (d, row) in enumerate(zip(good, tab.rows)):
            if d is None:
                continue
            exp = t.rows[i]
            for k in t.cols:
                w = exp.get(k, "")
                j = pos.get(low(k))
                if j is None:
                    if w != "":
                        raise Violation("column %r is missing, row %d has value %r" % (k, i + 1, w[:200]))
                    continue
                if row[j] != w:
                    raise Violation("row %d column %r: expected %r, got %r" % (i + 1, k[:200], w[:300], row[j][:300]))
            for k, v in zip(tab.cols, row):
                if v != "" and low(k) not in own and k != "._sequence":
                    raise Violation("row %d of a valid line has unexpected value %r in column %r" % (i + 1, v[:200], k[:200]))
            cx.count("valid_rows")
    if "-add-sequence" in a and "._sequence" in tab.cols:
        j = tab.cols.index("._sequence")
        if [r[j] for r in tab.rows] != [str(i + 1) for i in range(n)]:
            # The key may be present in a malformed line as well.
            if not any(b"_sequence" in x for x in lns):
                raise Violation("sequence is broken: %r" % [r[j] for r in tab.rows][:20])
    outs.check_all(cx, fn, tab, which)
    bad = sum(1 for d in good if d is None)
    cx.count("malformed_lines", bad)
    cx.count("lines", n)
    if bad and bad < n:
        cx.seen(data + repr(a).encode() + repr(env).encode())
