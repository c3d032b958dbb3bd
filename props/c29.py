"""C29: combined options give the composition of their effects."""
import datetime as dt
import re
import zoneinfo

from fw import gen, model, outs, parse, ref
from fw.core import Violation
from fw.util import cfg, compare, conc, sched_env
from props import c06, c10

LEVEL = "exploration"
RULE = ("Random documents and line prefixes with random combinations of 2 to 10 features (line prefix, sequence, extraction from "
        "strings, kept JSON, children limit, selection, exclusion, renaming, coalescing, concatenation, constants, transposing, "
        "time formats, field limit, zero columns, line windows, several and compressed inputs, malformed lines). Main and "
        "transposed tables of all outputs are compared with a reference model of the whole tool. Non-trivial: at least two "
        "features that apply to the data and at least one value; distinct by input, options and schedule.")
ASSUMPTIONS = ["transposed prefixes and patterns do not overlap", "field limit is not combined with time formats",
               "line windows have a single input file", "with several workers keys do not differ only in letter case",
               "held on the executions listed, not for all inputs"]

FEATURES = ("prefix", "seq", "extract", "extractre", "keep", "children", "include", "includere", "exclude", "getkey", "const",
            "replace", "merge", "replacere", "concat", "snake", "keylimit", "transpose", "time", "field", "zero", "window",
            "maxkeys", "multi", "gz", "malformed", "casevar", "cs", "mem")


def cases(tier, rng):
    q = tier == "quick"
    res = []
    pairs = [(a, b) for i, a in enumerate(FEATURES) for b in FEATURES[i + 1:]]
    rng.shuffle(pairs)
    for p in pairs * (1 if q else 12):
        res.append({"kind": "pair", "feats": list(p)})
    for i in range(500 if q else 9000):
        res.append({"kind": "random", "n": i})
    return res


class World(c10.World):
    """Embedded documents that have one serialized form."""

    def json(self, emb):
        d = self.doc(3, emb, top=True)
        s = gen.to_json(d, self.rng, 0, 0)
        if len(s) > 2:
            self.js[s] = d
        return s

    def url(self, emb=0):
        while True:
            s = super().url(0)
            if any("." in k for k in self.urls[s].get("query", ())):
                continue
            if not re.search(r'[<>&\"\\]', gen.to_json(self.urls[s]).replace('"', "")) and '\\"' not in gen.to_json(self.urls[s]):
                return s


class RFC:
    """Reference of parsing RFC 3339 time and formatting it."""

    def __init__(self, tz):
        self.tz = zoneinfo.ZoneInfo(tz) if tz else None

    def __call__(self, s):
        t = dt.datetime.fromisoformat(s.replace("Z", "+00:00"))
        if self.tz is not None:
            t = t.astimezone(self.tz)
        return t.strftime("%Y-%m-%d %H:%M:%S")


def raw(s):
    return s


def stamp(rng):
    return "20%02d-%02d-%02dT%02d:%02d:%02d%s" % (rng.randint(0, 37), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                                 rng.randint(0, 59), rng.randint(0, 59),
                                                 rng.choice(("Z", "Z", "+02:00", "-05:30", "+14:00")))


def run_case(cx, case):
    rng = cx.rng
    if case["kind"] == "pair":
        fs = set(case["feats"])
        if rng.random() < 0.5:
            fs |= set(rng.sample(FEATURES, rng.randint(0, 3)))
    else:
        fs = set(rng.sample(FEATURES, rng.randint(2, 10)))
    merged_time = "time" in fs and rng.random() < 0.25
    if merged_time:
        fs |= {"merge", "concat"}
    for a, b in (("time", "field"), ("window", "multi"), ("maxkeys", "multi"), ("cs", "casevar")):
        if a in fs and b in fs:
            fs.discard(rng.choice((a, b)))
    if fs & {"include", "getkey", "const"}:
        fs.discard("zero")
        if "includere" not in fs:
            fs -= {"casevar", "snake"} if rng.random() < 0.5 else {"casevar"}
    if "maxkeys" in fs or "getkey" in fs:
        fs.discard("casevar")
    sp = ref.Spec()
    c = 1 if rng.random() < 0.5 or fs & {"casevar"} else conc(rng)
    w = World(rng)
    n = rng.choice((1, 3, 10, 40, 130))
    embedded = bool(fs & {"extract", "extractre"})

    def leaf():
        return c10.safe(rng)

    def obj(ks, p=0.6):
        ks = [k for k in ks if rng.random() < p]
        rng.shuffle(ks)
        return {k: leaf() for k in ks}

    sch = gen.Schema(rng, width=rng.choice((2, 4)), depth=2, keymode="plain", valmode="plain")
    reserved = {"id", "ts", "ts2", "tags", "m", "arr", "js", "u", "hc", "z1", "z2", "kj", "code", "grp"}
    mkeys = ["alpha", "Beta", "x y", "e-1", "[0]", "07", "0", "[07]", "l" * 66 + "1", "l" * 66 + "2"]

    def doc(i):
        d = {k: v for k, v in sch.doc().items() if k.lower() not in reserved}
        d["id"] = "L%d" % i
        r = rng.random
        if r() < 0.7:
            d["ts"] = stamp(rng) if r() < 0.9 else None
        if r() < 0.4:
            d["ts2"] = stamp(rng)
        if r() < 0.6:
            d["tags"] = [leaf() for _ in range(rng.randint(0, 4))]
        if r() < 0.6:
            d["m"] = {k: leaf() if r() < 0.6 else obj(("p", "q")) for k in rng.sample(mkeys, rng.randint(0, 4))}
        if r() < 0.6:
            d["arr"] = [dict(list(obj(("k1", "k2", "k3")).items()) + ([("at", stamp(rng))] if r() < 0.5 else [])) if r() < 0.9
                        else leaf() for _ in range(rng.randint(0, 4))]
        if r() < 0.5 or embedded:
            d["js"] = w.json(rng.choice((0, 0, 1))) if r() < 0.8 else w.url(0) if r() < 0.5 else rng.choice(c10.BAD_JSON)
        if r() < 0.5 or embedded:
            d["u"] = w.url(0) if r() < 0.85 else rng.choice(c10.BAD_URL)
        if r() < 0.5 or "children" in fs:
            d["hc"] = {"c%d" % rng.randint(0, 9): leaf() if r() < 0.7 else {"v": leaf()} for _ in range(rng.randint(0, 5))}
        if r() < 0.5 or "zero" in fs:
            d["z1"] = rng.choice((0, 0, 0, 0, 0.0, "", False, None, 1 if r() < 0.1 else 0))
            d["z2"] = rng.choice(("", None, False, {"z": 0}, {"z": ""}))
        if r() < 0.5 or "keep" in fs:
            d["kj"] = rng.choice(({"a": 1, "b": [leaf(), {"c": leaf()}]}, [leaf(), leaf()], leaf(), {}, []))
        if "casevar" in fs:
            d[rng.choice(("code", "Code", "CODE"))] = leaf()
            if r() < 0.2:
                d[rng.choice(("cOde", "codE"))] = leaf()
        items = list(d.items())
        if r() < 0.5:
            rng.shuffle(items)
        return {k: gen.Num("0.0") if isinstance(v, float) else v for k, v in items}

    files = [[], []] if "multi" in fs and n > 1 else [[]]
    raws = [[] for _ in files]
    for i in range(n):
        d = doc(i)
        pre = ""
        text = gen.to_json(d, rng, 0, 0)
        if "prefix" in fs and rng.random() < 0.85:
            pre = rng.choice(("host%d 2024/01/02 " % (i % 3), "noise ", "a b c d e f ", "k=1;k=2;", "é é "))
        if "malformed" in fs and rng.random() < 0.2:
            text, d = rng.choice(("", "x", "{]", '{"a":', '{"id" 1}', "nothing here")), None
        line = pre + text
        if line.startswith("{") and len(line) >= 2:
            p = None
        else:
            pos = line.find("{")
            p = line if pos <= 0 else line[:pos]
        f = i * len(files) // n
        files[f].append(ref.Line(p, d))
        raws[f].append(line)
    if any(not any(x) for x in raws):
        return

    a, conf = [], {}
    if "prefix" in fs:
        pat = rng.choice((r"(\S+) ([\d/]*)", r"k=(\d)", r"^(\w+)", r"^(.*)$"))
        sp.prefix = re.compile(pat.encode())
        if rng.random() < 0.5:
            a += ["-match-line-prefix", pat]
        else:
            conf["matchLinePrefix"] = pat
    if "cs" in fs:
        sp.case_sensitive = True
        a.append("-case-sensitive-keys")
    if "seq" in fs:
        sp.sequence = True
        a.append("-add-sequence")
    if "extract" in fs:
        sp.find = w.find
        a.append("-extract-strings")
    if "extractre" in fs:
        x = rng.sample((("^\\.js$", ".js", "JSON", w.js.get), (".u", ".u", "URL", w.urls.get)), rng.randint(1, 2))
        conf["extractValuesRegex"] = {p: k for p, _, k, _ in x}
        sp.extract = {p: (k, f) for _, p, k, f in x}
    if "keep" in fs:
        sp.keep = set(rng.sample((".kj", ".kj.b", ".m.alpha", ".arr.[0]", ".js.JSON", ".js", ".nope"), rng.randint(1, 3)))
        conf["keepJSON"] = sorted(sp.keep)
    limit = 100
    if "children" in fs:
        limit = rng.choice((2, 4, 6, 9, 10, 12))
        a += ["-children-limit", str(limit)]
        if rng.random() < 0.3:
            sp.allow = {".hc"}
            conf["allowCardinality"] = [".hc"]
    sp.limit_children = limit
    if "exclude" in fs:
        sp.exclude = rng.sample((".ts", ".tags.[1]", ".code", ".z1", ".nope", ".arr.[0].k1", ".js"), rng.randint(0, 3))
        rx = rng.sample(((".m.al*", r"^\.m\.al([^.]+)$"), (r"^\.arr\.\[\d+\]\.k2", r"^\.arr\.\[\d+\]\.k2"), (".*.[0]", r"^\.([^.]+)\.\[0\]$"),
                         (r"URL\.", r"URL\."), (".hc.*.v", r"^\.hc\.([^.]+)\.v$")), rng.randint(0, 2))
        if sp.exclude:
            conf["excludeKeys"] = [k.upper() if not sp.case_sensitive and rng.random() < 0.3 else k for k in sp.exclude]
        if rx:
            conf["excludeKeysRegex"] = [p for p, _ in rx]
            sp.exclude_re = [re.compile(p) for _, p in rx]
    if "window" in fs:
        sp.offset = rng.choice((0, 1, n // 2, n))
        sp.max = rng.choice((0, 1, n // 2, n + 5))
        a += ["-offset-lines", str(sp.offset), "-max-lines", str(sp.max)]
    if "maxkeys" in fs:
        sp.max_keys = rng.choice((1, n // 2 + 1))
        a += ["-max-lines-keys", str(sp.max_keys)]
    if "transpose" in fs:
        tr = dict(rng.sample(((".tags", "tags"), (".m", "m"), (".arr", "arr"), (".js.JSON", "js"), (".u.URL.query", "q"), (".kj", "kj"),
                              (".arr.[1]", "one"), ("._prefix", "pre")), rng.randint(1, 4)))
        if ".arr" in tr:
            tr.pop(".arr.[1]", None)
        if rng.random() < 0.3 and len(tr) > 1:
            k = sorted(tr)
            tr[k[0]] = tr[k[1]]
        sp.transpose = conf["transpose"] = tr
    rep = {}
    if "replace" in fs:
        rep.update({".id": "The ID", ".ts": "time"})
    if "merge" in fs:
        for k in rng.sample((".tags.[0]", ".tags.[1]", ".z1", ".arr.[0].k1", ".m.alpha", ".kj", ".k1", ".k2", "._value", ".u", ".hc.c1",
                             "._prefix.[0]", ".js.JSON.a", ".ts", ".ts2", ".ts", ".ts2", "const:second", "const:abc"), rng.randint(2, 5)):
            rep[k] = "grp"
        if merged_time:
            rep[".ts"] = rep[".ts2"] = "grp"
    if rep:
        sp.replace = conf["replaceKeys"] = rep
    if "replacere" in fs:
        rx = rng.sample(((r"^\.m\.(.+)$", "m_${1}", None), (r"^\.hc\.([^.]+)$", "h ${1}", None), (r"^\.(k\d)$", "key ${1}", None),
                         (r"^\.arr\.\[\d+\]\.(k\d)$", "arr ${1}", None), (r"^\.u\.URL\.(.+)$", "URL ${1}", c06.to_snake)), rng.randint(1, 3))
        sp.replace_re = [(re.compile(p), t, s) for p, t, s in rx]
        conf["replaceKeysRegex"] = {p: t + ("|to_snake_case" if s else "") for p, t, s in rx}
    if "concat" in fs:
        sp.concat = conf["concatDelimiter"] = rng.choice(("|", "", ", ", "é"))
    if "zero" in fs:
        sp.zero = True
        a.append("-skip-zero-cols")
    if "field" in fs:
        sp.field = rng.choice((1, 2, 5, 20, 1000))
        a += ["-field-limit", str(sp.field)]
    if "time" in fs:
        tz = rng.choice(("", "UTC", "Europe/Berlin", "America/New_York"))
        f = RFC(tz)
        sp.times = {k: f for k in (".ts", ".ts2", ".arr.[0].at", ".arr.[1].at")}
        conf["parseTime"] = {k: "2006-01-02T15:04:05Z07:00" for k in sp.times}
        conf["parseTime"][".id"] = "RAW"
        conf["outputTimeFormat"] = "2006-01-02 15:04:05"
        if tz:
            conf["outputTZ"] = tz
    if "mem" in fs:
        a += ["-mem-limit", rng.choice(("1", "0", "5000"))]

    # Explicit selection needs names of keys.
    full = ref.run(sp, files)
    avail = list(full.keys)
    inc = []
    if "include" in fs and avail:
        inc += rng.sample(avail, rng.randint(1, min(6, len(avail))))
        tk = sorted({e.path for f in files for ln in f[:20] for e in ref.elements(sp, ln, 1, sp.keep)
                     if not e.container and not any(e.path.startswith(h + ".") for h in full.hc)})
        if tk:
            inc += rng.sample(tk, min(len(tk), rng.randint(0, 4)))
        if rng.random() < 0.3:
            inc.append(".nope")
    if "const" in fs:
        inc.insert(rng.randint(0, len(inc)), "const:" + rng.choice(("abc", "", "a,b", "1")))
        if rng.random() < 0.3:
            inc.append("const:second")
    inc = [k for i, k in enumerate(inc) if k.lower() not in {x.lower() for x in inc[:i]}]
    get = None
    if "getkey" in fs and avail:
        get = rng.choice(avail)
        if get.lower() in {x.lower() for x in inc}:
            get = None
    if "includere" in fs:
        rx = rng.sample(((r"^\.(id|tags|m|hc)(\.|$)", None), (r"z1$", None), (".arr.*.*", r"^\.arr\.([^.]+)\.([^.]+)$"), (".js*", None), (r"URL", None),
                         (".*", r"^\.([^.]+)$")), rng.randint(1, 3))
        conf["includeKeysRegex"] = [p for p, _ in rx]
        sp.include_re = [re.compile(q or p) for p, q in rx]
        if ".js*" in conf["includeKeysRegex"]:
            sp.include_re[conf["includeKeysRegex"].index(".js*")] = re.compile(r"^\.js([^.]+)$")
    ordered = c == 1
    if c > 1 and not inc and not get and not sp.include_re and not sp.zero and rng.random() < 0.7:
        # Order of columns is fixed.
        inc = [k for k in avail]
        if any(sp.transpose.values()):
            inc = []
        ordered = bool(inc)
    elif c > 1 and (inc or get) and not sp.include_re:
        ordered = True
    if inc:
        conf["includeKeys"] = inc
    sp.include = list(inc)
    if get:
        sp.include.append(get)
        a += ["-get-key", get]
    snake = False
    if "snake" in fs and ordered:
        snake = True
        a.append("-replace-keys")
    if "keylimit" in fs and ordered and not sp.replace_re:
        snake = True
        a += ["-key-limit", str(rng.choice((5, 8, 20)))]
    r = ref.run(sp, files)
    if sp.zero and not r.cols and not r.tables:
        return
    names = [x for t in r.tables.values() for x in t[0]]
    if any(x in ("._sequence", "._index") for x in names):
        return
    if any(x.lower() in ("_seq_id",) for x in names + r.cols):
        return
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    inp = []
    data = b""
    for i, ls in enumerate(raws):
        b = b"".join(x.encode("utf-8", "surrogateescape") + b"\n" for x in ls)
        name = "in%d.jsonl" % i
        if "gz" in fs:
            import gzip
            name += ".gz"
            cx.write(name, gzip.compress(b))
        else:
            cx.write(name, b)
        inp.append(name)
        data += b
    fn = outs.names()
    lower = [x.lower() for x in r.cols]
    sqlok = not sp.case_sensitive and len(set(lower)) == len(lower) and all(
        len({x.lower() for x in t[0]}) == len(t[0]) for t in r.tables.values())
    which = outs.ALL if sqlok and "-key-limit" not in a and rng.random() < 0.4 else ("csv",)
    for dst in r.tables:
        cx.rm("out_%s.csv" % dst, "out_%s.raw" % dst)
    env = sched_env(rng, 0.3)
    outs.run(cx, fn, which, a + inp[:-1], env, inp=inp[-1], timeout=120)

    tab = None
    if r.cols:
        tab = outs.csv_tab(cx, fn["csv"])
        if snake:
            # Names are made by the tool, they are in the same order.
            if len(tab.cols) != len(r.cols) or len(set(tab.cols)) != len(tab.cols):
                raise Violation("columns %r for keys %r" % (tab.cols[:30], r.keys[:30]))
            m = dict(zip(r.cols, tab.cols))
            for k, v in m.items():
                if k in rep.values() and v != k:
                    raise Violation("column %r is named %r" % (k, v))
        else:
            m = {x: x for x in r.cols}
        t = model.Table()
        t.cols = [m[x] for x in r.cols]
        t.rows = [{m[k]: v for k, v in row.items()} for row in r.rows]
        miss = [{m[k] for k in x} for x in r.missing]
        compare(cx, t, tab, order=ordered)
        if "raw" in which:
            outs.check_raw(cx, fn["raw"], tab, "\x1f|")
    elif parse.decompress(fn["csv"], cx.read(fn["csv"])).strip(b"\n"):
        raise Violation("main table has columns, none expected: %r" % cx.read(fn["csv"])[:200])
    sq = pg = None
    if "sqlite" in which:
        sq = outs.sqlite_tables(cx, fn["sqlite"])
        pg = outs.pg_tables(cx, fn["pg"])
        exp = {"flatjsonl"} | {"flatjsonl_" + d for d in r.tables}
        for tabs, what in ((set(sq), "SQLite"), (set(pg.tables), "PostgreSQL dump")):
            got = {x.rsplit("_part", 1)[0] for x in tabs}
            if got != exp:
                raise Violation("%s has tables %r, expected %r" % (what, sorted(got), sorted(exp)))
        if r.cols:
            outs.check_sqlite(cx, sq, "flatjsonl", tab, 500, nulls=lambda i, col: col in miss[i])
            outs.check_pg(cx, pg, "flatjsonl", tab, 500)
    for dst, (cols, rows) in r.tables.items():
        header = ["._sequence", "._index"] + cols
        if snake:
            tb = parse.read_csv(cx.read("out_%s.csv" % dst))
            if len(tb.cols) != len(header):
                raise Violation("transposed table %r has %d columns %r, expected %d %r" % (dst, len(tb.cols), tb.cols[:30], len(header), header[:30]))
            header = tb.cols
        exp = sorted([str(s), model.element_index(el)] + [row.get(x, "") for x in cols] for (s, _, el), row in rows.items())
        outs.check_transposed(cx, fn, which, dst, header, exp, sq, pg)
    cx.count("values", r.values)
    cx.count("merged_values", r.merged)
    cx.count("transposed_tables", len(r.tables))
    for f in sorted(fs):
        cx.count("with_" + f)
    if r.values and len(fs) > 1:
        cx.seen(data + repr(a).encode() + repr(env).encode())
