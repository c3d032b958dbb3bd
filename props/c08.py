"""C08: transposing moves values to separate tables without loss."""
import os

from fw import gen, model, outs, parse
from fw.core import Violation
from fw.util import cfg, compare, conc, sched_env

LEVEL = "exploration"
RULE = ("Random documents with arrays, maps, nested and mixed containers under transposed prefixes (several prefixes, several "
        "into one table, names that are prefixes of others, multi-digit and sparse indexes), expected tables are built by "
        "an independent model: rows by line, prefix and element, columns by remaining path. Main and transposed tables of "
        "CSV, RAW, SQLite and PostgreSQL are compared. Non-trivial: at least one transposed row; distinct by input, "
        "options and schedule.")
ASSUMPTIONS = ["transposed prefixes do not overlap", "order of rows of one line in a transposed table is not specified",
               "transposed objects have no keys _sequence and _index", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("large", 8), ("arrays", 100), ("maps", 100), ("nested", 120), ("mixed", 120), ("onetable", 60),
                    ("prefixes", 60), ("include", 60), ("parts", 40), ("keepjson", 30), ("rename", 30), ("gz", 10),
                    ("merge", 60), ("case", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def trim(segs, n):
    rest = segs[n + 1:]
    return "." + ".".join(rest) if rest else "._value"


class TT:
    """Expected transposed table: cols in order, rows {(seq, prefix, element): {col: text}}."""

    def __init__(self):
        self.cols = []
        self.rows = {}


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    c = 1 if rng.random() < 0.4 else conc(rng)
    a, conf = [], {}
    env = sched_env(rng, 0.4)
    maxcols = 500
    n = rng.choice((1, 2, 10, 60, 130))
    words = ["alpha", "", "beta", "x1", "y y", "é", "n-1", "0", "12", "[z]", "q\"", "long" * 9, "[0]", "[12]", "[012]", "[-3]",
             "[" + "9" * 19 + "]", "n" * 70 + "1", "n" * 70 + "2"]

    def leaf():
        return gen.rscalar(rng)

    def elem(d):
        r = rng.random()
        if d == 0 or r < 0.35:
            return leaf()
        if r < 0.8:
            return {k: elem(d - 1) for k in rng.sample(("a", "b", "c", "_value2", ""), rng.randint(0, 3))}
        return [elem(d - 1) for _ in range(rng.randint(0, 3))]

    def arr(m=6, d=1):
        return [elem(d) for _ in range(rng.choice((0, 1, 2, m)))]

    def mp(d=1):
        return {k: elem(d) for k in rng.sample(words, rng.randint(0, 4))}

    tr = {}
    keep = ()
    ren = {}
    delim = None
    if kind == "large":
        a += ["-children-limit", "0"]
        n = rng.choice((3, 60))
        m = rng.choice((101, 250, 400, 1100, 2600))
        if m > 1000:
            n = 3
        ds = [{"id": i, "arr": [leaf() if j % 3 else {"v": "%d.%d" % (i, j)} for j in range(rng.randint(0, m))]}
              for i in range(n)]
        ds.append({"arr": list(range(m))})
        tr = {".arr": "items"}
    elif kind == "arrays":
        ds = [{"id": "L%d" % i, "tags": arr(12), "o": {"list": arr(3)}, "z": leaf()} for i in range(n)]
        tr = {".tags": "tags", ".o.list": "list"}
    elif kind == "maps":
        ds = [{"id": "L%d" % i, "m": mp(), "n": {"m": mp(2)}} for i in range(n)]
        tr = {".m": "m", ".n.m": "nm"} if rng.random() < 0.7 else {".n": "n"}
    elif kind == "nested":
        ds = [{"id": "L%d" % i, "t": rng.choice((arr(3, 3), mp(3), [arr(2, 2), mp(1)])), "k": elem(2)} for i in range(n)]
        tr = rng.choice(({".t": "t"}, {".t": "t", ".k": "k"}, {".t.[0]": "first"}, {".t.[1].[0]": "deep"}))
    elif kind == "mixed":
        ds = []
        for i in range(n):
            d = {"id": "L%d" % i}
            for k in ("p", "q"):
                if rng.random() < 0.8:
                    d[k] = rng.choice((leaf(), arr(3), mp(), None, {}, [], arr(12, 2)))
            ds.append(d)
        tr = {".p": "p", ".q": "q"} if rng.random() < 0.7 else {".p": "p"}
    elif kind == "onetable":
        ds = [{"id": i, "a": arr(4), "b": arr(11), "c": {"d": mp(1), "e": arr(3)}} for i in range(n)]
        tr = rng.choice(({".a": "all", ".b": "all"}, {".a": "all", ".c.d": "all"}, {".c.d": "x", ".c.e": "x", ".b": "y"}))
        if rng.random() < 0.4:
            # Concatenations of a prefix and an element are the same for different elements.
            ds = [{"id": i, "a": {k: leaf() for k in rng.sample(("bc", "bb", "b", "c"), 2)}, "ab": {k: leaf() for k in ("c", "b")},
                   "abc": rng.choice((leaf(), mp(1)))} for i in range(n)]
            tr = rng.choice(({".a": "all", ".ab": "all"}, {".a": "all", ".ab": "all", ".abc": "all"}))
    elif kind == "prefixes":
        ds = [{"id": i, "tag": leaf(), "tags": arr(3), "tagsmore": {"x": leaf()}, "ta": [leaf()],
               "tags2": arr(2)} for i in range(n)]
        tr = rng.choice(({".tags": "tags"}, {".ta": "ta"}, {".tags": "t", ".ta": "u"}, {".tags.": "tags"}, {".tag": "tag"}))
    elif kind == "include":
        ds = [{"id": i, "tags": arr(4), "m": mp(), "z": leaf()} for i in range(n)]
        tr = {".tags": "tags", ".m": "m"}
    elif kind == "parts":
        maxcols = rng.choice((2, 3, 4, 6))
        a += ["-sql-max-cols", str(maxcols)]
        ds = [{"id": i, "z": leaf(), "t": [{k: leaf() for k in rng.sample("abcdefgh", rng.randint(0, 8))}
                                           for _ in range(rng.randint(0, 3))]} for i in range(n)]
        tr = {".t": "t"}
    elif kind == "keepjson":
        ds = [{"id": i, "t": [{"j": elem(2), "v": leaf()} for _ in range(rng.randint(0, 3))]} for i in range(n)]
        keep = {".t.[0].j", ".t.[1].j", ".t.[2].j"}
        conf["keepJSON"] = sorted(keep)
        tr = {".t": "t"}
    elif kind == "rename":
        ds = [{"id": i, "list": [{"code": leaf(), "userName": leaf()} for _ in range(rng.randint(0, 4))],
               "kv": {k: leaf() for k in ("x", "y")}} for i in range(n)]
        tr = {".list": "list", ".kv": "kv"}
        a.append("-replace-keys")
    elif kind in ("merge", "case"):
        ks = ["Ab", "aB", "ab", "AB", "z"] if kind == "case" else ["k%d" % i for i in range(6)]

        def obj(deep=True):
            r = {}
            for k in rng.sample(ks, rng.randint(0, 4)):
                x = rng.random()
                r[k] = None if x < 0.2 else obj(False) if x < 0.4 and deep else leaf()
            return r

        ds = []
        for i in range(n):
            d = [("t", [obj() if rng.random() < 0.85 else leaf() for _ in range(rng.randint(0, 4))]), ("id", i)]
            if rng.random() < 0.5:
                d.append(("m", {k: obj() for k in rng.sample(("e1", "e2", "[0]"), rng.randint(0, 3))}))
            rng.shuffle(d)
            ds.append(dict(d))
        tr = rng.choice(({".t": "t"}, {".t": "t", ".m": "m"}, {".t": "t", ".m": "t"}))
        if kind == "case":
            c = 1
        else:
            sel = rng.sample(["." + k for k in ks] + [".k0.k1", ".k1.k0", "._value"], rng.randint(2, 5))
            ren = {k: "x" for k in sel}
            if rng.random() < 0.3:
                ren.update({k: "y" for k in rng.sample(sorted(ren), 2)})
            if rng.random() < 0.4:
                ren = {"." + k: "x" for k in ks[:4]}
                conf["replaceKeysRegex"] = {r"^\.k[0123]$": "x"}
            else:
                conf["replaceKeys"] = ren
        if kind == "merge" and rng.random() < 0.4:
            delim = conf["concatDelimiter"] = rng.choice(("::", "", " ", "é"))
    else:
        ds = [{"id": i, "tags": arr(3)} for i in range(n)]
        tr = {".tags": "tags"}
    conf["transpose"] = tr

    allev = [model.walk(d, keep=keep) for d in ds]
    full = model.table(ds, keep=keep)
    if kind == "rename" and len({x.split(".")[-1] for x in full.cols}) == 0:
        return
    included = None
    if kind == "include":
        keys = list(full.cols)
        if not keys:
            return
        inc = rng.sample(keys, rng.randint(1, len(keys)))
        conf["includeKeys"] = inc
        if rng.random() < 0.4:
            conf["includeKeysRegex"] = ["^nothing$"]
        included = {k.lower() for k in inc}
        if rng.random() < 0.3:
            conf.pop("includeKeys")
            conf.pop("includeKeysRegex", None)
            conf["excludeKeys"] = inc
            included = {k.lower() for k in keys} - included

    pref = {}
    for p, dst in tr.items():
        p = p[:-1] if p.endswith(".") else p
        pref[tuple(p.split(".")[1:])] = dst

    def where(segs):
        for p, dst in pref.items():
            if len(segs) > len(p) and segs[:len(p)] == p:
                return p, dst
        return None, None

    tts = {}
    named = {}
    merged = 0

    def column(dst, segs, n_):
        """Name of column in a transposed table, names in different case are the same column."""
        name = trim(segs, n_)
        name = ren.get(name, name)
        return named.setdefault((dst, name.lower()), name) if kind == "case" else name

    moved = set()
    columns = {c.lower() for c in full.cols}
    for k in full.canon:
        pass
    segs_of = {}
    for evs in allev:
        for e in evs:
            segs_of.setdefault(e.path, e.segs)
    main_cols = []
    for col in full.cols:
        if included is not None and col.lower() not in included:
            p, dst = where(segs_of[col])
            if dst:
                moved.add(col)
            continue
        p, dst = where(segs_of[col])
        if dst is None:
            main_cols.append(col)
            continue
        moved.add(col)
        tt = tts.setdefault(dst, TT())
        name = column(dst, segs_of[col], len(p))
        if name not in tt.cols:
            tt.cols.append(name)
    if included is not None and "includeKeys" in conf:
        main_cols = [k for k in conf["includeKeys"] if k in main_cols]
    values = 0
    for i, evs in enumerate(allev):
        done = set()
        for e in evs:
            if e.container or e.path.lower() not in columns:
                continue
            if included is not None and e.path.lower() not in included:
                continue
            p, dst = where(e.segs)
            if dst is None:
                continue
            el = e.segs[len(p)]
            row = tts[dst].rows.setdefault((i + 1, p, el), {})
            name = column(dst, e.segs, len(p))
            if e.value is not None:
                if name not in row:
                    row[name] = model.fmt(e.value)
                else:
                    merged += 1
                    if delim is not None:
                        row[name] += delim + model.fmt(e.value)
            values += 1

    if kind == "rename":
        last = lambda n_: {"._value": "value"}.get(n_, "user_name" if n_ == ".userName" else n_.split(".")[-1])
        nm = {"._sequence": "sequence", "._index": "index"}
    else:
        last = lambda n_: n_
        nm = {}

    a += cfg(conf) + ["-concurrency", str(c)]
    data = gen.lines(rng, ds, *((0, 0) if keep else (None, None)))
    cx.write("in.jsonl", data)
    ext = rng.choice((".gz", ".zst")) if kind == "gz" else ""
    fn = outs.names("out", ext)
    which = outs.ALL if rng.random() < 0.6 else ("csv",)
    for dst in tts:
        cx.rm("out_%s.csv" % dst, "out_%s.raw" % dst)
    outs.run(cx, fn, which, a, env)

    # Main table.
    main = model.Table()
    main.cols = [last(x) for x in main_cols]
    main.rows = [{last(k): v for k, v in r.items() if k in set(main_cols)} for r in full.rows]
    if main.cols:
        tab = outs.csv_tab(cx, fn["csv"])
        compare(cx, main, tab, order=c == 1)
        if "raw" in which:
            outs.check_raw(cx, fn["raw"], tab, "\x1f|")
    elif parse.decompress(fn["csv"], cx.read(fn["csv"])).strip(b"\n"):
        raise Violation("main table has columns, none expected: %r" % cx.read(fn["csv"])[:200])
    sq = pg = None
    expt = {"flatjsonl"} | {"flatjsonl_" + d for d in tts}
    if "sqlite" in which:
        sq = outs.sqlite_tables(cx, fn["sqlite"])
        pg = outs.pg_tables(cx, fn["pg"])
        for tabs, what in ((set(sq), "SQLite"), (set(pg.tables), "PostgreSQL dump")):
            names = {x.rsplit("_part", 1)[0] for x in tabs}
            if names != expt:
                raise Violation("%s has tables %r, expected %r" % (what, sorted(names), sorted(expt)))
        if main.cols:
            outs.check_sqlite(cx, sq, "flatjsonl", tab, maxcols)
            outs.check_pg(cx, pg, "flatjsonl", tab, maxcols)

    # Transposed tables.
    for dst, tt in tts.items():
        header = [nm.get("._sequence", "._sequence"), nm.get("._index", "._index")] + [last(x) for x in tt.cols]
        exp = sorted([str(s), model.element_index(el)] + [row.get(x, "") for x in tt.cols] for (s, _, el), row in tt.rows.items())
        outs.check_transposed(cx, fn, which, dst, header, exp, sq, pg, maxcols)
    cx.count("transposed_values", values)
    cx.count("merged_values", merged)
    cx.count("transposed_tables", len(tts))
    if values:
        cx.seen(data + repr(a).encode() + repr(env).encode())
