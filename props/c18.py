"""C18: sequence numbers are exact."""
import sqlite3

from fw import gen, outs, parse
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline conservation monitor over the sequence numbers recorded in all outputs"
RULE = ("Every line carries its own number, so each row shows both its place in the input and its sequence number. Inputs of up to "
        "more than a million lines (six and seven digits), several files, blank lines, windows, transposed tables, renamed and "
        "concatenated sequence column, parts of wide tables, random schedules. Monitor: the sequence column, SQL row numbers and "
        "transposed sequence are the decimal text of the place of the line, in every output, and are stored as integers in "
        "SQLite. Non-trivial: at least two rows; distinct by input, options and schedule.")
ASSUMPTIONS = ["numbers above 1.5 million (quick) or 20 million (thorough) are not reached", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    if not q:
        res.append({"kind": "huge", "n": 0})
    for kind, n in (("million", 3), ("hundredk", 3), ("basic", 160), ("transpose", 160), ("multi", 80), ("window", 80),
                    ("rename", 80), ("parts", 60), ("blank", 60), ("types", 40)):
        for i in range(n if q else n * (2 if kind in ("million", "hundredk") else 14)):
            res.append({"kind": kind, "n": i})
    return res


def big(cx, case, kind):
    rng = cx.rng
    n = {"million": 1000003 + rng.randint(0, 3), "hundredk": 100002 + rng.randint(0, 10000), "huge": 17000000}[kind]
    m = case["n"] % 3
    with open(cx.path("in.jsonl"), "w") as f:
        step = 10000
        for s in range(1, n + 1, step):
            if m == 1:
                f.write("".join('{"i":"%d","t":[1]}\n' % i for i in range(s, min(n + 1, s + step))))
            else:
                f.write("".join('{"i":"%d"}\n' % i for i in range(s, min(n + 1, s + step))))
    c = rng.choice((2, 8, 16, 50))
    if m == 0 or kind == "huge":
        a = ["-csv", "o.csv", "-add-sequence"] + (["-raw", "o.raw", "-raw-delim", "|"] if kind == "hundredk" else [])
    elif m == 1:
        a = ["-csv", "o.csv", "-pg-dump", "o.sql"] + cfg({"transpose": {".t": "t"}})
    else:
        a = ["-pg-dump", "o.sql", "-add-sequence"] + (["-sqlite", "o.sqlite"] if kind == "hundredk" else [])
    cx.flat(["-verbosity", "0", "-concurrency", str(c)] + a + ["in.jsonl"], None, timeout=300)

    def check_lines(name, it, fmt, total=n):
        k = 0
        for l in it:
            k += 1
            w = fmt % ((k,) * fmt.count("%d"))
            if l.rstrip("\n") != w:
                raise Violation("%s row %d is %r, expected %r" % (name, k, l[:200], w))
        if k != total:
            raise Violation("%s has %d rows for %d lines" % (name, k, total))
        cx.count("rows", k)

    if "-csv" in a:
        with open(cx.path("o.csv")) as f:
            h = f.readline().rstrip("\n")
            want = {"._sequence,.i": "%d,%d", ".i": "%d", ".i,._sequence": "%d,%d"}.get(h)
            if want is None:
                raise Violation("CSV header is %r" % h)
            check_lines("CSV", f, want)
    if "-raw" in a:
        with open(cx.path("o.raw")) as f:
            check_lines("RAW", f, "%d|%d")
    if m == 1:
        with open(cx.path("o_t.csv")) as f:
            h = f.readline().rstrip("\n")
            check_lines("transposed CSV", f, "%d,0,1")
    if "-pg-dump" in a:
        seen = {}
        cur = None
        with open(cx.path("o.sql")) as f:
            for l in f:
                if l.startswith("COPY "):
                    cur = l.split('"')[1]
                    h = l.split("(")[1].split(")")[0].count(",") + 1
                elif l == "\\.\n":
                    cur = None
                elif cur is not None:
                    k = seen[cur] = seen.get(cur, 0) + 1
                    want = "%d,%d,0,1" % (k, k) if cur.endswith("_t") else ",".join([str(k)] * h)
                    if l.rstrip("\n") != want:
                        raise Violation("PostgreSQL dump table %r row %d is %r, expected %r" % (cur, k, l[:200], want))
        for t in ["flatjsonl"] + (["flatjsonl_t"] if m == 1 else []):
            if seen.get(t) != n:
                raise Violation("PostgreSQL dump table %r has %r rows for %d lines" % (t, seen.get(t), n))
        cx.count("rows", sum(seen.values()))
    if "-sqlite" in a:
        db = sqlite3.connect(cx.path("o.sqlite"))
        try:
            r = db.execute("select count(*), min(_seq_id), max(_seq_id), count(distinct _seq_id), "
                           "sum(_seq_id <> \"._sequence\"), sum(cast(_seq_id as text) <> \".i\"), "
                           "sum(typeof(_seq_id) <> 'integer'), sum(typeof(\"._sequence\") <> 'integer') from flatjsonl").fetchone()
        except sqlite3.Error as e:
            raise Violation("SQLite is not readable: %s" % e)
        finally:
            db.close()
        if tuple(r) != (n, 1, n, n, 0, 0, 0, 0):
            raise Violation("SQLite row numbers differ: %r for %d lines" % (r, n))
        cx.count("rows", n)
    cx.count("max_sequence", n)
    cx.seen((kind, m, n, c))


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind in ("million", "hundredk", "huge"):
        return big(cx, case, kind)
    n = rng.choice((2, 3, 10, 60, 120, 400))
    c = 1 if rng.random() < 0.15 else conc(rng)
    env = sched_env(rng, 0.7)
    a, conf = [], {}
    maxcols = 500
    ds = []
    for i in range(n):
        d = {"i": "L%d" % i, "v": gen.rscalar(rng, "plain")}
        if kind in ("transpose", "types") or rng.random() < 0.1:
            d["t"] = [rng.choice((i, {"x": i, "y": "s"}, "z")) for _ in range(rng.randint(0, 12))]
            d["m"] = {rng.choice(("a", "b", "c d")): i for _ in range(rng.randint(0, 3))}
        if kind == "parts":
            for k in range(8):
                d["w%d" % k] = k
        ds.append(gen.to_json(d, rng, 0, 0))
    pos = list(range(n))     # numbers of lines that are processed
    if kind == "blank":
        for i in range(n):
            if rng.random() < 0.3:
                ds[i] = rng.choice(("", " ", "x", "{", "[]", "\r"))
        if ds[-1] == "":
            ds[-1] = "{"
    exp_ids = ["L%d" % i if ds[i].startswith('{"') else "" for i in range(n)]
    if kind == "window":
        off = rng.choice((0, 1, n // 2, n - 1))
        mx = rng.choice((0, 1, n // 2 + 1, n, n + 3))
        a += ["-offset-lines", str(off)] + (["-max-lines", str(mx)] if mx else [])
        pos = pos[off:off + mx if mx else n]
    if kind == "parts":
        maxcols = rng.choice((2, 3, 5, 9))
        a += ["-sql-max-cols", str(maxcols)]
    trans = {}
    if kind == "transpose" or (kind == "types" and rng.random() < 0.5):
        trans = {".t": "t", ".m": rng.choice(("m", "t"))}
        conf["transpose"] = trans
    seqname = "._sequence"
    if rng.random() < 0.75 or kind == "rename":
        a.append("-add-sequence")
    if kind == "rename":
        r = rng.random()
        if r < 0.4:
            conf["replaceKeys"] = {"._sequence": "seq"}
            seqname = "seq"
        elif r < 0.6:
            conf["replaceKeysRegex"] = {"^\\._seq(.*)$": "S${1}"}
            seqname = "Suence"
        elif r < 0.8:
            conf["replaceKeys"] = {"._sequence": "both", ".i": "both"}
            conf["concatDelimiter"] = "/"
            seqname = "both"
        else:
            a.append("-replace-keys")
            seqname = "sequence"
    a += ["-concurrency", str(c)]
    if conf:
        a += cfg(conf)
    fn = outs.names()
    which = outs.ALL if rng.random() < 0.7 else ("csv", "pg")
    inputs = ["in.jsonl"]
    if kind == "multi":
        k = sorted(rng.randint(1, n) for _ in range(rng.randint(1, 4)))
        ps = [ds[x:y] for x, y in zip([0] + k, k + [n]) if x < y]
        inputs = []
        for j, p in enumerate(ps):
            inputs.append(cx.write("p%d.jsonl" % j, "\n".join(p) + rng.choice(("", "\n"))))
    else:
        cx.write("in.jsonl", "\n".join(ds) + "\n")
    outs.run(cx, fn, which, a + inputs, env, inp=None)
    tab = outs.csv_tab(cx, fn["csv"])
    if "-add-sequence" not in a and not any(d.startswith('{"') for d in ds):
        return      # no columns at all: a CSV file cannot show rows
    if len(tab.rows) != len(pos):
        raise Violation("CSV has %d rows for %d lines" % (len(tab.rows), len(pos)))
    idn = {"both": None, "sequence": "i"}.get(seqname, ".i")

    def column(tab, name):
        if name not in tab.cols:
            return None
        return [r[tab.cols.index(name)] for r in tab.rows]
    ids = [exp_ids[p] for p in pos]
    if "-add-sequence" in a:
        got = column(tab, seqname)
        if got is None:
            raise Violation("there is no sequence column %r: %r" % (seqname, tab.cols[:10]))
        exp = [str(i + 1) for i in range(len(pos))]
        if seqname == "both":
            exp = ["%s/%s" % (s, x) if x else s for s, x in zip(exp, ids)]
        if got != exp:
            i = next(i for i in range(len(exp)) if exp[i] != got[i])
            raise Violation("sequence column row %d: expected %r, got %r" % (i + 1, exp[i], got[i]))
        cx.count("sequence_column_values", len(exp))
    if idn is not None and any(ids):
        got = column(tab, idn)
        if got is not None and got != ids:
            i = next(i for i in range(len(ids)) if ids[i] != got[i])
            raise Violation("row %d belongs to line %r, expected %r" % (i + 1, got[i], ids[i]))
    # Row numbers of SQL tables are checked against rows of CSV.
    outs.check_all(cx, fn, tab, which, maxcols=maxcols, only=False)
    if trans:
        dsts = sorted(set(trans.values()))
        import json
        docs = [json.loads(ds[p]) for p in pos]
        for dst in dsts:
            exp = {}
            for i, d in enumerate(docs):
                keys = []
                for src, t in trans.items():
                    if t == dst:
                        v = d.get(src[1:])
                        keys += [str(x) for x in range(len(v))] if isinstance(v, list) else list(v or {})
                if keys:
                    exp[i + 1] = sorted(keys)
            if not exp:
                continue

            def check(rows, what, typ):
                got = {}
                last = 0
                for s, k in rows:
                    if typ is int and not isinstance(s, int):
                        raise Violation("%s: sequence %r is not an integer" % (what, s))
                    if typ is str and not s.isdigit():
                        raise Violation("%s: sequence is %r" % (what, s))
                    s = int(s)
                    if s < last:
                        raise Violation("%s: sequence %d follows %d" % (what, s, last))
                    last = s
                    got.setdefault(s, []).append(str(k))
                for s in sorted(set(got) | set(exp)):
                    if sorted(got.get(s, [])) != exp.get(s, []):
                        raise Violation("%s: line %d has elements %r, expected %r" % (what, s, sorted(got.get(s, [])), exp.get(s, [])))
                cx.count("transposed_rows", len(rows))

            def pick(cols, rows, what, sk=0):
                try:
                    j, k = cols.index("._sequence"), cols.index("._index")
                except ValueError:
                    raise Violation("%s: columns are %r" % (what, cols[:6]))
                return [(r[j], r[k]) for r in rows]
            t = outs.csv_tab(cx, "out_%s.csv" % dst)
            check(pick(t.cols, t.rows, "transposed CSV"), "transposed CSV", str)
            if "pg" in which:
                pg = outs.pg_tables(cx, fn["pg"])
                cols, types, rows = pg.tables["flatjsonl_" + dst]
                check(pick(cols, rows, "transposed PostgreSQL"), "transposed PostgreSQL", str)
                check([(r[0], r[cols.index("._index")]) for r in rows], "transposed PostgreSQL row number", str)
            if "sqlite" in which:
                sq = outs.sqlite_tables(cx, fn["sqlite"])
                cols, _, rows, _ = sq["flatjsonl_" + dst]
                check(pick(cols, rows, "transposed SQLite"), "transposed SQLite", int)
                check([(r[0], r[cols.index("._index")]) for r in rows], "transposed SQLite row number", int)
    if len(pos) > 1:
        cx.seen("\n".join(ds).encode() + repr(a).encode() + repr(env).encode())
    cx.count("rows", len(pos))
