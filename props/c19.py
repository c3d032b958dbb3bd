"""C19: key reports describe exactly the keys of the data."""
import json
import re

from fw import gen, mix, model, outs
from fw.core import Violation
from fw.gen import Num
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference model of keys and types, schema validator run on every input line"
RULE = ("Documents over shared schemas with mixes of scalars, nulls and containers at the same key, arrays of different shapes, "
        "letter case variants, rare keys and rare types placed anywhere, extracted, kept, transposed, replaced, included and "
        "excluded keys, many schedules. Monitors: flat list equals scalar keys of the model (same order with one worker); every "
        "line of keys info is predicted from the model; hierarchy is parsed and compared with the tree of segments; every input "
        "line is validated against the printed JSON schema by an independent validator, and types listed in the schema are "
        "exactly those seen; in random combinations of all features the numbered lines are compared with headers of outputs and "
        "types with cells. Non-trivial: at least two keys; distinct by input, options and schedule.")
ASSUMPTIONS = ["a node of JSON schema without \"type\" accepts any value", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("basic", 220), ("types", 200), ("arrays", 220), ("case", 120), ("include", 160), ("replace", 100),
                    ("transpose", 100), ("keep", 80), ("extract", 80), ("scanlimit", 60), ("hc", 60), ("mix", 160), ("wide", 12),
                    ("prefix", 40), ("deep", 20)):
        for i in range(n * 3 // 2 if q else n * 14):
            res.append({"kind": kind, "n": i})
    return res


def jtype(v):
    if isinstance(v, dict):
        return "object"
    if isinstance(v, (list, tuple)):
        return "array"
    return lit_type(v)


def lit_type(v):
    if v is None:
        return "null"
    if v is True or v is False:
        return "bool"
    if isinstance(v, (Num, int)):
        s = v.lit if isinstance(v, Num) else str(v)
        if re.fullmatch(r"-?\d+", s) and -(1 << 63) <= int(s) < 1 << 63:
            return "int"
        return "float"
    return "string"


def merged(ts):
    ts = set(ts) - {"null"}
    if not ts:
        return "null"
    if ts == {"int", "float"}:
        return "float"
    if len(ts) == 1:
        return next(iter(ts))
    return "string"


SCH = {"int": "integer", "float": "number", "bool": "boolean", "string": "string", "null": "null", "object": "object",
       "array": "array"}


class Keys:
    """Model of scanned keys."""

    def __init__(self, ds, case_sensitive=False, keep=(), hook=None, pre=None, seq=False):
        self.order = []           # canonical names in order of appearance
        self.first = {}           # canonical -> first seen name
        self.types = {}           # canonical -> scalar types
        self.exact = {}           # path -> types (with containers)
        self.segs = {}
        self.cs = case_sensitive
        for i, d in enumerate(ds):
            evs = []
            if seq:
                evs.append(model.Ev("._sequence", ("_sequence",), False, i))
            if pre is not None:
                evs += [model.Ev(p, s, False, v) for p, s, v in pre(i)]
            if d is not None:
                evs += model.walk(d, keep, hook)
            for e in evs:
                c = self.ck(e.path)
                if c not in self.first:
                    self.first[c] = e.path
                    self.order.append(c)
                self.segs[e.path] = e.segs
                ts = self.exact.setdefault(e.path, set())
                if e.container:
                    ts.add("array" if e.arr else "object")
                else:
                    t = lit_type(e.value)
                    ts.add(t)
                    self.types.setdefault(c, set()).add(t)
        # A key with only containers and nulls is not a scalar key.
        self.scalar = {p for p, ts in self.exact.items() if ts - {"object", "array", "null"} or ts == {"null"}}
        sc = {self.ck(p) for p in self.scalar}
        self.cols = [c for c in self.order if c in sc]

    def ck(self, p):
        return p if self.cs else p.lower()

    def flat(self):
        return [self.first[c] for c in self.cols]

    def type(self, c):
        return merged(self.types.get(c, ()))


# --- parsing of reports --------------------------------------------------------------------

def split_reports(out, reps):
    """Reports are printed in fixed order, returns {report: text}."""
    s = out.decode("utf-8", "surrogateescape")
    res = {}
    for r, head in (("-show-keys-flat", "keys:\n"), ("-show-keys-info", "keys info:\n")):
        if r in reps:
            if not s.startswith(head):
                raise Violation("%s: %r is expected, got %r" % (r, head, s[:200]))
            s = s[len(head):]
            e = len(s)
            if r == "-show-keys-flat" and "-show-keys-info" in reps:
                e = s.find("keys info:\n")
                if e < 0:
                    raise Violation("keys info is missing")
            elif "-show-keys-hier" in reps or "-show-json-schema" in reps:
                # First line that starts with a bracket and makes the rest valid JSON.
                e = None
                for m in re.finditer(r"(?m)^[\[{]", s):
                    try:
                        json_values(s[m.start():])
                    except ValueError:
                        continue
                    e = m.start()
                    break
                if e is None:
                    raise Violation("there is no valid JSON in report: %r" % s[-500:])
            res[r] = s[:e]
            s = s[e:]
    js = [r for r in ("-show-keys-hier", "-show-json-schema") if r in reps]
    if js:
        try:
            vals = json_values(s)
        except ValueError as e:
            raise Violation("report is not valid JSON (%s): %r" % (e, s[:500]))
        if len(vals) != len(js):
            raise Violation("%d JSON reports are expected, got %d" % (len(js), len(vals)))
        res.update(zip(js, vals))
    elif s.strip():
        raise Violation("unexpected output: %r" % s[:300])
    return res


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Violation("report repeats property %r" % k)
        d[k] = v
    return d


def json_values(s):
    dec = json.JSONDecoder(object_pairs_hook=nodup)
    res = []
    pos = 0
    while True:
        while pos < len(s) and s[pos] in " \n":
            pos += 1
        if pos == len(s):
            return res
        v, pos = dec.raw_decode(s, pos)
        res.append(v)


def flat_list(s):
    if s == "":
        return []
    if not s.startswith('"') or not s.endswith('",\n'):
        raise Violation("flat list is malformed: %r" % s[:300])
    return s[1:-3].split('",\n"')


def info_list(s):
    """Bodies of numbered lines."""
    res = []
    i = 1
    if s == "":
        return res
    if not s.startswith("1: "):
        raise Violation("keys info does not start with 1: %r" % s[:200])
    pos = 3
    while True:
        i += 1
        sep = "\n%d: " % i
        e = s.find(sep, pos)
        if e < 0:
            if not s.endswith("\n"):
                raise Violation("keys info does not end with new line")
            res.append(s[pos:-1])
            return res
        res.append(s[pos:e])
        pos = e + len(sep)


def tree(v, path="."):
    """Hierarchy report -> nested dicts."""
    if not isinstance(v, list):
        raise Violation("hierarchy has %r at %s" % (v, path))
    d = {}
    for x in v:
        if isinstance(x, str):
            n, sub = x, {}
        elif isinstance(x, dict) and len(x) == 1:
            n, sub = next(iter(x.items()))
            sub = tree(sub, path + n)
        else:
            raise Violation("hierarchy has %r at %s" % (x, path))
        if n in d:
            raise Violation("hierarchy repeats %r at %s" % (n, path))
        d[n] = sub
    return d


def diff_tree(e, g, path=""):
    for k in e:
        if k not in g:
            raise Violation("hierarchy does not have %s.%s" % (path, k))
        diff_tree(e[k], g[k], path + "." + k)
    for k in g:
        if k not in e:
            raise Violation("hierarchy has unexpected %s.%s" % (path, k))


def accepts(s, v, path="$"):
    """JSON schema validation, returns message or None."""
    ts = s.get("type")
    if ts is not None:
        t = SCH[jtype(v)]
        if t not in ts and not (t == "integer" and "number" in ts):
            return "%s: %s is not accepted by %r" % (path, t, ts)
    if isinstance(v, dict):
        for k, x in v.items():
            p = s.get("properties", {}).get(k)
            if p is not None:
                m = accepts(p, x, path + "." + k)
                if m:
                    return m
    elif isinstance(v, (list, tuple)):
        it = s.get("items")
        if it is not None:
            for i, x in enumerate(v):
                m = accepts(it, x, "%s[%d]" % (path, i))
                if m:
                    return m
    return None


def check_schema(cx, sch, ds, keys, exact=True, keep=(), hook=None, extra=()):
    if sch.get("title") != "Root":
        raise Violation("schema has no title: %r" % sch.get("title"))
    n = 0
    for i, d in enumerate(ds):
        if isinstance(d, dict):
            m = accepts(sch, d)
            if m:
                raise Violation("line %d is rejected by JSON schema: %s" % (i + 1, m))
            n += 1
    cx.count("lines_validated", n)
    # Types seen at each place of the schema.
    seen = {}

    def visit(v, node):
        if isinstance(v, dict):
            if node:
                seen.setdefault(node, set()).add("object")
            if node and path_of[node] in keep:
                seen[node].add("string")
                return
            for k, x in v.items():
                sub(x, node + (("p", k),), node, k)
        elif isinstance(v, (list, tuple)):
            if node:
                seen.setdefault(node, set()).add("array")
            if node and path_of[node] in keep:
                seen[node].add("string")
                return
            for k, x in enumerate(v):
                sub(x, node + (("i", ""),), node, "[%d]" % k)
        else:
            seen.setdefault(node, set()).add(SCH[lit_type(v)])
            if hook is not None and isinstance(v, str):
                for suf, x in hook(path_of[node], v):
                    sub(x, node + (("p", suf),), node, suf)

    path_of = {(): ""}

    def sub(x, node, parent, seg):
        path_of[node] = path_of[parent] + "." + seg
        visit(x, node)

    for d in ds:
        if isinstance(d, dict):
            visit(d, ())
    if extra:
        for p, t in extra:
            seen.setdefault((("p", p),), set()).add(SCH[t])
    got = {}

    def nodes(s, node):
        got[node] = s
        bad = set(s) - {"title", "type", "properties", "items"}
        if bad:
            raise Violation("schema has unknown members %r" % bad)
        ts = s.get("type", [])
        if len(set(ts)) != len(ts):
            raise Violation("schema repeats types %r at %r" % (ts, node))
        for k, x in s.get("properties", {}).items():
            nodes(x, node + (("p", k),))
        if "items" in s:
            nodes(s["items"], node + (("i", ""),))

    nodes(sch, ())
    for node, ts in seen.items():
        if ts <= {"object", "array", "null"} and ts != {"null"}:
            continue
        g = got.get(node)
        if g is None:
            raise Violation("schema has no place for %r" % (node,))
        miss = [t for t in ts if t not in g.get("type", [])]
        if miss:
            raise Violation("schema does not list %r at %r: %r" % (miss, node, g.get("type")))
        cx.count("schema_nodes")
    if exact:
        for node, g in got.items():
            if not node:
                continue
            if node not in seen:
                raise Violation("schema has %r, there are no such keys" % (node,))
            more = set(g.get("type", [])) - seen[node]
            if more:
                raise Violation("schema lists %r at %r, seen %r" % (more, node, seen[node]))


# --- workloads -----------------------------------------------------------------------------

def free(rng, depth, keys, cmix, leaf=None):
    """Value of any shape."""
    r = rng.random()
    if depth > 0 and r < 0.25:
        return {k: free(rng, depth - 1, keys, cmix) for k in rng.sample(keys, rng.randint(0, min(3, len(keys))))}
    if depth > 0 and r < 0.5:
        return [free(rng, depth - 1, keys, cmix) for _ in range(rng.randint(0, 3))]
    return rng.choice(cmix)(rng)


SC = {
    "i": lambda rng: rng.randint(-5, 5),
    "f": lambda rng: Num(rng.choice(("1.5", "1.0", "1e5", "-0.0", "9223372036854775808", "1e-7"))),
    "b": lambda rng: rng.random() < 0.5,
    "s": lambda rng: rng.choice(("", "x", "1", "true", "null", "é")),
    "n": lambda rng: None,
    "I": lambda rng: Num(rng.choice(("9223372036854775807", "-9223372036854775808", "0", "-0"))),
}


def documents(rng, kind, n):
    keymode = "plain" if kind in ("include", "replace", "transpose", "extract") or rng.random() < 0.4 else "mixed"
    if kind in ("basic", "include", "replace", "keep", "scanlimit", "prefix", "extract"):
        return gen.docs(rng, n, width=rng.choice((2, 5, 9)), depth=rng.randint(1, 4), keymode=keymode,
                        valmode=rng.choice(("plain", "mixed")), typemix=rng.choice((0, 0.15, 0.5)))
    if kind == "types":
        # A few keys, most values of one type, rare values of other types.
        ks = ["k%d" % i for i in range(rng.randint(1, 6))]
        base = {k: rng.choice("ifbsnI") for k in ks}
        rare = {k: [(rng.randrange(n), rng.choice("ifbsnI")) for _ in range(rng.choice((0, 1, 1, 2)))] for k in ks}
        ds = [{k: SC[base[k]](rng) for k in ks if rng.random() < 0.9} for _ in range(n)]
        for k in ks:
            for i, t in rare[k]:
                ds[i][k] = SC[t](rng)
        return ds
    if kind in ("arrays", "case", "transpose", "deep"):
        ks = ["a", "b", "c", "x"][:rng.randint(1, 4)]
        if kind == "case":
            ks = ["a", "A", "b", "B", "é", "É"][:rng.randint(2, 6)]
        cm = [SC[c] for c in rng.choice(("i", "in", "ifn", "s", "isb", "ifbsn", "n"))]
        dp = rng.randint(1, 4)
        ds = [{k: free(rng, dp, ks, cm) for k in ks if rng.random() < 0.7} for _ in range(n)]
        if kind == "deep":
            for _ in range(3):
                ds[rng.randrange(n)] = gen.deep(rng, rng.choice((20, 21, 25, 60)), rng.choice((1, "x", None)))
        return ds
    if kind == "hc":
        return [{"id": i, "h": {"k%d" % rng.randint(0, 60): rng.choice((1, "x", {"v": 1}, [1], None)) for _ in range(rng.randint(0, 4))},
                 "a": [1, 2][:rng.randint(0, 2)]} for i in range(n)]
    if kind == "wide":
        return [{"w%d" % rng.randint(0, 3000): rng.choice((1, "x", 1.5 and Num("1.5"), None)) for _ in range(rng.randint(1, 60))}
                for _ in range(n)]
    raise ValueError(kind)


def typed_ok(t, s):
    if s == "":
        return True
    if t == "int":
        return re.fullmatch(r"-?\d+", s) is not None
    if t == "float":
        try:
            float(s)
            return True
        except ValueError:
            return False
    if t == "bool":
        return s in ("true", "false")
    if t == "null":
        return False
    return True


def run_mix(cx, case):
    rng = cx.rng
    feats = None
    if rng.random() < 0.3:
        feats = {"transpose"} | set(rng.sample(("include", "includere", "snake", "replacere", "keylimit", "case", "multi", "children"), 2))
    w = mix.workload(cx, feats=feats, exclude=("reports", "window", "skipscan", "time", "malformed"), maxfeats=5)
    env = sched_env(rng, 0.6)
    reps = [r for r in mix.REPORTS if rng.random() < 0.3]
    if "-show-keys-info" not in reps:
        reps.append("-show-keys-info")
    r = cx.flat(w.args + reps + ["-concurrency", str(conc(rng)), "-csv", "out.csv"] + w.inputs, env)
    rep = split_reports(r.out, reps)
    info = [x for x in info_list(rep["-show-keys-info"])]
    tabs = {"": outs.csv_tab(cx, "out.csv")} if info else {}
    for dst in set(w.conf.get("transpose", {}).values()):
        if cx.read("out_%s.csv" % dst, must=False):
            tabs[dst] = outs.csv_tab(cx, "out_%s.csv" % dst)
    skipped = [x for x in info if x.endswith(", SKIPPED")]
    info = [x for x in info if not x.endswith(", SKIPPED")]
    marked = bool(w.conf.get("includeKeys") or w.conf.get("includeKeysRegex"))
    if skipped and not marked:
        raise Violation("keys are marked as skipped, everything is included: %r" % skipped[:3])
    main = [x for x in info if ", TRANSPOSED TO " not in x]
    known = "includeKeys" not in w.conf or "includeKeysRegex" in w.conf
    getkey = "getkey" in w.feats
    if "" in tabs and main:
        t = tabs[""]
        if len(main) != len(t.cols):
            raise Violation("keys info has %d columns, CSV has %d: %r, %r" % (len(main), len(t.cols), main[:5], t.cols[:5]))
        for i, (x, c) in enumerate(zip(main, t.cols)):
            k = x.rfind(", TYPE ")
            m = re.fullmatch(r", TYPE (\w*)((?:, (?:INCLUDED|EXTRACTED \w+))*)", x[k:]) if k >= 0 else None
            if not m:
                raise Violation("keys info line is malformed: %r" % x)
            if not (x[:k] == c or x[:k].endswith(", REPLACED WITH " + c)):
                raise Violation("keys info line %d is %r, column of CSV is %r" % (i + 1, x, c))
            if marked and ", INCLUDED" not in m.group(2):
                raise Violation("column %r is not marked as included: %r" % (c, x))
            if not known or getkey:
                continue
            for j, row in enumerate(t.rows):
                if not typed_ok(m.group(1), row[i]):
                    raise Violation("column %r has type %s in keys info, row %d has value %r" % (c, m.group(1), j + 1, row[i][:100]))
            cx.count("columns_vs_types")
    for dst, t in tabs.items():
        if not dst:
            continue
        cols = set(t.cols[2:])
        cand = [x for x in info if ", TRANSPOSED TO " + dst in x]
        for c in cols:
            if not any(x.startswith(c + ", TYPE ") or ", REPLACED WITH " + c + ", TYPE " in x for x in cand):
                raise Violation("transposed column %r is not in keys info: %r" % (c, cand[:5]))
        cx.count("transposed_columns", len(cols))
    cx.count("feature_mixes")
    cx.seen(repr((w.args, w.data, env)))


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind == "mix":
        return run_mix(cx, case)
    n = rng.choice((1, 2, 3, 8, 40, 130, 300))
    if kind == "wide":
        n = 200
    c = 1 if rng.random() < 0.4 else conc(rng)
    env = sched_env(rng, 0.7)
    cs = rng.random() < 0.25 or (kind == "case" and rng.random() < 0.4)
    ds = documents(rng, kind, n)
    conf, a = {}, ["-concurrency", str(c)]
    keep, hook, pre, extra = set(), None, None, []
    seq = rng.random() < 0.15
    if cs:
        a.append("-case-sensitive-keys")
    if seq:
        a.append("-add-sequence")
        extra.append(("_sequence", "int"))
    if kind == "extract":
        a.append("-extract-strings")
        emb = [{"q": 1, "r": [True, None]}, {"q": "s"}, [1, {"z": Num("1.5")}], {"d": {"e": 0}}]
        texts = {json.dumps({"q": 1, "r": [True, None]}): emb[0], json.dumps({"q": "s"}): emb[1], "[1,{\"z\":1.5}]": emb[2],
                 '{"d":{"e":0}}': emb[3]}

        def clean(v):
            if isinstance(v, dict):
                return {k: clean(x) for k, x in v.items()}
            if isinstance(v, list):
                return [clean(x) for x in v]
            if isinstance(v, str):
                return rng.choice(list(texts)) if rng.random() < 0.4 else "w" + "".join(x for x in v if x.isalnum())
            return v
        ds = [clean(d) for d in ds]

        def hook(path, s):
            return [("JSON", texts[s])] if s in texts else []
    if kind == "keep":
        paths = sorted({e.path for d in ds for e in model.walk(d) if e.container and ".[" not in e.path})
        ks = rng.sample(paths, min(len(paths), rng.randint(1, 3)))
        if not cs:
            # Kept key in another letter case is not kept.
            ks = [p for p in ks if sum(q.lower() == p.lower() for q in paths) == 1]
        keep = {k for k in ks if not any(k.startswith(o + ".") for o in ks)}
        if keep:
            conf["keepJSON"] = sorted(keep)
    if kind == "prefix":
        a += ["-match-line-prefix", r"(\S+)-(\d+)? "]
        pfx = [rng.random() < 0.7 for _ in ds]

        def pre(i):
            if i >= len(pfx) or not pfx[i]:
                return []
            return [("._prefix.[0]", ("_prefix", "[0]"), "h"), ("._prefix.[1]", ("_prefix", "[1]"), "1%d" % i)]
        extra += [("[0]", "string"), ("[1]", "string")]
    data = []
    for i, d in enumerate(ds):
        s = gen.to_json(d, rng, 0.1, 0.1)
        if kind == "prefix" and pfx[i]:
            s = "h-1%d " % i + s
        data.append(s)
    docs = list(ds)
    if rng.random() < 0.2:
        i = rng.randint(0, len(data))
        if i == len(data) or kind != "prefix":
            data.insert(i, rng.choice(("noise", "{bad", "[1]", "")) or "x")
            docs.insert(i, None)
    if kind == "scanlimit" and n > 1:
        k = rng.randint(1, n)
        a += [rng.choice(("-max-lines-keys", "-max-lines")), str(k)]
        docs = docs[:k]
    limit = 0
    if kind == "hc":
        limit = rng.choice((3, 10, 30))
    a += ["-children-limit", str(limit)]
    tr = {}
    if kind == "transpose":
        # Tables may have the names of keys.
        tn = ["t", "u"]
        if rng.random() < 0.5:
            tn = ["t"] + sorted({x for d in ds for e in model.walk(d) for x in e.path.split(".")[1:]
                                 if x and x.isalnum() and x.isascii()} | {"_value"})[:12]
        tr = {"." + k: rng.choice(tn) for k in ("a", "b") if rng.random() < 0.7}
        if tr:
            conf["transpose"] = tr
    keys = Keys(docs, cs, keep, hook, pre, seq)
    flat = keys.flat()
    inc, incre, exc = [], [], []
    if kind == "include" and flat:
        r = rng.random()
        if r < 0.4:
            inc = rng.sample(flat, min(len(flat), rng.randint(1, 4)))
        if r > 0.2:
            incre = [re.escape(rng.choice(flat))[:-1 if rng.random() < 0.2 else None] for _ in range(rng.randint(1, 2))]
            incre = [x for x in incre if not x.endswith("\\")]
        if r < 0.2 and rng.random() < 0.3:
            inc.append("const:cc")
        if r > 0.85:
            inc, incre = [], []
        if rng.random() < 0.5:
            exc = rng.sample(flat, min(len(flat), rng.randint(1, 3)))
        if not incre:
            incre = ["nothing$x"] if inc else []
        for k, v in (("includeKeys", inc), ("includeKeysRegex", incre), ("excludeKeys", exc)):
            if v:
                conf[k] = v
    if kind == "replace" and flat:
        conf["replaceKeys"] = {k: "R%d" % i for i, k in enumerate(rng.sample(flat, min(len(flat), 4)))}
    repl = conf.get("replaceKeys", {})
    if conf:
        a += cfg(conf)
    reps = [r for r in mix.REPORTS if rng.random() < 0.6] or ["-show-keys-info"]
    if kind == "hc":
        reps = [r for r in reps if r != "-show-keys-info"] or ["-show-keys-flat"]
    withcsv = rng.random() < 0.3
    if withcsv:
        a += ["-csv", "out.csv"]
    cx.write("in.jsonl", "\n".join(data) + "\n")
    r = cx.flat(["-verbosity", "0"] + a + reps + ["in.jsonl"], env)
    if not withcsv and cx.read("in.jsonl.csv", must=False) is not None:
        raise Violation("output file is made, only reports were requested")
    rep = split_reports(r.out, reps)
    if kind == "hc":
        return check_hc(cx, rep, docs, limit, data, a, env)
    low = (lambda s: s) if cs or c == 1 else (lambda s: s.lower())
    if "-show-keys-flat" in rep:
        got = flat_list(rep["-show-keys-flat"])
        if c == 1 and got != flat:
            raise Violation("flat list is %r, expected %r" % ([g for g in got if g not in flat][:5] or got[:10],
                                                              [f for f in flat if f not in got][:5] or flat[:10]))
        if sorted(map(low, got)) != sorted(map(low, flat)):
            miss = sorted(set(map(low, flat)) - set(map(low, got)))
            more = sorted(set(map(low, got)) - set(map(low, flat)))
            raise Violation("flat list differs: missing %r, unexpected %r, %d of %d keys" % (miss[:5], more[:5], len(got), len(flat)))
        if not cs and c > 1:
            names = {p for p in keys.exact}
            for g in got:
                if g not in names:
                    raise Violation("flat list has %r, there is no such key" % g)
        cx.count("flat_keys", len(got))
    if "-show-keys-info" in rep:
        marked = bool(inc or incre)
        cf = {k.lower() if not cs else k: i for i, k in enumerate(keys.cols)}
        del cf
        exl = {keys.ck(k) for k in exc}
        cols = [k for k in inc if keys.ck(k) not in exl]
        have = {keys.ck(k) for k in cols}
        for c_, k in zip(keys.cols, flat):
            if c_ in exl or c_ in have:
                continue
            if incre:
                if any(re.search(x, k) for x in incre):
                    cols.append(k)
            elif not inc:
                cols.append(k)
        bodies = []
        for k in cols:
            t = "string" if k.startswith("const:") else keys.type(keys.ck(k))
            name = repl.get(k, k)
            dst = None
            for src, d in tr.items():
                if k.startswith(src + "."):
                    rest = k[len(src) + 1:]
                    j = rest.find(".")
                    name = "._value" if j < 0 else rest[j:]
                    dst = d
            b = "%s, TYPE %s" % (name, t)
            if name != k:
                b = "%s, REPLACED WITH %s" % (k, b)
            if marked:
                b += ", INCLUDED"
            if dst:
                b += ", TRANSPOSED TO " + dst
            if hook is not None and k.endswith(".JSON"):
                b += ""
            bodies.append(b)
        if marked:
            cset = set(cols)
            bodies += [k + ", SKIPPED" for k in flat if k not in cset]
        got = info_list(rep["-show-keys-info"])
        if c == 1:
            if got != bodies:
                i = next((i for i, (x, y) in enumerate(zip(got, bodies)) if x != y), min(len(got), len(bodies)))
                raise Violation("keys info line %d is %r, expected %r (%d lines, expected %d)" % (
                    i + 1, got[i:i + 1], bodies[i:i + 1], len(got), len(bodies)))
        elif not (incre and not cs and kind != "include"):
            g, e = sorted(map(low, got)), sorted(map(low, bodies))
            if g != e:
                raise Violation("keys info differs: missing %r, unexpected %r" % (
                    sorted(set(e) - set(g))[:5], sorted(set(g) - set(e))[:5]))
        cx.count("info_lines", len(got))
    if "-show-keys-hier" in rep:
        exp = {}
        for p in keys.scalar:
            d = exp
            for s in keys.segs[p]:
                d = d.setdefault(s, {})
        diff_tree(exp, tree(rep["-show-keys-hier"]))
        cx.count("hierarchy_keys", len(keys.scalar))
    if "-show-json-schema" in rep:
        ex = [("[0]", "string"), ("[1]", "string")] if kind == "prefix" and any(pfx) else []
        if seq:
            ex.append(("_sequence", "int"))
        check_schema(cx, rep["-show-json-schema"], docs, keys, keep=keep, hook=hook, extra=ex)
    if withcsv and flat:
        t = outs.csv_tab(cx, "out.csv")
        cx.count("rows", len(t.rows))
    if len(flat) > 1:
        cx.seen("\n".join(data).encode("utf-8", "surrogateescape") + repr((a, reps, env)).encode())


def check_hc(cx, rep, docs, limit, data, a, env):
    """Keys of an object with too many children are replaced with the object."""
    over = len({k for d in docs if d for k in d["h"]}) > limit
    known = {".id", ".a.[0]", ".a.[1]"} if not over else {".id", ".a.[0]", ".a.[1]", ".h"}
    if "-show-keys-flat" in rep:
        got = flat_list(rep["-show-keys-flat"])
        if len(set(got)) != len(got):
            raise Violation("flat list repeats keys: %r" % got[:10])
        for g in got:
            if g == "._sequence":
                continue
            if over and g.startswith(".h."):
                raise Violation("flat list has %r, its parent is kept as JSON" % g)
            if g not in known and not g.startswith(".h."):
                raise Violation("flat list has unexpected %r" % g)
        if over and ".h" not in got:
            raise Violation("flat list does not have the object with many children")
        cx.count("flat_keys", len(got))
    if "-show-keys-hier" in rep:
        t = tree(rep["-show-keys-hier"])
        if over and t.get("h") != {}:
            raise Violation("hierarchy shows children of the object kept as JSON: %r" % list(t.get("h", {}))[:5])
    if "-show-json-schema" in rep:
        for i, d in enumerate(docs):
            if d:
                m = accepts(rep["-show-json-schema"], d)
                if m:
                    raise Violation("line %d is rejected by JSON schema: %s" % (i + 1, m))
                cx.count("lines_validated")
    cx.count("high_cardinality" if over else "within_limit")
    cx.seen("\n".join(data).encode() + repr((a, env)).encode())
