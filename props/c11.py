"""C11: line prefix captures and JSON after the prefix are both kept."""
import re

from fw import gen, model, outs
from fw.util import cfg, compare, conc, sched_env

LEVEL = "exploration"
RULE = ("Lines made of a generated prefix and a generated JSON object, lines with only one of them, empty lines, tails after "
        "JSON, malformed JSON after a good prefix. Oracle: prefix groups are matched by an independent regex engine (Python "
        "re on bytes, patterns restricted to the common semantics), JSON cells come from the model. Flag and configuration "
        "forms, selection of keys, all outputs. Non-trivial: at least two lines with a prefix; distinct by input, options "
        "and schedule.")
ASSUMPTIONS = ["patterns have the same leftmost-first semantics in Go and Python", "prefix has no { before JSON",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("noexpr", 120), ("expr", 220), ("nojson", 80), ("bad", 60), ("select", 100), ("big", 6), ("outs", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


# Pattern and a generator of prefixes that match it most of the time.
def ts(rng):
    return "2021-%02d-%02d %02d:%02d:%02d" % (rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                             rng.randint(0, 59))


W = ("api", "web-1", "db", "é日本", "a b", "x,y", "\"q\"", "", "\t", "0", "-", "é", "]", "'")


def w(rng):
    return rng.choice(W)


PATS = [
    (r"([\w\-\d]+)\s+([\d/\-:]+)\s+", lambda r: "%s %s " % (r.choice(("api", "web-1", "db")), ts(r).replace(" ", "/"))),
    (r"^(\S+) (\S+)", lambda r: "%s %s rest " % (w(r), w(r))),
    (r"\[([^\]]*)\]", lambda r: "[%s] [%s] " % (w(r).replace("]", ""), w(r))),
    (r"^(.*)$", lambda r: "%s %s " % (w(r), ts(r))),
    (r"(\d+)-(\d+)-(\d+) (\d+):(\d+)", lambda r: "%s: " % ts(r)),
    (r"level=(\w+)( code=(\d+))?", lambda r: "level=%s%s " % (r.choice(("info", "warn", "")), r.choice((" code=%d" % r.randint(0, 9), "")))),
    (r"(?i)(info|warn|error)", lambda r: "%s %s " % (r.choice(("INFO", "warn", "Error", "none")), w(r))),
    (r"^([^:]*):(\s*)", lambda r: "%s:%s" % (w(r), r.choice(("", " ", "\t ")))),
    (r"(a*)(b*)", lambda r: "%s%s " % ("a" * r.randint(0, 3), "b" * r.randint(0, 3))),
    (r"(?:pid|tid)=(\d+)", lambda r: "pid=%d tid=%d " % (r.randint(0, 9), r.randint(0, 9))),
    (r"(.)$", lambda r: "%s|" % w(r)),
    ("^" + " ".join([r"(\S+)"] * 12), lambda r: " ".join("v%d" % r.randint(0, 99) for _ in range(12)) + " "),
    ("([ -z])" * 23, lambda r: "".join(r.choice("abcdef0123 ") for _ in range(r.choice((23, 23, 24, 46))))),
    ("^" + " ?".join([r"(\w?)"] * 105), lambda r: " ".join(r.choice("abc9") for _ in range(r.choice((5, 60, 105)))) + " "),
    (r"no groups", lambda r: "no groups "),
    (r"(((x)y)z)", lambda r: r.choice(("xyz ", "xy ", "xyzxyz "))),
]


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 5, 40, 130))
    if kind == "big":
        n = 3000
    c = 1 if rng.random() < 0.4 else conc(rng)
    env = sched_env(rng, 0.4 if kind != "big" else 0)
    a, conf = [], {}
    pat, mkp = rng.choice(PATS)
    use = kind != "noexpr"
    sch = gen.Schema(rng, width=rng.choice((2, 5, 8)), depth=2, keymode="plain" if rng.random() < 0.5 else "mixed")
    ds, lns, prefs = [], [], []
    other = rng.choice(PATS)[1]
    for i in range(n):
        d = sch.doc()
        if "" in d or not d:
            d = {"id": i}
        r = rng.random()
        js = gen.to_json(d, rng, rng.choice((0, 0.2)), rng.choice((0, 0.1)))
        pre = (mkp if rng.random() < 0.8 else other)(rng)
        if rng.random() < 0.1:
            pre = pre + "x" * rng.choice((10, 300, 300, 5000) if kind != "big" else (10, 300))
        if r < 0.1:
            pre = ""
        if rng.random() < 0.1:
            js += rng.choice((" tail", "}", " {\"z\":1}", "{}", "\t", ", more"))
        if (kind in ("nojson", "bad", "select") and rng.random() < 0.4) or rng.random() < 0.03:
            js, d = "", None
        elif kind == "bad" and rng.random() < 0.4:
            js, d = rng.choice(("{", '{"a":', "{bad}", '{"a" 1}', '{"x":tru}')), None
        line = pre + js
        # Line that starts with { has no prefix.
        if line.startswith("{") and len(line) >= 2:
            prefs.append(None)
        else:
            pos = line.find("{")
            prefs.append(line if pos <= 0 else line[:pos])
        ds.append(d)
        lns.append(line)
    if use:
        rx = re.compile(pat.encode("utf-8"))
    matched = 0

    def pre(i):
        nonlocal matched
        if not use or prefs[i] is None:
            return []
        res = []
        for m in rx.finditer(prefs[i].encode("utf-8", "surrogateescape")):
            for j, g in enumerate(m.groups()):
                s = (g or b"").decode("utf-8", "surrogateescape")
                res.append(("._prefix.[%d]" % j, ("_prefix", "[%d]" % j), s))
        if res:
            matched += 1
        return res

    pre_cache = [pre(i) for i in range(n)]
    paths = {e.path for d in ds if d is not None for e in model.walk(d)}
    if len({p.lower() for p in paths}) != len(paths):
        a.append("-case-sensitive-keys")
    t = model.table(ds, pre=lambda i: pre_cache[i], case_sensitive="-case-sensitive-keys" in a)
    if use:
        if rng.random() < 0.5:
            a += ["-match-line-prefix", pat]
        else:
            conf["matchLinePrefix"] = pat
    if kind == "select" and t.cols:
        pc = [k for k in t.cols if k.startswith("._prefix.")]
        sel = rng.sample(t.cols, min(len(t.cols), rng.choice((1, 2, 4))))
        if pc and rng.random() < 0.7:
            sel = [rng.choice(pc)] + [k for k in sel if not k.startswith("._prefix")]
            if rng.random() < 0.4:
                sel = sel[:1]
        if rng.random() < 0.2 and "._prefix.[9]" not in sel:
            sel.append("._prefix.[9]")
        t.cols = sel
        if len(sel) == 1 and rng.random() < 0.5:
            a += ["-get-key", sel[0]]
        else:
            conf["includeKeys"] = sel
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    data = gen.lines(rng, lns, eol=rng.choice(("\n", "\n", "\r\n")))
    cx.write("in.jsonl", data)
    fn = outs.names()
    which = outs.ALL if kind == "outs" and "-case-sensitive-keys" not in a else ("csv",)
    outs.run(cx, fn, which, a, env)
    if not t.cols:
        return
    tab = outs.csv_tab(cx, fn["csv"])
    compare(cx, t, tab, order=c == 1 or kind == "select")
    outs.check_all(cx, fn, tab, which)
    cx.count("lines_with_prefix", sum(1 for p in prefs if p))
    cx.count("lines_matched", matched)
    cx.count("lines_without_json", sum(1 for d in ds if d is None))
    if sum(1 for p in prefs if p) > 1:
        cx.seen(data + repr(a).encode() + repr(env).encode())
