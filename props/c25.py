"""C25: configuration means the same in every accepted form, a broken one fails before processing."""
import json
import os
import re

from fw import gen, mix, outs
from fw.core import Violation
from fw.util import cfg, sched_env

from . import c21

LEVEL = "exploration"
RULE = ("Random configurations over all options (selection, renaming, time, concatenation, transposition, extraction, keepJSON, "
        "cardinality, line prefix) with hostile strings (quotes, comment markers, YAML indicators, escapes, control and "
        "non-BMP characters) are serialized as inline JSON, JSON file (compact, indented with spaces or tabs, CRLF, ASCII "
        "escapes), JSON5 file (line comments, trailing commas, bare field names), YAML file (block and flow style, all scalar "
        "styles, comments) and as flags; every output file and report has to be byte-identical to the run with inline JSON. "
        "Broken configurations (syntax, types, missing or unreadable file, invalid and empty patterns of every option) have to "
        "fail with non-zero status, without outputs, reports or read lines, and leave existing files as they are. "
        "Non-trivial: a run that has output and differs from the run without configuration; distinct by configuration and form.")
ASSUMPTIONS = ["JSON5 features are those of the decoder in use: line comments after a comma or an opening bracket, bare keys, trailing "
               "commas", "one worker", "held on the executions listed, not for all inputs"]

HOSTILE = ["//", "// x", "/* c */", "# x", " #c", "a: b", "- x", "{}", "[a]", "&a", "*a", "!t", "|", ">", "%", "@x", "`", "'", "''",
           "\"", "\\", "\\n", "\n", "a\nb", "\t", " ", " lead", "trail ", "", "yes", "no", "null", "~", "true", "12", "1e3", "0x1F",
           "2024-01-02", "é", "日本", "😀", "\u0085", "\u2028", "\ufeff", "\x7f", "\x01", "<<", "=", "a,b", "?", ": ", ",", "http://x/y#z",
           "\\u0041", "{{x}}", "$1", "${1}", "\u00a0", "a'b\"c", "---", "...", "\r\n", "\x1b"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("mix", 500), ("hostile", 600), ("flags", 240), ("broken", 400), ("missing", 20), ("merge", 120)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


# --- serializers ---------------------------------------------------------------------------

def js(s, rng):
    r = rng.random()
    if r < 0.3:
        return json.dumps(s)
    if r < 0.8:
        return json.dumps(s, ensure_ascii=False)
    return gen.js_str(s, rng, 0.3)


def to_json(c, rng):
    """JSON text with random layout."""
    st = rng.choice(("compact", "spaces", "tabs", "two"))
    if st == "compact":
        nl, ind, col = "", "", ":"
    else:
        nl, ind, col = rng.choice(("\n", "\n", "\r\n")), {"spaces": "    ", "tabs": "\t", "two": "  "}[st], rng.choice((": ", ":", " : "))

    def w(v, d):
        if isinstance(v, str):
            return js(v, rng)
        p, e = nl + ind * (d + 1), nl + ind * d
        if isinstance(v, dict):
            if not v:
                return "{}"
            return "{" + p + ("," + p).join(js(k, rng) + col + w(x, d + 1) for k, x in v.items()) + e + "}"
        if not v:
            return "[]"
        return "[" + p + ("," + p).join(w(x, d + 1) for x in v) + e + "]"

    return w(c, 0) + rng.choice(("", "\n"))


def to_json5(c, rng):
    def com():
        if rng.random() < 0.3:
            return "// %s" % rng.choice(("comment", "\"quoted\", text", "{ [ , : ]", "it's", "http://x", "é", "", "a: b", "\"outputTZ\": \"UTC\","))
        return ""

    def sep(d):
        """Line break with optional comments before and after."""
        s = " " + com() + "\n" if rng.random() < 0.5 else "\n"
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            x = com()
            if x:
                s += "  " * d + x + "\n"
        return s + "  " * d

    def key(k, d):
        if d == 1 and rng.random() < 0.4:
            return k
        return js(k, rng)

    def w(v, d):
        if isinstance(v, str):
            return js(v, rng)
        op, cl = ("{", "}") if isinstance(v, dict) else ("[", "]")
        it = [key(k, d + 1) + ": " + w(x, d + 1) for k, x in v.items()] if op == "{" else [w(x, d + 1) for x in v]
        if not it:
            return op + cl
        if rng.random() < 0.2:
            return op + ", ".join(it) + cl
        s = op
        for i, x in enumerate(it):
            s += sep(d + 1) + x
            if i < len(it) - 1:
                s += ","
        if rng.random() < 0.3:
            s += ","
        return s + "\n" + "  " * d + cl

    head = ""
    if rng.random() < 0.3:
        head = "// head comment\n"
    return head + w(c, 0) + "\n"


WORDS = {"y", "n", "yes", "no", "on", "off", "true", "false", "null"}


def ystr(s, rng, flow, key=False):
    """Scalar in a random style that holds it."""
    plain = re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*( [A-Za-z0-9_]+)*", s) and s.lower() not in WORDS
    printable = all(0x20 <= ord(c) < 0x7f or 0xa0 <= ord(c) < 0x2000 or 0x3000 <= ord(c) < 0xd800 for c in s)
    r = rng.random()
    if plain and r < 0.5:
        return s
    if plain is None and not flow and not key and printable and r < 0.3 and re.fullmatch(r"[.^\\$][A-Za-z0-9_.\[\]\\()+$^*]*", s):
        return s
    if printable and r < 0.7:
        return "'" + s.replace("'", "''") + "'"
    res = []
    for ch in s:
        o = ord(ch)
        if ch in "\"\\":
            res.append("\\" + ch)
        elif 0x20 <= o < 0x7f or 0xa0 <= o < 0x2000 or 0x3000 <= o < 0xd800:
            res.append(ch)
        elif o > 0xffff:
            res.append(ch if rng.random() < 0.5 else "\\U%08x" % o)
        elif o < 0x100:
            res.append({"\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(ch, "\\x%02x" % o) if rng.random() < 0.5 else "\\u%04x" % o)
        else:
            res.append("\\u%04x" % o)
    return '"' + "".join(res) + '"'


def to_yaml(c, rng):
    out = []
    if rng.random() < 0.2:
        out.append("---")

    def flow(v):
        if isinstance(v, str):
            return ystr(v, rng, True)
        if isinstance(v, dict):
            return "{" + ", ".join(ystr(k, rng, True, True) + ": " + flow(x) for k, x in v.items()) + "}"
        return "[" + ", ".join(flow(x) for x in v) + "]"

    def note(d):
        if rng.random() < 0.15:
            out.append(" " * d + "# comment: \"x\" - {")
        if rng.random() < 0.1:
            out.append("")

    step = rng.choice((2, 4))
    for k, v in c.items():
        note(0)
        if isinstance(v, str):
            if v and "\n" not in v and "\r" not in v and not v.startswith(" ") and rng.random() < 0.15 and \
                    all(0x20 <= ord(ch) < 0x7f for ch in v):
                out.append(k + ": |-")
                out.append("  " + v)
                continue
            out.append(k + ": " + ystr(v, rng, False) + (" # tail" if rng.random() < 0.1 else ""))
            continue
        if not v or rng.random() < 0.3:
            out.append(k + ": " + flow(v))
            continue
        out.append(k + ":")
        if isinstance(v, dict):
            for a, b in v.items():
                note(step)
                out.append(" " * step + ystr(a, rng, False, True) + ": " + ystr(b, rng, False))
        else:
            ind = rng.choice((0, step))
            for a in v:
                note(ind)
                out.append(" " * ind + "- " + ystr(a, rng, False))
    return rng.choice(("\n", "\n", "\r\n")).join(out) + "\n"


# --- runs ----------------------------------------------------------------------------------

def snapshot(cx, skip):
    res = {}
    for f in sorted(os.listdir(cx.dir)):
        if f in skip or f.endswith((".sqlite", ".sqlite-journal")):
            continue
        p = cx.path(f)
        if os.path.isfile(p):
            with open(p, "rb") as h:
                res[f] = h.read()
            if f.endswith(".sql"):
                # Progress message has approximate number of lines.
                res[f] = re.sub(rb"(?m)^SELECT '\d+(/\d+)? lines completed[^'\n]*' AS status;$", b"SELECT '' AS status;", res[f])
    return res


def run(cx, args, inputs, keep, env=None):
    """Runs with all outputs, returns everything that is observed."""
    for f in os.listdir(cx.dir):
        if f not in keep:
            cx.rm(f)
    a = ["-concurrency", "1", "-csv", "o.csv", "-raw", "o.raw", "-pg-dump", "o.sql"] + args + inputs
    r = cx.flat(a, env=env, ok=False)
    return r.rc, r.out, snapshot(cx, keep), r


def same(a, b, what, reps=()):
    if a[0] != b[0]:
        raise Violation("%s: exit status %s, with inline JSON %s\n%s\n%s" % (what, b[0], a[0], b[3].brief(), a[3].brief()))
    if reps:
        # Order of hierarchy and schema is not specified.
        try:
            c21.cmp_reports(None, reps, a[1], b[1], False, True)
        except Violation as v:
            raise Violation("%s: %s" % (what, str(v).replace("with many workers", "from inline JSON")))
    elif a[1] != b[1]:
        raise Violation("%s: reports differ from inline JSON: %r, %r" % (what, b[1][:800], a[1][:800]))
    if set(a[2]) != set(b[2]):
        raise Violation("%s: output files %r, with inline JSON %r" % (what, sorted(b[2]), sorted(a[2])))
    for f in a[2]:
        x, y = a[2][f], b[2][f]
        if x != y:
            n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            raise Violation("%s: file %s differs from inline JSON at byte %d: %r, expected %r" % (
                what, f, n, y[max(0, n - 80):n + 120], x[max(0, n - 80):n + 120]))


def strip_config(args):
    a = list(args)
    if "-config" in a:
        i = a.index("-config")
        del a[i:i + 2]
    return a


def hostile(rng):
    """Configuration and documents with hostile strings."""
    def h():
        s = rng.choice(HOSTILE)
        if rng.random() < 0.3:
            s = rng.choice(("a", "x y", "k")) + s + rng.choice(("", "z"))
        return s
    ks = []
    for _ in range(rng.randint(2, 6)):
        k = h()
        if "." not in k and k.lower() not in [x.lower() for x in ks] and k:
            ks.append(k)
    ks = ks or ["k"]
    docs = [{k: rng.choice((h(), 1, True, None, h(), [h(), h()], {"a": h()})) for k in ks if rng.random() < 0.9} for _ in range(rng.randint(1, 6))]
    paths = ["." + k for k in ks] + [".%s.[0]" % k for k in ks] + [".%s.a" % k for k in ks]
    c = {}
    if rng.random() < 0.5:
        c["includeKeys"] = rng.sample(paths, min(len(paths), rng.randint(1, 5))) + (["const:" + h()] if rng.random() < 0.5 else [])
    if rng.random() < 0.4:
        c["excludeKeys"] = rng.sample(paths, rng.randint(0, 2))
    if rng.random() < 0.7:
        c["replaceKeys"] = {p: h() or "e" for p in rng.sample(paths, rng.randint(1, len(paths)))}
    if rng.random() < 0.5:
        c["concatDelimiter"] = h()
    if rng.random() < 0.4:
        c["keepJSON"] = rng.sample(paths[:len(ks)], 1)
    if rng.random() < 0.3:
        c["excludeKeysRegex"] = [re.escape(h() or "zzz").replace("\\ ", " ") + "$"]
        # Escapes of Python that Go does not have.
        if re.search(r"\\[^\w\s!-/:-@\[-`{-~]", c["excludeKeysRegex"][0]) or any(ord(x) < 32 for x in c["excludeKeysRegex"][0]):
            del c["excludeKeysRegex"]
    if rng.random() < 0.3:
        c["replaceKeysRegex"] = {r"^\.(.*)\.\[0\]$": "n ${1}" + (h() if rng.random() < 0.5 else "")}
    if rng.random() < 0.2:
        c["transpose"] = {paths[0]: rng.choice(("t", "tbl"))}
        c.pop("keepJSON", None)
    if rng.random() < 0.3:
        c["matchLinePrefix"] = rng.choice((r"^(\w*) ", "#(.*)$", r"^([^:]*): ", "'(.)'", "\"(\\d+)\"", "(//.*)"))
    if rng.random() < 0.2:
        c["outputTZ"] = "Europe/Berlin"
        c["parseTime"] = {paths[0]: "2006-01-02"}
        c["outputTimeFormat"] = rng.choice(("2006", "Jan _2 # x", "15:04 'h'", "// 2006"))
    if rng.random() < 0.2:
        c["allowCardinality"] = [paths[0]]
    it = list(c.items())
    rng.shuffle(it)
    lns = [gen.to_json(d) for d in docs]
    if "matchLinePrefix" in c:
        lns = [rng.choice(("w 'x' ", "a: b #c ", "\"12\" // ", "")) + x for x in lns]
    return dict(it), gen.lines(rng, lns)


FORMS = ("json", "json5", "yaml", "json", "json5", "yaml")


def form(cx, c, kind):
    rng = cx.rng
    if kind == "json":
        s, ext = to_json(c, rng), rng.choice((".json", ".json", ".cfg", "", ".json5", ".yaml"))
    elif kind == "json5":
        s, ext = to_json5(c, rng), rng.choice((".json5", ".json5", ".json", ".conf"))
    else:
        s, ext = to_yaml(c, rng), rng.choice((".yaml", ".yml", ".yaml", ".txt", ".json"))
    return cx.write("conf" + ext, s), s


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind in ("broken", "missing"):
        return broken(cx, kind)
    if kind == "flags":
        return flags(cx)
    if kind == "merge":
        return merge(cx)
    reps = ()
    if kind == "hostile":
        c, data = hostile(rng)
        inputs = [cx.write("in.jsonl", data)]
        args = ["-verbosity", "0"]
        if rng.random() < 0.5:
            args += ["-show-keys-flat", "-show-keys-info"]
    else:
        w = mix.workload(cx, rng.choice((3, 20, 60)), exclude=("verbosity3", "verbose", "memlimit"))
        c, inputs, args, reps = w.conf, w.inputs, strip_config(w.args), w.reports
    keep = set(inputs)
    c = {k: v for k, v in c.items() if v or isinstance(v, str)}
    base = run(cx, args + (cfg(c) if rng.random() < 0.5 else ["-config", to_json(c, rng)]), inputs, keep)
    if base[0] != 0 and kind == "mix":
        raise Violation("run failed on a valid configuration\n" + base[3].brief())
    none = run(cx, args, inputs, keep)
    changed = base[2] != none[2]
    for f in rng.sample(FORMS, 3):
        name, text = form(cx, c, f)
        got = run(cx, args + ["-config", name], inputs, keep | {name}, sched_env(rng, 0.2))
        same(base, got, "configuration in %s file %r" % (f, text[:1500]), reps)
        cx.rm(name)
        cx.count("form_" + f)
        if changed and c:
            cx.seen(text)
    if rng.random() < 0.4:
        # White space around inline configuration.
        text = rng.choice(("", " ", "\n", "\t", "\r\n  ", " \n\t")) + to_json(c, rng) + rng.choice(("", " ", "\n\n", "\t "))
        same(base, run(cx, args + ["-config", text], inputs, keep), "inline configuration %r" % text[:1500], reps)
        cx.count("form_inline_space")
    for k in c:
        cx.count("option_" + k)
    cx.count("output_bytes", sum(len(v) for v in base[2].values()))


def flags(cx):
    """Command line flags and configuration fields."""
    rng = cx.rng
    kind = rng.choice(("getkey", "getkey", "prefix", "prefix", "override", "append"))
    feats = {"getkey": ("replace", "const", "case", "gzin"), "prefix": ("include", "exclude", "seq", "snake")}
    w = mix.workload(cx, rng.choice((3, 20)), feats=set(rng.sample(feats.get(kind, feats["prefix"]), rng.randint(0, 2))) |
                     ({"prefix"} if kind in ("prefix", "override") else set()))
    c = dict(w.conf)
    args = strip_config(w.args)
    if "-match-line-prefix" in args:
        i = args.index("-match-line-prefix")
        del args[i:i + 2]
    c.pop("matchLinePrefix", None)
    keep = set(w.inputs)
    if kind in ("getkey", "append"):
        c.pop("includeKeysRegex", None)
        ks = rng.sample((".id", ".ts", ".tags.[0]", ".m", ".nope", ".arr.[0].x"), 3)
        inc = [] if kind == "getkey" else c.get("includeKeys", []) + ks[1:]
        inc = [k for k in dict.fromkeys(inc) if k != ks[0]]
        c.pop("includeKeys", None)
        a = dict(c, includeKeys=inc + [ks[0]])
        b = dict(c, includeKeys=inc) if inc else dict(c)
        fa, fb = [], ["-get-key", ks[0]]
    else:
        pat = rng.choice((r"^(\S+) (\S+)", r"(\S+) ([\d/]*)", r"^(host\d)?", "(o)", r"(\d+)"))
        a = dict(c, matchLinePrefix=pat)
        b = dict(c)
        fa, fb = [], ["-match-line-prefix", pat]
        if kind == "override":
            b["matchLinePrefix"] = r"^(never)\d{9}$"
    base = run(cx, args + fa + cfg(a), w.inputs, keep)
    if base[0] != 0:
        raise Violation("run failed on a valid configuration\n" + base[3].brief())
    name = []
    if b and rng.random() < 0.5:
        name = [form(cx, b, rng.choice(FORMS))[0]]
    cb = (["-config", name[0]] if name else cfg(b)) if b else []
    got = run(cx, args + fb + cb, w.inputs, keep | set(name))
    same(base, got, "flag %r instead of configuration field" % (fb,), w.reports)
    cx.count("flags_" + kind)
    cx.count("output_bytes", sum(len(v) for v in base[2].values()))
    cx.seen(w.data + repr((fb, b, args)).encode())


def merge(cx):
    """The order of fields, empty values and absent ones make no difference."""
    rng = cx.rng
    w = mix.workload(cx, rng.choice((3, 20)), exclude=("verbosity3", "verbose", "memlimit"))
    args = strip_config(w.args)
    keep = set(w.inputs)
    base = run(cx, args + (cfg(w.conf) if w.conf else []), w.inputs, keep)
    if base[0] != 0:
        raise Violation("run failed on a valid configuration\n" + base[3].brief())
    empty = {"includeKeys": [], "includeKeysRegex": [], "excludeKeys": [], "excludeKeysRegex": [], "replaceKeys": {}, "parseTime": {},
             "replaceKeysRegex": {}, "transpose": {}, "keepJSON": [], "allowCardinality": [], "matchLinePrefix": "", "outputTZ": "",
             "outputTimeFormat": "", "extractValuesRegex": {}}
    c = dict(w.conf)
    for k in rng.sample(sorted(empty), rng.randint(1, 6)):
        c.setdefault(k, empty[k])
    it = list(c.items())
    rng.shuffle(it)
    c = {k: (dict(rng.sample(sorted(v.items()), len(v))) if isinstance(v, dict) else v) for k, v in it}
    f = rng.choice(("inline",) + FORMS)
    if f == "inline":
        got = run(cx, args + cfg(c), w.inputs, keep)
    else:
        name, _ = form(cx, c, f)
        got = run(cx, args + ["-config", name], w.inputs, keep | {name})
    same(base, got, "reordered configuration with empty fields %r" % (c,), w.reports)
    cx.count("reordered")
    cx.seen(w.data + repr((f, c, args)).encode())


BADRE = ["(", "[", "a{2,1}", "*x", "(?P<n", "\\8", "a**", "[z-a]", "(?<!x)y", "x{1001}", "\\C(", "(?"]


def broken(cx, kind):
    rng = cx.rng
    cx.write("in.jsonl", b'{"id":1,"ts":"x"}\n{"id":2}\n')
    good = {"includeKeysRegex": ["id"], "replaceKeys": {".id": "ID"}}
    extra = []
    f = None
    what = rng.choice(("re", "re", "re", "syntax", "syntax", "type", "empty_re", "prefix")) if kind == "broken" else "missing"
    conf = None
    if what in ("re", "empty_re"):
        bad = rng.choice(BADRE) if what == "re" else ""
        if rng.random() < 0.4 and bad:
            bad = "^\\." + bad
        o = rng.choice(("includeKeysRegex", "excludeKeysRegex", "replaceKeysRegex", "extractValuesRegex"))
        if bad.startswith("^\\.*"):
            bad = "("
        good.pop("includeKeysRegex", None)
        c = dict(good)
        if o in ("includeKeysRegex", "excludeKeysRegex"):
            c[o] = rng.choice(([bad], ["a", bad], [bad, "b"]))
        elif o == "replaceKeysRegex":
            c[o] = {"a": "b", bad: "x"}
        else:
            c[o] = {"a": "JSON", bad: "URL"}
        conf = c
        f = o
    elif what == "prefix":
        bad = rng.choice(BADRE)
        if rng.random() < 0.5:
            extra = ["-match-line-prefix", bad]
        else:
            conf = dict(good, matchLinePrefix=bad)
        f = "matchLinePrefix"
    elif what == "type":
        o, v = rng.choice((("includeKeys", "x"), ("includeKeys", {"a": "b"}), ("replaceKeys", ["a"]), ("replaceKeys", "x"),
                           ("parseTime", ["x"]), ("transpose", "x"), ("keepJSON", {"a": "b"}), ("excludeKeysRegex", "abc"),
                           ("outputTZ", ["UTC"]), ("concatDelimiter", {"a": "b"}), ("matchLinePrefix", ["("]),
                           ("extractValuesRegex", ["URL"]), ("allowCardinality", "x"), ("includeKeys", [["a"]]), ("replaceKeys", {"a": ["b"]}), ("keepJSON", [{"a": "b"}]), ("outputTimeFormat", {"a": "b"})))
        conf = dict(good)
        conf[o] = v
        f = o
    elif what == "syntax":
        s = rng.choice(('{"includeKeys": [".id"', '{"includeKeys" [".id"]}', "{includeKeys: [.id}", "a:\n\t- b\n  c", "key: [unclosed",
                        '{"includeKeys": [".id"],, "outputTZ":"UTC"}', "includeKeys:\n - a\n  b: c\n", "just text", "\x00\x01", "- a\n- b\n",
                        '"x"', "[1,2]", "%TAG\n", "a: b: c", "{'a': ", "includeKeys: *unknown\n", '{"replaceKeys": {".id": "ID"}', "\"a"))
        name = cx.write("bad.json", s)
        extra = ["-config", name]
    else:
        t = rng.choice(("absent", "dir", "absent", "text"))
        if t == "dir":
            os.makedirs(cx.path("d"), exist_ok=True)
        extra = ["-config", {"absent": "nope/none.json", "dir": "d", "text": '{"includeKeys": [".id"'}[t]]
    if conf is not None:
        if rng.random() < 0.4:
            extra = cfg(conf)
        else:
            fm = rng.choice(FORMS)
            s = to_json(conf, rng) if fm == "json" or what == "type" else {"json5": to_json5, "yaml": to_yaml}[fm](conf, rng)
            extra = ["-config", cx.write("bad.cfg", s)]
    fn = outs.names()
    exist = rng.random() < 0.5
    if exist:
        for k in fn.values():
            cx.write(k, "old content\n")
    a = ["-verbosity", rng.choice(("0", "1"))] + outs.args(fn) + extra + ["-show-keys-flat", "in.jsonl"]
    r = cx.flat(a, env={"FLATJSONL_VERIF_LOG": cx.path("events.log")}, ok=False)
    label = "broken configuration (%s %s) %r" % (what, f or "", extra)
    if r.rc == 0:
        raise Violation(label + " is accepted: " + r.brief())
    if r.out:
        raise Violation(label + ": there is output in STDOUT: %r" % r.out[:300])
    for k in fn.values():
        b = cx.read(k, must=False)
        if exist and b != b"old content\n":
            raise Violation(label + ": existing file %s is changed to %r" % (k, b if b is None else b[:200]))
        if not exist and b is not None:
            raise Violation(label + ": file %s is created, %r" % (k, b[:200]))
    ev = cx.read("events.log", must=False)
    if ev:
        raise Violation(label + ": lines were processed: %r" % ev[:300])
    if not r.err.strip():
        raise Violation(label + ": no message in STDERR")
    cx.count("rejected_" + what)
    cx.seen(repr((extra, conf, what)))
