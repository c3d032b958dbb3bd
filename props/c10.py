"""C10: data embedded in strings is extracted faithfully."""
import json
import re
import urllib.parse

from fw import gen, model, outs
from fw.core import Violation
from fw.util import cfg, compare, conc, sched_env

LEVEL = "exploration"
RULE = ("Documents with strings that hold JSON (serialized by the generator, nested up to 5 levels of strings in strings, "
        "with escapes and whitespace), URLs (built from known components, percent-encoded at random) and strings that can "
        "not be decoded. Oracle: model of the table built from the generated components, compared cell by cell, for "
        "-extract-strings, extractValuesRegex (matching keys only) and both, with and without selection of keys. "
        "Non-trivial: at least one value is extracted; distinct by input, options and schedule.")
ASSUMPTIONS = ["strings with a tail after JSON, encoded slashes in path segments and invalid UTF-8 in URLs are not generated",
               "patterns of one configuration do not overlap", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("json", 130), ("url", 130), ("mix", 130), ("regex", 150), ("both", 80), ("select", 120), ("none", 40),
                    ("big", 10), ("par", 24)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


BAD_JSON = ['{"a":', "[1,2", "{bad}", "[1 2]", '{"a" 1}', "[1,]x", "{'a':1}", '{"a":1,}', "[tru]", '["a', "{:}", "[nul]"]
BAD_URL = ["http://[fe80::1", "http://x:port/", "://x", "http://%zz/", "http://a%gg", "see http://x", "1http://x:y:z"]
PLAIN = ["", "x", "hello world", "{", "[", "{}", "[]", "a/b", "true", "12", "null", "key=value", "a:b", "é", "//x", "say \"hi\"",
         " {\"a\":1}", "x{\"a\":1}", "\n"]


def safe(rng):
    """Scalar that is not extracted from."""
    r = rng.random()
    if r < 0.5:
        return rng.choice(PLAIN) if rng.random() < 0.5 else gen.rstr(rng, "plain")
    if r < 0.8:
        return gen.rnum(rng)
    return rng.choice((True, False, None))


KEYS = ("a", "b", "c", "id", "user name", "é", "x-y", "k1", "k2", "very_long_key_name", "0", "$t", "q\"q")


class World:
    """Registry of embedded documents by string."""

    def __init__(self, rng):
        self.rng = rng
        self.js = {}
        self.urls = {}

    def doc(self, d, emb, top=False):
        rng = self.rng
        r = rng.random()
        if not top and (d == 0 or r < 0.4):
            if emb > 0 and rng.random() < 0.4:
                return self.string(emb - 1)
            return safe(rng)
        if top or r < 0.8:
            if top and rng.random() < 0.25:
                return [self.doc(d - 1, emb) for _ in range(rng.randint(1, 4))]
            return {k: self.doc(d - 1, emb) for k in rng.sample(KEYS, rng.randint(0 if not top else 1, 4))}
        return [self.doc(d - 1, emb) for _ in range(rng.randint(0, 4))]

    def json(self, emb):
        rng = self.rng
        d = self.doc(3, emb, top=True)
        s = gen.to_json(d, rng, rng.choice((0, 0, 0.3)), rng.choice((0, 0.1)))
        if len(s) > 2:
            # Formatting may differ for the same document only.
            self.js[s] = d
        return s

    def url(self, emb=0):
        rng = self.rng
        long = False

        def comp(n, chars="abcXYZ019-_.~"):
            n = n * 60 if long and n > 4 else n
            return "".join(rng.choice(chars) for _ in range(rng.randint(1, n)))

        def text(n):
            n = n * 60 if long and n > 4 else n
            return "".join(rng.choice("abcXYZ 019-_.~!*'()é日😀&=+?#<>%\"\\") for _ in range(rng.randint(1, n)))

        def enc(s, plus=False):
            safe_ = "" if rng.random() < 0.7 else "!*'()"
            q = urllib.parse.quote(s, safe=safe_)
            if plus and rng.random() < 0.5:
                q = q.replace("%20", "+")
            return q if rng.random() < 0.8 else re.sub(r"%[0-9A-F]{2}", lambda m: m.group(0).lower(), q)
        d = {}
        scheme = rng.choice(("http", "https", "ftp", "custom+x", "HTTP", "postgres"))
        if rng.random() < 0.15:
            scheme = "x" + "".join(rng.choice("abcXYZ019+-.") for _ in range(rng.randint(0, 40)))
        long = rng.random() < 0.05
        s = scheme + "://"
        d["scheme"] = scheme.lower()
        if rng.random() < 0.3:
            d["user"] = text(5)
            s += enc(d["user"])
            if rng.random() < 0.6:
                d["pass"] = text(5)
                s += ":" + enc(d["pass"])
            s += "@"
        r = rng.random()
        if r < 0.1:
            d["host"] = "2001:db8::%d" % rng.randint(1, 9)
            s += "[" + d["host"] + "]"
        elif r < 0.2:
            d["host"] = "10.0.0.%d" % rng.randint(1, 254)
            s += d["host"]
        else:
            d["host"] = comp(8, "abcXYZ09-") + rng.choice((".com", ".example.org", "", ".X"))
            s += d["host"]
        if rng.random() < 0.3:
            d["port"] = str(rng.randint(1, 65535))
            s += ":" + d["port"]
        q = {}
        segs = []
        r = rng.random()
        if r < 0.2:
            segs = [""]
            s += rng.choice(("", "/", ""))
        else:
            segs = [text(6) for _ in range(rng.randint(1, 5))]
            if len(segs) > 2 and rng.random() < 0.2:
                segs[1] = ""
            s += "/" + "/".join(enc(x) for x in segs) + rng.choice(("", "", "/"))
        if rng.random() < 0.6:
            parts = []
            names = [comp(4) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.2:
                names.append(text(4))
            for _ in range(rng.randint(1, 6)):
                k = rng.choice(names)
                r = rng.random()
                if r < 0.15:
                    v = ""
                elif r < 0.3 and emb > 0:
                    v = self.string(emb - 1)
                else:
                    v = text(8)
                q.setdefault(k, []).append(v)
                parts.append(enc(k, True) + ("=" + enc(v, True) if v or rng.random() < 0.5 else ""))
            s += "?" + "&".join(parts)
        if q:
            d["query"] = {k: q[k] for k in sorted(q)}
        d["path"] = segs
        if rng.random() < 0.3:
            d["fragment"] = text(6)
            s += "#" + enc(d["fragment"])
        self.urls[s] = d
        return s

    def string(self, emb):
        r = self.rng.random()
        if r < 0.4:
            return self.json(emb)
        if r < 0.75:
            return self.url(emb)
        if r < 0.87:
            return self.rng.choice(BAD_JSON + BAD_URL)
        return gen.rstr(self.rng, "plain")

    def find(self, s):
        if s in self.js:
            return [("JSON", self.js[s])]
        if s in self.urls:
            return [("URL", self.urls[s])]
        return []


def star(p):
    return re.compile("^" + "([^.]+)".join(re.escape(x) for x in p.split("*")) + "$")


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    w = World(rng)
    c = 1 if rng.random() < 0.3 else conc(rng)
    env = sched_env(rng, 0.5)
    n = rng.choice((1, 2, 3, 6, 12, 50))
    a, conf = [], {}
    emb = rng.choice((0, 1, 2, 4))
    if kind == "big":
        n = rng.choice((300, 1500))
    if kind == "par":
        # Lines of very different size share pooled parsers.
        n = 400
        c = rng.choice((8, 32))
        env = {"GOMAXPROCS": str(rng.choice((4, 8, 16)))}

    def val():
        if kind == "json":
            return w.json(emb) if rng.random() < 0.8 else rng.choice(BAD_JSON + PLAIN)
        if kind == "url":
            return w.url(emb) if rng.random() < 0.8 else rng.choice(BAD_URL + PLAIN)
        if kind == "par":
            return w.json(1)
        return w.string(emb) if rng.random() < 0.8 else safe(rng)

    top = ["s", "t", "u", "v.w", "arr"]
    if n > 12:
        # Strings are taken from a pool to have a reasonable number of columns.
        make = val
        pool = [make() for _ in range(40 if kind == "big" else rng.choice((6, 20)))]
        if kind == "par":
            pool = pool[:8] + [make() for _ in range(2)]
            d = {"k%d" % i: "v" * rng.randint(1, 900) for i in range(60)}
            pool.append(gen.to_json(d))
            w.js[pool[-1]] = d

        def val():
            return rng.choice(pool)
    ds = []
    for i in range(n):
        d = {"id": "L%d" % i}
        for k in rng.sample(top, rng.randint(1, 5)):
            if k == "v.w":
                d["v"] = {"w": val(), "z": val()}
            elif k == "arr":
                d["arr"] = [val() for _ in range(rng.randint(0, 3))]
            else:
                d[k] = val()
        ds.append(d)

    extracted = [0]
    rules = []
    if kind in ("regex", "both") or (kind == "select" and rng.random() < 0.5):
        cand = [(".s", "JSON"), (".t", "URL"), (".v.*", "JSON"), (".arr.*", "URL"), ("^\\.u$", "JSON"), (".s.JSON.*", "JSON"),
                (".s.JSON.a", "JSON"), (".t.URL.query.*.*", "JSON"), ("\\.z$", "URL"), (".u.JSON.*", "URL"), (".nope", "URL")]
        rng.shuffle(cand)
        bad = (("\\.z$", ".v.*"), (".s.JSON.*", ".s.JSON.a"))
        for p, x in cand[:rng.randint(1, 5)]:
            if any((p == y[0] and y[1] in [r[0] for r in rules]) or (p == y[1] and y[0] in [r[0] for r in rules]) for y in bad):
                continue
            rules.append((p, x))
        conf["extractValuesRegex"] = dict(rules)
    res = [(star(p) if p[0] == "." else re.compile(p), x) for p, x in rules]
    strings = kind not in ("regex", "none") and not (kind == "select" and rules and rng.random() < 0.6)
    if strings:
        a.append("-extract-strings")

    skip = [False]

    def hook(path, s):
        for r, x in res:
            if r.search(path):
                f = w.find(s)
                if x == "JSON" and f and f[0][0] == "JSON":
                    extracted[0] += 1
                    return f
                if x == "URL" and f and f[0][0] == "URL":
                    extracted[0] += 1
                    return f
                # Many strings are valid for both formats, only definite ones are used.
                if x == "URL" and s not in BAD_URL:
                    skip[0] = True
                if x == "JSON" and not f and s not in BAD_JSON and s not in BAD_URL:
                    skip[0] = True
                break
        if strings:
            f = w.find(s)
            if f:
                extracted[0] += 1
            return f
        return []

    if res:
        # Replace values at keys of patterns by ones with a definite meaning.
        def fix(v, path):
            if isinstance(v, dict):
                return {k: fix(x, path + "." + k) for k, x in v.items()}
            if isinstance(v, list):
                return [fix(x, path + ".[%d]" % i) for i, x in enumerate(v)]
            if isinstance(v, str):
                for r, x in res:
                    if r.search(path):
                        if x == "URL":
                            return w.url(1) if rng.random() < 0.8 else rng.choice(BAD_URL)
                        r = rng.random()
                        return w.json(1) if r < 0.75 else w.url(0) if r < 0.85 else rng.choice(BAD_JSON)
            return v
        ds = [fix(d, "") for d in ds]

    t = model.table(ds, hook=hook)
    if skip[0]:
        # Extracted values have ambiguous strings at keys of patterns of the second level.
        conf["extractValuesRegex"] = {p: x for p, x in rules if not re.search(r"\.(JSON|URL)\.", p)}
        res[:] = [r for r, (p, x) in zip(res, rules) if not re.search(r"\.(JSON|URL)\.", p)]
        skip[0] = False
        t = model.table(ds, hook=hook)
        if skip[0]:
            cx.count("ambiguous")
            return
    low = {}
    for col in t.cols:
        low[col.lower()] = low.get(col.lower(), 0) + 1
    ev = {}
    for d in ds:
        for e in model.walk(d, hook=hook):
            ev.setdefault(e.path.lower(), set()).add(e.path)
    if any(len(x) > 1 for x in ev.values()):
        a.append("-case-sensitive-keys")
        t = model.table(ds, hook=hook, case_sensitive=True)
    a += ["-children-limit", "0"] if rng.random() < 0.5 or kind == "big" else []
    if "-children-limit" not in a:
        kids = {}
        for d in ds:
            for e in model.walk(d, hook=hook):
                kids.setdefault(".".join(e.segs[:-1]), set()).add(e.path)
        if any(len(v) > 100 for k, v in kids.items() if k):
            a += ["-children-limit", "0"]

    if kind == "select":
        deep = [k for k in t.cols if ".JSON" in k or ".URL" in k]
        pool = deep if deep and rng.random() < 0.8 else t.cols
        sel = rng.sample(pool, min(len(pool), rng.choice((1, 1, 2, 5))))
        if rng.random() < 0.3:
            sel += [k for k in rng.sample(t.cols, 1) if k not in sel]
        t.cols = sel
        if len(sel) == 1 and rng.random() < 0.5:
            a += ["-get-key", sel[0]]
        else:
            conf["includeKeys"] = sel
        cx.count("selected", len(sel))
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    fn = outs.names()
    which = ("csv",) if rng.random() < 0.6 or "-case-sensitive-keys" in a else outs.ALL
    outs.run(cx, fn, which, a, env)
    if not t.cols:
        return
    tab = outs.csv_tab(cx, fn["csv"])
    compare(cx, t, tab)
    outs.check_all(cx, fn, tab, which)
    cx.count("extracted", extracted[0])
    cx.count("columns_extracted", sum(1 for k in t.cols if ".JSON" in k or ".URL" in k))
    if extracted[0]:
        cx.seen(data + repr(a).encode() + repr(env).encode())
