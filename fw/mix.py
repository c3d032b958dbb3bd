"""Random workloads that combine all features."""
import gzip
import json
import subprocess

from . import gen, outs

FEATURES = ("prefix", "extract", "extractre", "time", "transpose", "keep", "children", "include", "includere", "exclude", "getkey",
            "replace", "replacere", "snake", "keylimit", "concat", "const", "zero", "limit", "seq", "case", "verbose", "memlimit",
            "reports", "multi", "gzin", "window", "malformed", "verbosity3", "skipscan")

REPORTS = ("-show-keys-flat", "-show-keys-hier", "-show-keys-info", "-show-json-schema")


class Mix:
    """args (without outputs and inputs), inputs (file names), feats."""

    def __init__(self):
        self.args = []
        self.conf = {}
        self.inputs = []
        self.feats = ()
        self.n = 0
        self.reports = []
        self.data = b""


def doc(rng, sch, i, feats, pool):
    d = sch.doc()
    d["id"] = "L%d" % i
    if rng.random() < 0.8:
        d["ts"] = rng.choice(("2024-01-02T03:04:05Z", "2020-02-29T23:59:59+02:00", "bad", ""))
    if rng.random() < 0.6:
        d["tags"] = [rng.choice(gen.WORDS) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.5:
        d["m"] = {rng.choice(gen.WORDS) + str(rng.randint(0, 5)): rng.randint(0, 9) for _ in range(rng.randint(0, 4))}
    if rng.random() < 0.4:
        d["arr"] = [{"x": rng.randint(0, 3), "y": {"z": rng.choice((None, "v", True))}} for _ in range(rng.randint(0, 3))]
    if "extract" in feats or "extractre" in feats:
        if rng.random() < 0.6:
            d["js"] = rng.choice(('{"a":1,"b":[true,null]}', "[1,2]", '{"n":"{\\"q\\":1}"}', "{bad", '{"u":"http://h/p?q=1"}'))
        if rng.random() < 0.6:
            d["u"] = rng.choice(("https://user:pw@host:80/a/b?x=1&y=2#f", "://", "http://example.com", "x://%zz"))
    if "children" in feats:
        d["hc"] = {"k%d" % rng.randint(0, pool): rng.randint(0, 9) for _ in range(rng.randint(0, 3))}
        if rng.random() < 0.3:
            d["hc2"] = {"in": {"q%d" % rng.randint(0, pool): {"v": i} for _ in range(2)}}
    if "zero" in feats:
        d["z1"] = rng.choice((0, 0, 0, 1 if i > 10 else 0))
        d["z2"] = rng.choice(("", None, False))
    if rng.random() < 0.3:
        d["mixed"] = gen.rscalar(rng)
    return d


def workload(cx, n=None, feats=None, maxfeats=6, exclude=()):
    """Writes input files, returns Mix."""
    rng = cx.rng
    w = Mix()
    if feats is None:
        av = [f for f in FEATURES if f not in exclude]
        feats = set(rng.sample(av, rng.randint(1, maxfeats)))
    if "getkey" in feats:
        feats -= {"includere"}
    if n is None:
        n = rng.choice((3, 20, 60, 150, 300))
    sch = gen.Schema(rng, width=rng.choice((3, 6, 10)), depth=3, keymode="plain" if "keylimit" in feats else rng.choice(("plain", "plain", "mixed")),
                     valmode=rng.choice(("plain", "mixed")))
    pool = rng.choice((3, 30, 200))
    lns = []
    for i in range(n):
        d = doc(rng, sch, i, feats, pool)
        b = gen.to_json(d, rng, 0, 0.02).encode("utf-8", "surrogateescape")
        if "prefix" in feats and rng.random() < 0.8:
            b = rng.choice((b"host%d 2024/01/02 " % (i % 3), b"noise ", b"a b c d e f ")) + b
            if rng.random() < 0.1:
                b = b"only prefix %d" % i
        if "malformed" in feats and rng.random() < 0.15:
            b = rng.choice((b"x", b"{", b"", b"{]", b[:len(b) // 2], b'{"a":1-2}', b"\xff\x00")).replace(b"\n", b" ")
        lns.append(b)
    if not any(lns):
        lns[0] = b'{"id":"L0"}'
    a, conf = w.args, w.conf
    if "case" in feats:
        a.append("-case-sensitive-keys")
    if "prefix" in feats:
        if rng.random() < 0.5:
            a += ["-match-line-prefix", r"(\S+) ([\d/]*)"]
        else:
            conf["matchLinePrefix"] = r"(\S+) ([\d/]*)"
    if "extract" in feats:
        a.append("-extract-strings")
    if "extractre" in feats:
        conf["extractValuesRegex"] = {r"^\.js$": "JSON", r"^\.u$": "URL"}
    if "time" in feats:
        conf["parseTime"] = {".ts": "2006-01-02T15:04:05Z07:00", ".id": "RAW"}
        conf["outputTimeFormat"] = "2006-01-02 15:04:05"
        if rng.random() < 0.6:
            conf["outputTZ"] = rng.choice(("UTC", "Europe/Berlin"))
    if "transpose" in feats:
        conf["transpose"] = dict(rng.sample(((".tags", "tags"), (".m", "m"), (".arr", "arr"), (".hc", "hc")), rng.randint(1, 3)))
    if "keep" in feats:
        conf["keepJSON"] = rng.sample((".m", ".arr", ".hc", ".tags"), 2)
        if "transpose" in feats:
            for k in conf["keepJSON"]:
                conf["transpose"].pop(k, None)
    if "children" in feats:
        a += ["-children-limit", str(rng.choice((1, 2, 10, 50, 100)))]
        if rng.random() < 0.3:
            conf["allowCardinality"] = [".hc"]
    elif rng.random() < 0.5:
        a += ["-children-limit", "0"]
    if "include" in feats:
        conf["includeKeys"] = rng.sample((".id", ".ts", ".tags.[0]", ".mixed", ".nope", ".arr.[1].y.z", ".u"), rng.randint(1, 4))
    if "skipscan" in feats:
        conf["includeKeys"] = [".id"]
    if "includere" in feats:
        conf["includeKeysRegex"] = [r"^\.(id|tags|m|hc)(\.|$)", r"z1$"]
    if "exclude" in feats:
        conf["excludeKeys"] = [".ts", ".tags.[1]"]
        conf["excludeKeysRegex"] = [r"^\.m\.al", ".arr.*.x"]
    if "getkey" in feats:
        a += ["-get-key", rng.choice((".id", ".tags.[0]", ".js", ".ts"))]
    if "replace" in feats:
        conf["replaceKeys"] = {".id": "The ID", ".ts": "time"}
    if "replacere" in feats:
        conf["replaceKeysRegex"] = {r"^\.m\.(.+)$": "m_${1}|to_snake_case", r"^\.hc\.(.+)$": "h ${1}"}
    if "snake" in feats:
        a.append("-replace-keys")
    if "keylimit" in feats:
        a += ["-key-limit", str(rng.choice((4, 8, 20)))]
    if "concat" in feats:
        conf.setdefault("replaceKeys", {}).update({".tags.[0]": "tag", ".tags.[1]": "tag", ".mixed": "tag"})
        if rng.random() < 0.7:
            conf["concatDelimiter"] = "|"
    if "const" in feats:
        conf["includeKeys"] = conf.get("includeKeys", []) + ["const:abc"]
        if rng.random() < 0.5:
            conf["includeKeysRegex"] = ["^\\."]
    if "zero" in feats:
        a.append("-skip-zero-cols")
    if "limit" in feats:
        a += ["-field-limit", str(rng.choice((1, 5, 100)))]
    if "seq" in feats:
        a.append("-add-sequence")
    if "memlimit" in feats:
        a += ["-mem-limit", rng.choice(("0", "1"))]
    if "window" in feats:
        a += ["-offset-lines", str(rng.choice((0, 1, n // 2))), "-max-lines", str(rng.choice((1, n // 2 + 1, n + 5)))]
        if rng.random() < 0.5:
            a += ["-max-lines-keys", str(rng.choice((1, n // 2 + 1)))]
    if "verbosity3" in feats:
        a += ["-verbosity", "3", "-progress-interval", "1ms"]
    elif "verbose" in feats:
        a += ["-verbosity", str(rng.choice((1, 2))), "-progress-interval", rng.choice(("1ms", "100us", "5s"))]
    else:
        a += ["-verbosity", "0"]
    if "reports" in feats:
        w.reports = rng.sample(REPORTS, rng.randint(1, 4))
        a += w.reports
    if conf:
        a += ["-config", json.dumps(conf)]
    w.data = b"\n".join(lns) + b"\n"
    if "multi" in feats and n > 2:
        k = n // 2
        cx.write("in1.jsonl", b"\n".join(lns[:k]) + b"\n")
        cx.write("in2.jsonl", b"\n".join(lns[k:]) + b"\n")
        w.inputs = ["in1.jsonl", "in2.jsonl"]
    elif "gzin" in feats:
        if rng.random() < 0.5:
            cx.write("in.jsonl.gz", gzip.compress(w.data))
            w.inputs = ["in.jsonl.gz"]
        else:
            cx.write("in.jsonl.zst", subprocess.run(["zstd", "-q", "-c"], input=w.data, capture_output=True, check=True).stdout)
            w.inputs = ["in.jsonl.zst"]
    else:
        cx.write("in.jsonl", w.data)
        w.inputs = ["in.jsonl"]
    w.feats = tuple(sorted(feats))
    w.n = n
    return w
