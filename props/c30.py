"""C30: processors in one process do not affect each other."""
import gzip
import json
import os
import re
import subprocess

from fw import gen, mix, outs, parse
from fw.core import Violation

from . import c16

BINS = ["flatjsonl", "lib", "lib_race"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: differential monitor of many processors in one process against one run of the tool for each, "
             "race detector, monitor of goroutines")
RULE = ("A harness links the package and runs 2 to 9 processors in one process, one after another and at the same time, created "
        "before or in between, with separate or common values of Config, reading files or readers in memory (plain, gzip, zstd), "
        "some of them fail (missing, broken, full device, bad options) or stop early. Every processor has a random combination of features. Monitors: its files, tables and reports are "
        "identical to those that the command line tool makes with the same flags and configuration in a process of its own, it "
        "fails with the same message or does not; no goroutine and no open file of a processor is left after all of them are done; the race detector "
        "has no reports in a part of cases. Non-trivial: at least two processors that have outputs with rows; distinct by jobs.")
ASSUMPTIONS = ["one worker unless columns are fixed, so that outputs are identical byte by byte",
               "processors are not used again after Process", "held on the executions listed, not for all programs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("mix", 60), ("shared", 60), ("race", 24), ("reader", 24), ("many", 4), ("stop", 6)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


class Sub:
    """Context with a prefix of names of files."""

    def __init__(self, cx, p):
        self.cx, self.p, self.rng = cx, p, cx.rng

    def write(self, name, data):
        self.cx.write(self.p + name, data)


def no_config(args):
    """Returns arguments without configuration and its text."""
    if "-config" not in args:
        return list(args), ""
    i = args.index("-config")
    return args[:i] + args[i + 2:], args[i + 1]


VARIANTS = (["-get-key", ".id"], ["-get-key", ".ts"], ["-get-key", ".m.alpha0"], ["-get-key", ".mixed"], ["-add-sequence"],
            ["-case-sensitive-keys"], ["-children-limit", "2"], ["-children-limit", "0"], ["-max-lines", "2"], ["-offset-lines", "1"],
            ["-field-limit", "2"], ["-skip-zero-cols"], ["-extract-strings"], ["-match-line-prefix", "(.)"], ["-sql-table", "other"])


def load(cx, d):
    res = {}
    for f in sorted(os.listdir(cx.path(d))):
        p = d + "/" + f
        if f.endswith(".sqlite"):
            res[f] = parse.read_sqlite(cx.path(p))
            continue
        b = parse.decompress(p, cx.read(p))
        if f.endswith((".sql", ".sql.gz", ".sql.zst")):
            b = re.sub(rb"(?m)^SELECT '\d+(/\d+)? lines completed[^'\n]*' AS status;$", b"SELECT '' AS status;", b)
        res[f] = b
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    jobs, refs, shows = [], [], []
    k = rng.randint(2, 9) if kind not in ("many", "stop") else rng.randint(1, 4) if kind == "stop" else rng.choice((12, 24))
    shared = kind == "shared" or rng.random() < 0.3
    w = None
    for i in range(k):
        if w is None or not shared or rng.random() < 0.15:
            ex = ("verbosity3", "memlimit", "reports") if kind == "race" else ("memlimit", "reports")
            w = mix.workload(Sub(cx, "w%d_" % i), n=rng.choice((2, 10, 40)) if kind != "reader" else rng.choice((10, 300)), exclude=ex, maxfeats=5)
            w.inputs = ["w%d_%s" % (i, f) for f in w.inputs]
            if shared and rng.random() < 0.7:
                # Number of items matters for capacity of slices.
                args, text = no_config(w.args)
                conf = json.loads(text) if text else {}
                for name, pool in (("includeKeys", (".id", ".ts", ".tags.[0]", ".mixed", ".u")), ("keepJSON", (".m", ".arr", ".nope", ".o.p", ".q")),
                                   ("excludeKeys", (".x", ".y", ".z", ".tags.[1]", ".arr.[0].x"))):
                    if rng.random() < 0.5:
                        conf[name] = rng.sample(pool, rng.choice((1, 2, 3, 3, 5)))
                if "excludeKeys" in conf and len(conf.get("includeKeys", ())) > 1 and rng.random() < 0.5:
                    conf["excludeKeys"].append(rng.choice(conf["includeKeys"][:-1]))
                if "includeKeys" in conf and "-get-key" in args:
                    conf.pop("includeKeysRegex", None)
                for t in conf.get("keepJSON", []):
                    conf.get("transpose", {}).pop(t, None)
                w.args = args + ["-config", json.dumps(conf)]
        args, text = no_config(w.args)
        if shared and rng.random() < 0.7 or rng.random() < 0.2:
            v = rng.choice(VARIANTS)
            if v[0] not in args and not (v[0] == "-get-key" and "includeKeysRegex" in text):
                args = args + v
        inputs = list(w.inputs)
        full = None
        if kind == "stop":
            # Reading ends long before the end of input.
            line = json.dumps({"id": i, "s": "x" * rng.randint(0, 200), "r": [rng.random() for _ in range(40)]}).encode() + b"\n"
            data = b"".join(line.replace(b'"id": ', b'"id": %d' % (n + 1)) for n in range(rng.choice((3000, 12000))))
            ext = rng.choice((".zst", ".zst", ".gz", ""))
            name = "big%d.jsonl%s" % (i, ext)
            if ext == ".zst":
                data = subprocess.run(["zstd", "-q", "-c", rng.choice(("-1", "-3"))], input=data, capture_output=True, check=True).stdout
            elif ext == ".gz":
                data = gzip.compress(data, 1, mtime=0)
            cx.write(name, data)
            inputs = [name]
            args = ["-verbosity", "0"] + rng.choice((["-max-lines", "1"], ["-max-lines", "3"], ["-buf-size", "100"],
                                                      ["-max-lines", "2", "-offset-lines", "2"]))
            text = ""
        if kind != "stop" and rng.random() < 0.12:
            # The processor fails.
            how = rng.choice(("missing", "buffer", "regex", "truncated", "full"))
            if how == "missing":
                inputs.append("missing.jsonl")
            elif how == "buffer":
                args += ["-buf-size", "3"]
            elif how == "full":
                full = True
            elif how == "regex":
                conf = json.loads(text) if text else {}
                conf["excludeKeysRegex"] = ["(("]
                text = json.dumps(conf)
            else:
                cx.write("bad%d.jsonl.gz" % i, b"\x1f\x8b\x08\x00abc")
                inputs = ["bad%d.jsonl.gz" % i]
        drop = []
        if shared and text and rng.random() < 0.4:
            # Copy of common configuration without one of its parts, other parts stay common.
            conf = json.loads(text)
            can = [f for f in ("excludeKeys", "excludeKeysRegex", "includeKeysRegex", "keepJSON", "parseTime", "concatDelimiter",
                               "replaceKeys") if f in conf]
            if "includeKeysRegex" in can and "includeKeys" not in conf:
                can.remove("includeKeysRegex")
            if can:
                drop = [rng.choice(can)]
                conf.pop(drop[0])
        c = 1
        if "skipscan" in w.feats and not {"includere", "transpose", "const"} & set(w.feats) and "Regex" not in text:
            c = rng.choice((1, 2, 8, 32))
        ext = rng.choice(("", "", ".gz", ".zst"))
        which = rng.choice((("csv",), ("csv",), ("csv", "pg"), ("raw",), outs.ALL, ("sqlite",)))
        rep = rng.sample(mix.REPORTS[:1] + mix.REPORTS[2:3], 1) if kind != "stop" and rng.random() < 0.2 else []
        args += ["-concurrency", str(c)] + rep
        os.makedirs(cx.path("L%d" % i))
        os.makedirs(cx.path("R%d" % i))
        cmd = args + outs.args(outs.names("L%d/o" % i, ext), which) + inputs
        if full:
            # There is no space for this output.
            full = [rng.choice(("-csv", "-raw")), "/dev/full"]
            cmd, which = args + full + inputs, ()
        missing = "missing.jsonl" in inputs
        jobs.append({"args": cmd, "config": text, "drop": [f[0].upper() + f[1:] for f in drop], "seek": rng.choice((0, 1, 7, 1 << 30)), "reader": not missing and (kind == "reader" or rng.random() < 0.3),
                     "delay_us": rng.choice((0, 0, 100, 3000)), "group": rng.randint(0, k - 1) if kind != "many" else i,
                     "stdout": "L%d.txt" % i})
        if drop:
            text = json.dumps(conf)
        refs.append(args + (["-config", text] if text else []) + (full or outs.args(outs.names("R%d/o" % i, ext), which)) + inputs)
        shows.append(rep)
    if rng.random() < 0.2:
        for j in jobs:
            j["group"] = 0
    plan = {"shared": shared, "late": rng.random() < 0.6, "jobs": jobs}
    cx.write("plan.json", json.dumps(plan))
    env = {}
    if rng.random() < 0.5:
        env["GOMAXPROCS"] = str(rng.choice((1, 2, 4, 16)))
    if rng.random() < 0.2:
        env["GOGC"] = "10"
    race = kind == "race"
    r = cx.exec(["plan.json"], env, timeout=120, bin="lib_race" if race else "lib")
    if r.timeout:
        raise Violation("processors do not finish\n" + r.brief(), "hang")
    err = r.err.decode("utf-8", "replace")
    if race:
        found, ign = c16.races(err)
        if found:
            tops, body = found[0]
            raise Violation("%d data race report(s), first: %s\n%s" % (len(found), " / ".join(tops), body[:6000]))
        cx.count("race_detector_runs")
        if r.rc == 66 and ign:
            r.rc = 0
    if r.rc == 3 and "harness:" in err:
        raise AssertionError(err[-1000:])
    if r.rc != 0:
        raise Violation("process with several processors failed\n" + r.brief())
    res = json.loads(r.out.decode().strip().split("\n")[-1])
    rows = 0
    for i, x in enumerate(res["results"]):
        f = cx.exec(refs[i], timeout=60)
        if x["panic"]:
            raise Violation("processor %d panicked: %s, status of the tool is %s\n%s" % (i, x["panic"], f.rc, f.brief()))
        if bool(x["err"]) != (f.rc != 0):
            raise Violation("processor %d (%r): error %r, the tool has status %s\n%s" % (i, jobs[i], x["err"], f.rc, f.brief()))
        if x["err"]:
            if not jobs[i]["reader"] and x["err"].replace("L%d/" % i, "R%d/" % i) not in f.err.decode("utf-8", "replace"):
                raise Violation("processor %d: error %r, the tool has %r" % (i, x["err"], f.err[-500:]))
            cx.count("failed_processors")
            continue
        got, want = load(cx, "L%d" % i), load(cx, "R%d" % i)
        if set(got) != set(want):
            raise Violation("processor %d (%r) made files %r, the tool made %r" % (i, jobs[i], sorted(got), sorted(want)))
        for n in want:
            if got[n] != want[n]:
                if isinstance(want[n], bytes):
                    x, y = got[n], want[n]
                    p = next((p for p, (s, t) in enumerate(zip(x, y)) if s != t), min(len(x), len(y)))
                    raise Violation("processor %d (%r), file %s differs from that of the tool at byte %d: %r, %r" % (
                        i, jobs[i], n, p, x[max(0, p - 60):p + 60], y[max(0, p - 60):p + 60]))
                raise Violation("processor %d (%r), tables of %s differ from those of the tool" % (i, jobs[i], n))
            if n.startswith("o.csv"):
                rows += max(0, want[n].count(b"\n") - 1)
        if shows[i] and cx.read("L%d.txt" % i) != f.out:
            raise Violation("processor %d (%r), report differs: %r, %r" % (i, jobs[i], cx.read("L%d.txt" % i)[:500], f.out[:500]))
        cx.count("processors")
        cx.count("files", len(want))
        if jobs[i]["reader"]:
            cx.count("readers")
    if res["after"] > res["before"]:
        raise Violation("%d goroutines are left after processors are done, there were %d of them before" % (res["after"], res["before"]))
    left = [t for t in res["fd_after"] or [] if t not in (res["fd_before"] or [])]
    if left:
        raise Violation("files are open after processors are done: %r" % left[:5])
    cx.count("rows", rows)
    if rows > 1 or kind == "stop":
        cx.seen((repr(plan), case["n"], kind))
