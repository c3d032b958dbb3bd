"""C28: memory does not grow with the number of lines."""
import ctypes
import json
import os
import resource
import signal
import subprocess
import threading
import time

from fw.core import Violation
from fw.util import cfg

LIBC = ctypes.CDLL(None)

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: resource monitor of peak resident memory, with stalled consumers of output"
PROCS = 4
RULE = ("Peak resident memory of a run is taken from the kernel. Inputs of about 10 and 160 MB made of the same kinds of lines are "
        "processed with every kind of output, feature and report: with one worker, and with many and a soft limit of heap, the "
        "peak of the long run may exceed that of the short one only by a part of the difference in size. Outputs go to a pipe "
        "that nobody reads for some seconds while tens of megabytes of input are available: with a soft limit of heap the peak "
        "stays near the limit, and after the reader wakes up all rows arrive. Non-trivial: the long run handles at least 10 times "
        "more lines; distinct by input and options.")
ASSUMPTIONS = ["set of keys is bounded", "soft limit may be exceeded by a factor of 3 and the memory of an idle run",
               "held on the executions listed, not for all inputs"]

FEATS = {
    "plain": [], "extract": ["-extract-strings"], "getkey": ["-get-key", ".s"], "seq": ["-add-sequence"], "cs": ["-case-sensitive-keys"],
    "transpose": cfg({"transpose": {".t": "t", ".o": "o"}}), "keep": cfg({"keepJSON": [".o", ".t"]}),
    "include": cfg({"includeKeys": [".i", ".s", ".ts"]}), "snake": ["-replace-keys"], "time": cfg({"parseTime": {".ts": "RFC3339"}}),
    "prefix": ["-match-line-prefix", r"(\w+) "], "skipzero": ["-skip-zero-cols"], "limit": ["-field-limit", "20"],
    "concat": cfg({"replaceKeys": {".i": "x", ".s": "x"}, "concatDelimiter": "/"}), "malformed": [], "children": ["-children-limit", "2"],
    "regex": cfg({"includeKeysRegex": [".o.*", ".s"]}), "url": cfg({"extractValuesRegex": {".u": "URL"}}), "verbose": ["-verbosity", "2"],
}
OUTS = {"csv": ["-csv", "o.csv"], "raw": ["-raw", "o.raw", "-raw-delim", "|"], "pg": ["-pg-dump", "o.sql"], "sqlite": ["-sqlite", "o.sqlite"],
        "gz": ["-csv", "o.csv.gz"], "zst": ["-csv", "o.csv.zst"], "all": ["-csv", "o.csv", "-raw", "o.raw", "-pg-dump", "o.sql"],
        "info": ["-show-keys-info"], "flat": ["-show-keys-flat"], "schema": ["-show-json-schema"], "hier": ["-show-keys-hier"]}


def cases(tier, rng):
    q = tier == "quick"
    res = []
    fs, os_ = sorted(FEATS), sorted(OUTS)
    for i in range(8 if q else 60):
        res.append({"kind": "short", "n": i, "out": rng.choice(("csv", "raw", "pg", "gz", "info", "flat", "schema")),
                    "feat": rng.choice(("plain", "extract", "getkey", "seq", "cs", "transpose", "include", "snake", "skipzero", "limit",
                                        "malformed"))})
    for i in range(46 if q else 300):
        if i % 3 == 2:
            res.append({"kind": "stall", "n": i, "limit": rng.choice((20, 30, 50)), "out": rng.choice(("csv", "raw", "pg", "gz")),
                        "feat": rng.choice(("plain", "plain", "extract", "include", "seq", "getkey", "concat"))})
        else:
            res.append({"kind": "stream" if i % 3 == 0 else "many", "n": i, "feat": fs[i * 2 // 3 % len(fs)],
                        "out": rng.choice(os_ if rng.random() < 0.5 else ["csv", "pg", "all", "sqlite"])})
    return res


def lines(f, rng, size, feat, i=0):
    """Writes about size bytes of lines, returns their number."""
    done, n = 0, 0
    tpl = []
    for _ in range(64):
        o = {"i": 0, "s": "".join(rng.choice("abcdefghij klmnop") for _ in range(rng.choice((200, 600, 1500)))), "t": ["a", {"b": "c"}],
             "o": {"x": rng.random(), "y": "v%d" % rng.randint(0, 9), "z": [1]}, "ts": "2021-02-03T04:05:06Z", "u": "http://h/p?q=1",
             "j": json.dumps({"q": "r" * rng.randint(1, 200), "k": [1, 2]})}
        s = json.dumps(o)
        if feat == "prefix":
            s = "pre fix " + s
        if feat == "malformed" and rng.random() < 0.5:
            s = rng.choice((s[:-3], "noise " * 100, s[1:].replace("{", "")))
        tpl.append(s.replace('"i": 0', '"i": %d'))
    while done < size:
        b = "".join((t % (n + k) if "%d" in t else t) + "\n" for k, t in enumerate(tpl))
        f.write(b)
        done += len(b)
        n += len(tpl)
    return n


def short_lines(f, rng, n, feat):
    """Writes n short lines."""
    tpl = []
    for i in range(1000):
        o = rng.choice(({"s": "x"}, {"s": "ab", "i": i}, {"i": i % 7}, {"t": ["a"]}, {"s": "c", "o": {"x": 1}}))
        tpl.append(json.dumps(o) if feat != "malformed" or rng.random() < 0.5 else rng.choice(("{", "x", "")))
    b = "\n".join(tpl) + "\n"
    for _ in range(n // 1000):
        f.write(b)
    return n


def die_with_parent():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    LIBC.prctl(1, signal.SIGKILL)


def run(cx, args, timeout=240, reader=None, env=None):
    """Runs flatjsonl, returns exit status and peak of resident memory in MB."""
    e = {"PATH": os.environ.get("PATH", ""), "HOME": cx.dir, "TMPDIR": cx.dir, "LC_ALL": "C", "TZ": "UTC"}
    e.update(env or {})
    cmd = [cx.bins["flatjsonl"]] + args
    cx.runs += 1
    cx.log.append(["flatjsonl"] + args)
    with open(cx.path("stdout"), "wb") as so, open(cx.path("stderr"), "wb") as se:
        p = subprocess.Popen(cmd, cwd=cx.dir, env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True,
                             preexec_fn=die_with_parent)
        killed = []

        def kill():
            killed.append(1)
            os.killpg(p.pid, signal.SIGKILL)
        t = threading.Timer(timeout, kill)
        t.start()
        th = None
        if reader:
            th = threading.Thread(target=reader)
            th.start()
        _, st, ru = os.wait4(p.pid, 0)
        t.cancel()
        p.returncode = os.waitstatus_to_exitcode(st)
    err = open(cx.path("stderr"), "rb").read()[-3000:]
    if killed:
        raise Violation("process does not finish in %d s: %r" % (timeout, cmd))
    if p.returncode != 0 or b"panic on line" in err:
        raise Violation("run failed on a valid workload: status %s\n%s" % (p.returncode, err.decode("utf-8", "replace")))
    return ru.ru_maxrss / 1024, th


def run_case(cx, case):
    rng = cx.rng
    if case["kind"] == "stall":
        return stall(cx, case)
    feat, out = case["feat"], case["out"]
    small, large = 10 << 20, 160 << 20
    if out in ("sqlite", "all"):
        large = 110 << 20
    if case["kind"] == "short":
        with open(cx.path("a.jsonl"), "w") as f:
            na = short_lines(f, rng, 50000, feat)
        with open(cx.path("b.jsonl"), "w") as f:
            nb = short_lines(f, rng, 1500000, feat)
    else:
        with open(cx.path("a.jsonl"), "w") as f:
            na = lines(f, rng, small, feat)
        with open(cx.path("b.jsonl"), "w") as f:
            nb = lines(f, rng, large, feat)
    c = "1" if case["kind"] in ("stream", "short") else str(rng.choice((4, 8, 16, 40)))
    a = ["-concurrency", c, "-buf-size", "100000"] + OUTS[out] + FEATS[feat]
    if "-verbosity" not in a:
        a += ["-verbosity", "0"]
    if case["kind"] == "many" or out == "sqlite":
        a += ["-mem-limit", "30"]
    ma, _ = run(cx, a + ["a.jsonl"])
    cx.rm("o.csv", "o.raw", "o.sql", "o.sqlite", "o.csv.gz", "o.csv.zst")
    mb, _ = run(cx, a + ["b.jsonl"])
    lim = max(ma, 60) + 50
    if case["kind"] == "short":
        lim = max(ma, 20) + 20
    if case["kind"] == "many":
        lim = max(lim, 30 * 3 + 50)
    if mb > lim:
        mb2, _ = run(cx, a + ["b.jsonl"]) if out != "sqlite" else (mb, 0)
        if mb2 > lim:
            raise Violation("peak of memory is %.0f MB for %d lines, %.0f MB for %d lines (expected up to %.0f MB)" % (mb, nb, ma, na, lim))
    cx.count("lines", na + nb)
    cx.count("max_peak_mb", int(max(ma, mb)))
    cx.count("runs_compared")
    cx.seen(repr((case, a)))


def stall(cx, case):
    """Output is a pipe with a sleeping reader."""
    rng = cx.rng
    limit = case["limit"]
    size = 120 << 20
    with open(cx.path("b.jsonl"), "w") as f:
        n = lines(f, rng, size, "plain")
    name = {"csv": "o.csv", "raw": "o.raw", "pg": "o.sql", "gz": "o.csv.gz"}[case["out"]]
    os.mkfifo(cx.path(name))
    got = [0, 0]
    wait = rng.choice((2.5, 4))
    # Both ends are open from the start: the other side never waits.
    rd = os.open(cx.path(name), os.O_RDONLY | os.O_NONBLOCK)
    stop = threading.Event()

    def reader():
        time.sleep(wait)
        while True:
            try:
                b = os.read(rd, 1 << 20)
            except BlockingIOError:
                b = None
            if b:
                got[0] += len(b)
                got[1] += b.count(b"\n")
                continue
            if stop.is_set():
                break
            time.sleep(0.002)
    a = ["-verbosity", "0", "-concurrency", str(rng.choice((2, 8, 16))), "-buf-size", "100000", "-mem-limit", str(limit)]
    a += OUTS[case["out"]] + FEATS[case["feat"]]
    if case["feat"] not in ("include", "getkey"):
        a += ["-max-lines-keys", "1000"]
    try:
        m, th = run(cx, a + ["b.jsonl"], reader=reader)
        stop.set()
        th.join(60)
    finally:
        stop.set()
        os.close(rd)
    if m > limit * 3 + 60:
        raise Violation("peak of memory is %.0f MB while output is stalled, soft limit is %d MB" % (m, limit))
    if case["out"] in ("csv", "raw") and got[1] != n + (case["out"] == "csv"):
        raise Violation("%d rows came through the pipe, expected %d" % (got[1], n))
    if not got[0]:
        raise Violation("nothing came through the pipe")
    cx.count("max_stalled_peak_mb", int(m))
    cx.count("stalled_runs")
    cx.count("lines", n)
    cx.seen(repr((case, a)))
