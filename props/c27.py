"""C27: diagnostics are exact and do not change the result."""
import collections
import gzip
import json
import os
import re

from fw import gen, mix, model, outs, parse
from fw.core import Violation
from fw.util import cfg, conc, sched_env

from . import c20, c21

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline monitor over the messages and status lines of a run, differential monitor over its outputs"
RULE = ("Random lines with malformed ones and lines without JSON among them are processed with -verbosity 2 and 3, plain, gzip and "
        "zstd, in several files, with many workers under perturbed schedules. Monitor over stderr: every such line is reported "
        "exactly once in every pass with its number and text, no other line is; the final status of each pass has this number of "
        "errors, 100.0% of bytes and the number of lines; summaries have the number of lines and columns; every status statement of a "
        "PostgreSQL dump has the number of rows before it. Random combinations of "
        "features are run with every verbosity, progress every millisecond, CPU and memory profiles, and have to give the same "
        "outputs and reports as a silent run. Non-trivial: at least one reported line or one output with rows; distinct by input, "
        "options and schedule.")
ASSUMPTIONS = ["final status is read with an interval of progress longer than the run",
               "held on the executions listed, not for all inputs"]

NOJSON = ["", " ", "x", "noise", "[]", "[1,2]", "null", "123", "}", '"s"', "long " * 300, "100%", "%d %s %!", "日本", "\x01\x02", "a: b", "\\", "]"]
BAD = ["{", '{"a":', "{bad}", '{"a":1 "b":2}', '{"a":[1,2', '{"a":"un', "{]", '{"a":tru}', '{"a":}', '{"%s":%d', '{"b":' + '"x",' * 200,
       '{"日本":', "{'a':1}", "{,}", '{"a"', '{"a":nul}', '{"k":{"k":{"k":', '{"a":[}']


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("errors", 240), ("status", 140), ("same", 200), ("many", 6), ("quiet", 40), ("version", 20), ("pg", 30)):
        for i in range(n if q else n * 14):
            res.append({"kind": kind, "n": i})
    return res


def messages(err):
    """Lines of stderr that report errors."""
    return [l[len(b"error: "):] for l in err.split(b"\n") if l.startswith(b"error: ")]


SUM = re.compile(rb"^lines: (\d+), keys: (\d+)$")
ST = re.compile(rb"^(scanning keys|flattening data)(?: \((.*)\))?: (-?[\d.]+)% bytes read, (-?\d+) lines processed, "
                rb"(-?[\d.]+) l/s, (-?[\d.]+) MB/s, elapsed (\S+), remaining (-?\S+), heap (\d+) MB$")


def passes(err):
    """[(lines of a pass, summary)]."""
    res, cur = [], []
    for l in err.split(b"\n"):
        m = SUM.match(l)
        if m:
            res.append((cur, (int(m.group(1)), int(m.group(2)))))
            cur = []
        else:
            cur.append(l)
    return res, cur


def run_case(cx, case):
    kind = case["kind"]
    if kind == "same":
        return run_same(cx)
    if kind == "version":
        return run_version(cx)
    if kind == "pg":
        return run_pg(cx)
    rng = cx.rng
    n = rng.choice((1, 2, 5, 30, 120, 400)) if kind != "many" else rng.choice((3000, 9000))
    c = 1 if rng.random() < 0.25 else conc(rng)
    env = sched_env(rng, 0.6 if kind != "many" else 0)
    a, conf = ["-concurrency", str(c)], {}
    prefix = rng.random() < 0.2
    scan = rng.random() < 0.8
    pbad = rng.choice((0, 0.05, 0.3, 0.9))
    sch = gen.Schema(rng, width=rng.choice((2, 5)), depth=2, keymode="plain", valmode="plain")
    lns, docs, bad = [], [], []
    for i in range(n):
        if rng.random() < pbad:
            docs.append(None)
            if rng.random() < 0.5:
                s = rng.choice(NOJSON)
                lns.append(s)
                if prefix:
                    bad.append(None)
                else:
                    bad.append(b"could not find JSON in line " + s.encode())
            else:
                s = rng.choice(BAD)
                pre = rng.choice(("", "", "p-1 ", "2020 "))
                lns.append(pre + s)
                bad.append((b"malformed JSON at line %d: " % (i + 1), b": " + s.encode()))
        else:
            d = sch.doc()
            d["i"] = i
            docs.append(d)
            lns.append(rng.choice(("", "", "h ", "p-1 ")) * (rng.random() < 0.2) + gen.to_json(d, rng, 0.05, 0.02) + rng.choice(("", "", " tail", "}")))
            bad.append(None)
    if not any(lns):
        lns[0] = "z"
        bad[0] = None if prefix else b"could not find JSON in line z"
    if lns[-1] == "":
        lns.append('{"i":1}')
        docs.append({"i": 1})
        bad.append(None)
    if prefix:
        a += ["-match-line-prefix", r"^(p)-(\d)"]
    if not scan:
        conf["includeKeys"] = [".i"] + ([".nope"] if rng.random() < 0.5 else [])
    if rng.random() < 0.1:
        a += ["-get-key", ".i"]
        scan = False
    if rng.random() < 0.1:
        a.append("-extract-strings")
    if conf:
        a += cfg(conf)
    # Packaging.
    raw = [l.encode("utf-8", "surrogateescape") for l in lns]
    names, desc = c20.package(cx, raw, allow_split=kind == "status" or rng.random() < 0.2, eol=rng.choice(("lf", "lf", "crlf")))
    ends = sum(d[3] if d[2] else d[3] - 1 for d in desc)
    v = 0 if kind == "quiet" else rng.choice((2, 2, 3))
    r = cx.flat(["-verbosity", str(v), "-progress-interval", "1h", "-csv", "out.csv"] + a + names, env, timeout=120)
    tab = outs.csv_tab(cx, "out.csv")
    if kind == "quiet":
        if b"bytes read" in r.err or messages(r.err):
            raise Violation("status is printed, it is disabled\n" + r.brief())
        if r.out:
            raise Violation("standard output is not empty: %r" % r.out[:300])
        cx.count("silent_runs")
        cx.seen(b"\n".join(raw) + repr((a, names)).encode())
        return
    ps, rest = passes(r.err)
    want = 2 if scan else 1
    if len(ps) != want:
        raise Violation("%d summaries of passes, expected %d\n%s" % (len(ps), want, r.brief()))
    if any(l for l in rest):
        raise Violation("messages after the last summary: %r" % rest[:5])
    if r.out:
        raise Violation("standard output is not empty: %r" % r.out[:300])
    nbad = sum(1 for b in bad if b is not None)
    ncols = len([x for x in tab.cols if x != ""])
    for (ls, (nl, nk)), title in zip(ps, (b"scanning keys", b"flattening data") if scan else (b"flattening data",)):
        what = title.decode()
        if nl != ends:
            raise Violation("%s: summary has %d lines, input has %d" % (what, nl, ends))
        if nk != ncols:
            raise Violation("%s: summary has %d keys, there are %d columns" % (what, nk, ncols))
        if title + b"..." not in ls[:1]:
            raise Violation("%s: pass does not start with its name: %r" % (what, ls[:2]))
        got = [l[7:] for l in ls if l.startswith(b"error: ")]
        check_messages(what, got, bad, c == 1)
        cx.count("reported_lines", len(got))
        st = [(j, ST.match(l)) for j, l in enumerate(ls) if b"bytes read" in l and not l.startswith(b"error: ")]
        if any(m is None for _, m in st):
            raise Violation("%s: malformed status %r" % (what, [ls[j] for j, m in st if m is None][:2]))
        if len(st) != len(names):
            raise Violation("%s: %d final statuses for %d files" % (what, len(st), len(names)))
        last = -1.0
        for (j, m), nm in zip(st, names):
            if m.group(1) != title or (m.group(2) or b"") != (nm.encode() if len(names) > 1 else b""):
                raise Violation("%s: status of %r is %r" % (what, nm, ls[j]))
            p = float(m.group(3))
            if p < last or p > 100:
                raise Violation("%s: %s%% bytes read after %s%%" % (what, p, last))
            last = p
        j, m = st[-1]
        if m.group(3) != b"100.0":
            raise Violation("%s: final status has %s%% of bytes" % (what, m.group(3).decode()))
        if int(m.group(4)) != ends:
            raise Violation("%s: final status has %s lines, input has %d" % (what, m.group(4).decode(), ends))
        mm = re.search(rb"\berrors: (-?\d+)", ls[j + 1]) if j + 1 < len(ls) else None
        if not mm or int(mm.group(1)) != nbad:
            raise Violation("%s: final status has errors %r, there are %d" % (what, ls[j + 1:j + 2], nbad))
        mm = re.search(rb"\brows in progress: (-?\d+)", ls[j + 1])
        if not mm or int(mm.group(1)) != 0:
            raise Violation("%s: rows are in progress at the end: %r" % (what, ls[j + 1]))
        cx.count("statuses", len(st))
        cx.count("passes")
        left = [l for l in ls[1:] if not l.startswith(b"error: ")]
        if len(left) != 2 * len(st):
            raise Violation("%s: unexpected messages %r" % (what, [l for l in left if not ST.match(l)][:6]))
    if len(tab.cols) > 1 and len(tab.rows) != len(lns):
        raise Violation("%d rows for %d lines" % (len(tab.rows), len(lns)))
    cx.count("lines", len(lns))
    if nbad or len(names) > 1:
        cx.seen(b"\n".join(raw) + repr((a, names, env)).encode())


def check_messages(what, got, bad, order):
    exp = [b for b in bad if b is not None]
    if len(got) != len(exp):
        raise Violation("%s: %d lines are reported, %d are malformed: %r" % (what, len(got), len(exp), got[:5]))
    if order:
        for i, (e, g) in enumerate(zip(exp, got)):
            ok = g == e if isinstance(e, bytes) else g.startswith(e[0]) and g.endswith(e[1])
            if not ok:
                raise Violation("%s: report %d is %r, expected %r" % (what, i + 1, g[:300], e))
        return
    plain = collections.Counter(e for e in exp if isinstance(e, bytes))
    num = {e[0]: e[1] for e in exp if not isinstance(e, bytes)}
    for g in got:
        if plain[g] > 0:
            plain[g] -= 1
            continue
        m = re.match(rb"malformed JSON at line \d+: ", g)
        tail = num.pop(m.group(0), None) if m else None
        if tail is None or not g.endswith(tail):
            raise Violation("%s: unexpected report %r" % (what, g[:300]))


def run_same(cx):
    """Diagnostics do not change outputs."""
    rng = cx.rng
    w = mix.workload(cx, rng.choice((3, 20, 60, 200)), exclude=("verbosity3", "verbose"))
    reps = w.reports
    which = outs.ALL if rng.random() < 0.5 else ("csv", "raw")
    args = list(w.args)
    if "-verbosity" in args:
        i = args.index("-verbosity")
        del args[i:i + 2]
    res = []
    many = rng.random() < 0.4 and not reps
    for k in range(4):
        d = "r%d" % k
        os.makedirs(cx.path(d))
        fn = outs.names(d + "/o")
        v = ["-verbosity", "0"]
        env = None
        prof = []
        if k:
            v = ["-verbosity", str(k)] if rng.random() < 0.8 else ["-verbosity", rng.choice(("7", "-1"))]
            if rng.random() < 0.8:
                v += ["-progress-interval", rng.choice(("1ms", "1ms", "20ms", "100us"))]
            if rng.random() < 0.4:
                prof.append("cpu.prof")
                v += ["-dbg-cpu-prof", "cpu.prof"]
            if rng.random() < 0.4:
                prof.append("mem.prof")
                v += ["-dbg-mem-prof", "mem.prof"]
            env = sched_env(rng, 0.5)
        c = 1
        r = cx.flat(v + args + reps + ["-concurrency", str(c)] + outs.args(fn, which) + w.inputs, env, timeout=120)
        for p in prof:
            try:
                ok = len(gzip.decompress(cx.read(p))) > 0
            except (OSError, EOFError):
                ok = False
            if not ok:
                raise Violation("profile %s is not readable" % p)
            cx.count("profiles")
        cx.rm(*prof)
        if k and v[:2] != ["-verbosity", "-1"] and b"bytes read" not in r.err:
            raise Violation("there is no status with %r\n%s" % (v, r.brief()))
        files = {}
        for f in sorted(os.listdir(cx.path(d))):
            p = d + "/" + f
            files[f] = parse.read_sqlite(cx.path(p)) if f.endswith(".sqlite") else cx.read(p)
            if f.endswith(".sql"):
                files[f] = re.sub(rb"(?m)^SELECT '\d+(/\d+)? lines completed[^'\n]*' AS status;$", b"SELECT '' AS status;", files[f])
        res.append((files, r.out))
        if k:
            e, g = res[0], res[k]
            if set(e[0]) != set(g[0]):
                raise Violation("files are %r with %r, expected %r" % (sorted(g[0]), v, sorted(e[0])))
            for f in e[0]:
                if e[0][f] != g[0][f]:
                    if isinstance(e[0][f], bytes):
                        c20.same_bytes("%s with %r" % (f, v), e[0][f], g[0][f])
                    raise Violation("%s differs with %r" % (f, v))
                cx.count("files_compared")
            c21.cmp_reports(None, reps, e[1], g[1], False, True) if reps else None
            if not reps and g[1] != e[1]:
                raise Violation("standard output differs with %r: %r" % (v, g[1][:300]))
            cx.seen(w.data + repr((args, v, env)).encode())
    cx.count("feature_mixes")


def run_version(cx):
    """Version is shown and nothing is processed."""
    rng = cx.rng
    cx.write("in.jsonl", b'{"a":1}\n')
    extra = rng.choice(([], ["in.jsonl"], ["-csv", "o.csv", "in.jsonl"], ["-show-keys-flat", "in.jsonl"], ["-input", "in.jsonl"],
                        ["nope.jsonl"], ["-sqlite", "o.sqlite", "in.jsonl"]))
    before = set(os.listdir(cx.dir))
    r = cx.flat(["-version"] + extra)
    if not r.out.strip() or len(r.out.strip().split(b"\n")) != 1:
        raise Violation("version is %r" % r.out[:300])
    if set(os.listdir(cx.dir)) != before:
        raise Violation("files are made: %r" % sorted(set(os.listdir(cx.dir)) - before))
    cx.count("versions")
    cx.seen(repr((extra, "version")))


STATUS = re.compile(r"^SELECT '(\d+)(?:/(\d+))? lines completed(?:, (\d+\.\d)%)?' AS status$")


def run_pg(cx):
    """Status statements of a PostgreSQL dump have exact numbers."""
    rng = cx.rng
    n = rng.choice((1, 2, 3, 7, 40, 300, 9999, 10000, 10001, 20000, 23456))
    scan = rng.random() < 0.7
    a = ["-concurrency", str(conc(rng)) if n < 1000 else rng.choice("148")]
    conf = {} if scan else {"includeKeys": [".i", ".s"]}
    if rng.random() < 0.3:
        conf["transpose"] = {".t": "t"}
    lines = []
    for i in range(n):
        k = rng.random()
        d = {"i": i, "s": "%d lines completed" % i if k < 0.1 else "s"}
        if "transpose" in conf:
            d["t"] = {"a": 1, "b": {"c": 2}}
        lines.append(rng.choice(NOJSON[:6]) if k > 0.97 and i else json.dumps(d))
    names = ["in.jsonl"]
    h = n if rng.random() < 0.6 else rng.randint(1, max(1, n - 1))
    cx.write(names[0], "\n".join(lines[:h]) + "\n")
    if h < n:
        names.append("in2.jsonl")
        cx.write(names[1], "\n".join(lines[h:]) + "\n")
    if conf:
        a += cfg(conf)
    env = sched_env(rng, 0.5 if n < 1000 else 0)
    cx.flat(["-verbosity", rng.choice("012"), "-pg-dump", "out.sql"] + a + names, env, timeout=120)
    pg = parse.read_pg(cx.read("out.sql"))
    rows = next(iter(pg.tables.values()))[2]
    if len(rows) != n:
        raise Violation("%d rows in the dump, expected %d" % (len(rows), n))
    if not pg.statuses or pg.status_rows[-1] != n:
        raise Violation("last status of the dump is not at its end: %r at %r" % (pg.statuses[-1:], pg.status_rows[-1:]))
    for st, k in zip(pg.statuses, pg.status_rows):
        m = STATUS.match(st)
        if not m:
            raise Violation("status of the dump is malformed: %r" % st)
        if int(m.group(1)) != k:
            raise Violation("status of the dump is %r after %d rows" % (st, k))
        if m.group(2) is not None and (int(m.group(2)) != n or abs(float(m.group(3) or -1) - 100 * k / n) > 0.051):
            raise Violation("status of the dump is %r after %d of %d rows" % (st, k, n))
    cx.count("dump_statuses", len(pg.statuses))
    cx.seen(("pg", n, h, repr(a), repr(env)))
