"""C20: result does not depend on how bytes are packaged."""
import gzip
import json
import os
import re
import subprocess
import zlib

from fw import gen, mix, outs, parse
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential monitor, outputs of every packaging of the same lines are compared with the plain ones"
RULE = ("The same lines are read plain and as gzip (levels, several members, empty members, stored blocks, header fields), zstd "
        "(levels, frames, skippable frames, unknown content size), with LF, CRLF or mixed ends of lines, with and without the "
        "last one, split over files in arbitrary mix of compressions (hundreds of them with a low limit of open files), given as arguments, -input or both; lines have sizes around "
        "4 KB to 10 MB buffers and -buf-size. Outputs are requested plain, gzip and zstd, with -output lists, letter case of "
        "extensions, over existing larger files, in directories. Monitors: every output, decompressed by independent tools, is "
        "equal byte by byte (one worker or fixed columns) or as a table to that of the plain run; the set of created files is "
        "exactly the requested one. Non-trivial: at least two rows; distinct by lines, packaging and options.")
ASSUMPTIONS = ["compression is recognised by file extension", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("huge", 6), ("input", 260), ("sizes", 90), ("bufsize", 80), ("output", 200), ("bigout", 12), ("flags", 140),
                    ("mix", 90), ("over", 40), ("files", 6)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


# --- packaging -----------------------------------------------------------------------------

def chunks(rng, b, k):
    pos = sorted(rng.randint(0, len(b)) for _ in range(k - 1))
    return [b[x:y] for x, y in zip([0] + pos, pos + [len(b)])]


def gz_member(rng, b):
    lvl = rng.choice((0, 1, 6, 9))
    r = rng.random()
    if r < 0.5:
        return gzip.compress(b, lvl, mtime=rng.choice((0, 1700000000)))
    # Header with optional fields.
    flg = 0
    extra = b""
    if rng.random() < 0.5:
        flg |= 4
        x = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
        extra += len(x).to_bytes(2, "little") + x
    if rng.random() < 0.6:
        flg |= 8
        extra += b"some name.jsonl\0"
    if rng.random() < 0.4:
        flg |= 16
        extra += b"comment\0"
    hdr = b"\x1f\x8b\x08" + bytes([flg]) + b"\0\0\0\0" + b"\0\xff" + extra
    c = zlib.compressobj(lvl, zlib.DEFLATED, -15)
    body = b""
    for p in chunks(rng, b, rng.randint(1, 4)):
        body += c.compress(p)
        if rng.random() < 0.4:
            body += c.flush(rng.choice((zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH)))
    body += c.flush()
    return hdr + body + zlib.crc32(b).to_bytes(4, "little") + (len(b) & 0xffffffff).to_bytes(4, "little")


def gz(rng, b):
    k = rng.choice((1, 1, 2, 3, 8))
    ps = chunks(rng, b, k)
    if rng.random() < 0.3:
        ps.insert(rng.randint(0, len(ps)), b"")
    return b"".join(gz_member(rng, p) for p in ps)


def zst_frame(rng, b):
    a = ["zstd", "-q", "-c", "-%d" % rng.choice((1, 3, 9, 19 if len(b) < 200000 else 3))]
    if rng.random() < 0.3:
        a.append("--no-check")
    if rng.random() < 0.3 and len(b) < 3000000:
        a.append("--long=20")
    return subprocess.run(a, input=b, capture_output=True, check=True).stdout


def zst(rng, b):
    ps = chunks(rng, b, rng.choice((1, 1, 2, 3, 5)))
    res = b""
    for p in ps:
        if rng.random() < 0.15:
            n = rng.randint(0, 50)
            res += (0x184D2A50 + rng.randint(0, 15)).to_bytes(4, "little") + n.to_bytes(4, "little") + b"s" * n
        res += zst_frame(rng, p)
    return res


def store(cx, name, b, how):
    """Writes bytes as plain, gz or zst, returns file name."""
    rng = cx.rng
    if how == "gz":
        name += rng.choice((".gz", ".gz", ".gz", ".GZ", ".Gz", ".gZ"))
        b = gz(rng, b)
    elif how == "zst":
        name += rng.choice((".zst", ".zst", ".zst", ".ZST", ".Zst", ".zSt"))
        b = zst(rng, b)
    d = os.path.dirname(cx.path(name))
    os.makedirs(d, exist_ok=True)
    return cx.write(name, b)


def package(cx, lns, allow_split=True, eol=None, split_ok=lambda k: True):
    """Writes lines to files, returns list of names and description."""
    rng = cx.rng
    files = [lns]
    if allow_split and len(lns) > 1 and rng.random() < 0.55:
        k = sorted({rng.randint(1, len(lns) - 1) for _ in range(rng.choice((1, 1, 2, 4)))})
        files = [lns[x:y] for x, y in zip([0] + k, k + [len(lns)])]
    names, desc = [], []
    for i, f in enumerate(files):
        e = eol or rng.choice(("lf", "lf", "crlf", "mixed"))
        if e == "mixed":
            b = b"".join(l + rng.choice((b"\n", b"\r\n")) for l in f)
        else:
            b = b"".join(l + (b"\n" if e == "lf" else b"\r\n") for l in f)
        final = True
        if rng.random() < 0.4 and f[-1]:
            final = False
            b = b[:-2] if b.endswith(b"\r\n") else b[:-1]
        how = rng.choice(("plain", "gz", "gz", "zst", "zst"))
        n = rng.choice(("p%d.jsonl", "p%d", "d%d/in.json", "p %d.log", "p%d.gz.txt")) % i
        names.append(store(cx, n, b, how))
        desc.append((how, e, final, len(f)))
    return names, desc


def input_args(rng, names):
    """Input files as arguments, a flag, or both. Arguments go first."""
    r = rng.random()
    if any("," in n for n in names) or r < 0.5:
        return [], names
    k = 0 if r < 0.8 else rng.randint(0, len(names) - 1)
    return ["-input", ",".join(names[k:])], names[:k]


def listing(cx):
    res = set()
    for d, _, fs in os.walk(cx.dir):
        for f in fs:
            res.add(os.path.relpath(os.path.join(d, f), cx.dir))
    return res


def plain(fn, b):
    return parse.decompress(fn.lower(), b)


def same_bytes(what, exp, got):
    if exp != got:
        n = next((i for i, (x, y) in enumerate(zip(exp, got)) if x != y), min(len(exp), len(got)))
        raise Violation("%s differs at byte %d of %d (expected size %d): expected %r, got %r" % (
            what, n, len(got), len(exp), exp[max(0, n - 40):n + 60], got[max(0, n - 40):n + 60]))


def same_table(what, e, g):
    """Tables differ at most in order of columns."""
    if sorted(e.cols) != sorted(g.cols):
        raise Violation("%s has columns %r, expected %r" % (what, sorted(set(g.cols) - set(e.cols))[:5], sorted(set(e.cols) - set(g.cols))[:5]))
    if len(e.rows) != len(g.rows):
        raise Violation("%s has %d rows, expected %d" % (what, len(g.rows), len(e.rows)))
    pos = {c: i for i, c in enumerate(g.cols)}
    perm = [pos[c] for c in e.cols]
    for i, (x, y) in enumerate(zip(e.rows, g.rows)):
        y = [y[p] for p in perm]
        if x != y:
            j = next(j for j in range(len(x)) if x[j] != y[j])
            raise Violation("%s row %d column %r: expected %r, got %r" % (what, i + 1, e.cols[j], x[j][:200], y[j][:200]))


def simple_lines(rng, n, sizes=None):
    """Lines with text of given sizes."""
    res = []
    for i in range(n):
        d = {"i": i, "v": rng.choice(("x", 1, True, None)), "s": ""}
        base = len(json.dumps(d))
        if sizes:
            d["s"] = chr(97 + i % 26) * max(0, rng.choice(sizes) + rng.randint(-3, 3) - base)
        else:
            d["s"] = gen.rstr(rng, "plain")
        res.append(json.dumps(d).encode())
    return res


def noisy(rng, lns):
    """Adds lines that are not JSON."""
    res = list(lns)
    for _ in range(rng.choice((0, 0, 1, 4))):
        res.insert(rng.randint(0, len(res)), rng.choice((b"", b"noise", b"{", b" ", b"{\"i\"", b"2024 x {\"i\":7}", b"[]", b"x" * 5000)))
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind == "mix":
        return run_mix(cx)
    if kind == "flags":
        return run_flags(cx)
    if kind in ("output", "bigout"):
        return run_output(cx, kind)
    if kind == "over":
        return run_over(cx)
    if kind == "files":
        return run_files(cx)
    a, conf = [], {}
    fixed = None
    if kind == "huge":
        lns = simple_lines(rng, rng.choice((30, 60)), (1000, 65536, 1 << 20))
        lns += simple_lines(rng, 3000, (100, 4096))
        rng.shuffle(lns)
        if rng.random() < 0.5:
            lns.insert(rng.randint(0, len(lns)), simple_lines(rng, 1, (9990000,))[0])
    elif kind == "sizes":
        lns = simple_lines(rng, rng.choice((2, 10, 60)), (rng.choice((10, 4096, 8192, 32768, 65536, 131072, 1 << 20)),
                                                          rng.choice((5, 60, 4096, 65536))))
    elif kind == "bufsize":
        m = rng.choice((64, 100, 1000, 4096, 65536, 70000))
        lns = simple_lines(rng, rng.choice((2, 10, 200)), (m, m, m // 2, 50))
        a += ["-buf-size", str(max(map(len, lns)) + rng.choice((2, 2, 3, 10)))]
    else:
        ds = gen.docs(rng, rng.choice((1, 2, 5, 30, 120, 300)), keymode="plain", depth=2)
        lns = [gen.to_json(d, rng, 0.1, 0.1).encode("utf-8", "surrogateescape") for d in ds]
    if kind == "input":
        lns = noisy(rng, lns)
    if not any(lns):
        lns.append(b'{"i":1}')
    if not lns[-1]:
        # A blank line at the end is not the same as absent end of line.
        lns.append(b'{"i":2}')
    cr = any(b"\r" in l for l in lns)
    c = 1 if rng.random() < 0.5 else conc(rng)
    if kind in ("sizes", "bufsize", "huge"):
        conf["includeKeys"] = [".i", ".s", ".v"]
        fixed = True
    if rng.random() < 0.2:
        a.append("-add-sequence")
        if fixed:
            conf["includeKeys"].append("._sequence")
    if kind == "input" and rng.random() < 0.2:
        a += ["-match-line-prefix", r"(\w+) "]
    if rng.random() < 0.1:
        a += ["-mem-limit", "0"]
    if conf:
        a += cfg(conf)
    cx.write("base.jsonl", b"".join(l + b"\n" for l in lns))
    r = cx.flat(["-verbosity", "0", "-concurrency", "1", "-csv", "base.csv"] + a + ["base.jsonl"], timeout=120)
    base = cx.read("base.csv")
    for k in range(2 if kind == "huge" else 4):
        names, desc = package(cx, lns, eol="lf" if cr else None)
        fl, pos = input_args(rng, names)
        cx.rm("out.csv")
        before = listing(cx)
        env = sched_env(rng, 0.3)
        cx.flat(["-verbosity", "0", "-concurrency", str(c), "-csv", "out.csv"] + a + fl + pos, env, timeout=120)
        what = "result of %r" % (list(zip(names, desc)),)
        got = cx.read("out.csv")
        if c == 1 or fixed:
            same_bytes(what, base, got)
        else:
            same_table(what, parse.read_csv(base), parse.read_csv(got))
        new = listing(cx) - before
        if new != {"out.csv"}:
            raise Violation("unexpected files: %r" % sorted(new))
        cx.count("packagings")
        cx.count("input_files", len(names))
        cx.count("rows", len(lns))
        for h, e, f, _ in desc:
            cx.count("%s_%s_%s" % (h, e, "final" if f else "nofinal"))
        if len(lns) > 1:
            cx.seen(repr((names, desc, a, c)).encode() + base)
        cx.rm(*names)


def run_mix(cx):
    """Packaging of inputs with random features."""
    rng = cx.rng
    w = mix.workload(cx, exclude=("multi", "gzin", "window", "reports", "memlimit", "verbosity3"))
    lns = w.data.split(b"\n")[:-1]
    lns = [l for l in lns if l and b"\r" not in l] or [b'{"id":"x"}']
    cx.write("base.jsonl", b"\n".join(lns) + b"\n")
    which = outs.ALL if rng.random() < 0.5 else ("csv",)
    res = []
    for k in range(3):
        fn = outs.names("o%d" % k)
        inp = ["base.jsonl"]
        a = w.args
        if k:
            inp, desc = package(cx, lns)
            fl, inp = input_args(rng, inp)
            a = a + fl
        before = listing(cx)
        cx.flat(a + ["-concurrency", "1"] + outs.args(fn, which) + inp)
        files = {}
        for f in listing(cx) - before:
            b = cx.read(f)
            key = re.sub(r"^o\d", "o", f)
            if f.endswith(".sqlite"):
                b = parse.read_sqlite(cx.path(f))
            files[key] = b
        res.append(files)
        if k:
            if set(files) != set(res[0]):
                raise Violation("files differ: %r, expected %r" % (sorted(files), sorted(res[0])))
            for f in files:
                what = "%s of %r" % (f, desc)
                if isinstance(files[f], bytes):
                    if f.endswith(".sql"):
                        files[f] = b"\n".join(l for l in files[f].split(b"\n") if not l.startswith(b"SELECT '"))
                        if k == 1:
                            res[0][f] = b"\n".join(l for l in res[0][f].split(b"\n") if not l.startswith(b"SELECT '"))
                    same_bytes(what, res[0][f], files[f])
                elif files[f] != res[0][f]:
                    raise Violation("%s differs" % what)
                cx.count("files_compared")
            cx.seen(repr((w.args, desc)).encode() + w.data)
    cx.count("feature_mixes")


def run_output(cx, kind):
    """Compression of outputs."""
    rng = cx.rng
    big = kind == "bigout"
    if big:
        n = rng.choice((9000, 21000, 40000))
        lns = [json.dumps({"i": i, "r": "%x" % rng.getrandbits(400), "t": [i] if i % 3 == 0 else []}).encode() for i in range(n)]
    else:
        n = rng.choice((1, 2, 30, 200, 1200))
        ds = gen.docs(rng, n, keymode="plain", depth=2, typemix=0)
        for d in ds:
            d["t"] = ["x"] * rng.randint(0, 2)
        ds[rng.randrange(n)]["t"] = ["y"]
        lns = [gen.to_json(d).encode("utf-8", "surrogateescape") for d in ds]
    cx.write("in.jsonl", b"\n".join(lns) + b"\n")
    a = ["-concurrency", "1" if not big else str(conc(rng))]
    conf = {}
    tr = rng.random() < 0.5
    if tr:
        conf["transpose"] = {".t": "tt"}
    if big:
        conf["includeKeys"] = [".i", ".r"] + ([".t.[0]"] if tr else [])
    if rng.random() < 0.3:
        a += ["-sql-max-cols", "4"]
    if conf:
        a += cfg(conf)
    kinds = [k for k in ("csv", "raw", "pg") if rng.random() < 0.75] or ["csv"]
    ref = None
    for k, ext in enumerate(("", ".gz", ".zst", rng.choice((".GZ", ".ZST", ".Gz", ".zSt")))):
        fl = {"csv": "-csv", "raw": "-raw", "pg": "-pg-dump"}
        nm = {"csv": "o%d.csv" % k, "raw": "o%d.raw" % k, "pg": "o%d.sql" % k}
        ar, exp = [], {}
        outlist = []
        if rng.random() < 0.4:
            # Names which look like extensions.
            pool = ["csv%d", "vs%d.csv", "z%d.gz", "%dgz", "g%dz", "%ds", "c%dvcs", "raw%dw", "a%d.sql.l", "%d", "%d.", "n%d.tar", "t%d.sqlite", "x %d.y z"]
            nm = {t: x % k + "." + {"pg": "sql"}.get(t, t) for t, x in zip(nm, rng.sample(pool, 3))}
        for t in kinds:
            e = ext if t == kinds[0] or rng.random() < 0.7 else rng.choice(("", ".gz", ".zst"))
            f = nm[t] + e
            if rng.random() < 0.2:
                os.makedirs(cx.path("dir"), exist_ok=True)
                f = "dir/" + f
            if t != "pg" and rng.random() < 0.4:
                outlist.append(f)
            else:
                ar += [fl[t], f]
            exp[t] = f
            if tr and t != "pg":
                s, x = os.path.splitext(f)
                exp[t + "_tt"] = s + "_tt" + x
        if outlist:
            ar += ["-output", ",".join(outlist)]
        # Existing files are replaced.
        if rng.random() < 0.4:
            for f in exp.values():
                cx.write(f, b"old content, " * rng.choice((1, 100, 300000 if big else 10000)))
        if "raw" in kinds:
            ar += ["-raw-delim", "|"]
        before = listing(cx)
        cx.flat(["-verbosity", "0"] + ar + a + ["in.jsonl"], sched_env(rng, 0 if big else 0.3), timeout=120)
        new = listing(cx) - before
        if new - set(exp.values()):
            raise Violation("unexpected files: %r, requested %r" % (sorted(new), sorted(exp.values())))
        got = {t: plain(f, cx.read(f)) for t, f in exp.items()}
        for t in got:
            if t == "pg":
                got[t] = b"\n".join(l for l in got[t].split(b"\n") if not l.startswith(b"SELECT '"))
        if ref is None:
            ref = got
            cx.count("output_bytes", sum(map(len, got.values())))
        for t in got:
            same_bytes("output %s" % exp[t], ref[t], got[t])
            cx.count("outputs_compared")
        cx.seen(repr((exp, a, ar)).encode() + lns[0])


def run_flags(cx):
    """Names of outputs and inputs in flags."""
    rng = cx.rng
    n = rng.randint(1, 30)
    lns = simple_lines(rng, n)
    k = rng.randint(1, 3)
    parts = [p for p in (lns[i * n // k:(i + 1) * n // k] for i in range(k)) if p]
    names = []
    for i, p in enumerate(parts):
        nm = rng.choice(("a%d.jsonl", "b%d", "x y%d.json", "c%d.csv.json", "sub/d%d.jsonl")) % i
        names.append(store(cx, nm, b"\n".join(p) + b"\n", rng.choice(("plain", "plain", "gz", "zst"))))
    cx.write("base.jsonl", b"\n".join(lns) + b"\n")
    cx.flat(["-verbosity", "0", "-concurrency", "1", "-csv", "base.csv", "-raw", "base.raw", "-raw-delim", "|", "base.jsonl"])
    ref = {"csv": cx.read("base.csv"), "raw": cx.read("base.raw")}
    fl, pos = input_args(rng, names)
    r = rng.random()
    ar, exp = [], {}
    reps = []
    if r < 0.3:
        exp["csv"] = names[0] + ".csv"              # Default name.
    elif r < 0.45:
        reps = [rng.choice(mix.REPORTS)]            # Reports do not make the default output.
    else:
        c = ["csv", "raw", "sqlite"]
        rng.shuffle(c)
        c = c[:rng.randint(1, 3)]
        ol = []
        for t in c:
            f = rng.choice(("o.", "O", "dd/")) + "f." + t + (rng.choice(("", ".gz", ".zst")) if t != "sqlite" else "")
            if rng.random() < 0.25:
                f = rng.choice((str.upper, str.title, lambda s: "".join(rng.choice((ch.lower(), ch.upper())) for ch in s)))(f)
                if f[:3].lower() == "dd/":
                    f = "dd/" + f[3:]
            os.makedirs(cx.path("dd"), exist_ok=True)
            exp[t] = f
            if rng.random() < 0.6:
                ol.append(f)
            else:
                ar += ["-" + t, f]
        if ol:
            # A kind that is given with its own flag is not replaced.
            for t in c:
                if "-" + t in ar and rng.random() < 0.4:
                    ol.append("other." + t)
            ar += ["-output", ",".join(ol)]
        if rng.random() < 0.2:
            reps = [rng.choice(mix.REPORTS)]
    before = listing(cx)
    cx.flat(["-verbosity", "0", "-concurrency", "1", "-raw-delim", "|"] + ar + reps + fl + pos)
    new = listing(cx) - before
    if new != set(exp.values()):
        raise Violation("created files are %r, requested %r" % (sorted(new), sorted(exp.values())))
    for t, f in exp.items():
        if t == "sqlite":
            tab = parse.read_csv(ref["csv"])
            outs.check_sqlite(cx, parse.read_sqlite(cx.path(f)), "flatjsonl", tab, 500)
        else:
            same_bytes(f, ref[t], plain(f, cx.read(f)))
        cx.count("outputs_compared")
    cx.count("flag_forms")
    cx.seen(repr((names, fl, pos, ar, reps, n)))


def run_over(cx):
    """Lines of the size of the buffer: all of them are read, or the run fails."""
    rng = cx.rng
    m = rng.choice((16, 100, 4096, 65536))
    lns = simple_lines(rng, rng.choice((2, 20)), (m,))
    lns[rng.randrange(len(lns))] = json.dumps({"i": 1, "s": "z" * (m + rng.randint(-20, 40))}).encode()
    how = rng.choice(("plain", "gz", "zst"))
    f = store(cx, "in.jsonl", b"\n".join(lns) + rng.choice((b"", b"\n")), how)
    cx.write("base.jsonl", b"\n".join(lns) + b"\n")
    a = ["-verbosity", "0", "-concurrency", "1"]
    cx.flat(a + ["-csv", "base.csv", "base.jsonl"])
    size = max(map(len, lns)) + rng.randint(-20, 20)
    r = cx.flat(a + ["-buf-size", str(max(1, size)), "-csv", "out.csv", f], ok=False)
    if r.rc == 0:
        same_bytes("output with small buffer", cx.read("base.csv"), cx.read("out.csv"))
        cx.count("fits")
    else:
        if size >= max(map(len, lns)) + 2:
            raise Violation("lines fit into the buffer of %d bytes, run failed\n%s" % (size, r.brief()))
        cx.count("does_not_fit")
    cx.seen(repr((m, size, how)).encode() + lns[0])


def run_files(cx):
    """Lines in more files than a process can keep open."""
    rng = cx.rng
    n = rng.choice((80, 150, 300))
    lns = simple_lines(rng, n * rng.choice((1, 2)))
    parts = chunks_of(rng, lns, n)
    hows = rng.choice((("plain",), ("gz",), ("zst",), ("plain", "gz", "zst")))
    names = []
    os.makedirs(cx.path("f"))
    for i, p in enumerate(parts):
        b = b"".join(x + b"\n" for x in p)
        how = rng.choice(hows)
        if how == "gz":
            b = gzip.compress(b, mtime=0)
        elif how == "zst":
            # Raw block in a frame without content size.
            b = b"\x28\xb5\x2f\xfd\x00\x58" + (len(b) << 3 | 1).to_bytes(3, "little") + b
        names.append(cx.write("f/%d.jsonl%s" % (i, {"plain": "", "gz": ".gz", "zst": ".zst"}[how]), b))
    cx.write("base.jsonl", b"".join(x + b"\n" for x in lns))
    a = ["-verbosity", "0", "-concurrency", "1"]
    cx.flat(a + ["-csv", "base.csv", "-sqlite", "base.sqlite", "base.jsonl"])
    lim = rng.choice((32, 40, 64))
    env = {"GOGC": rng.choice(("off", "off", "100", "1000"))}
    fl, pos = input_args(rng, names)
    r = cx.exec(a + fl + ["-csv", "out.csv", "-sqlite", "out.sqlite"] + pos, env, nofile=lim)
    if r.timeout or r.rc != 0:
        raise Violation("reading %d files with limit of %d open files failed, it does not fail with one file\n%s" % (n, lim, r.brief()))
    same_bytes("output with lines in %d files" % n, cx.read("base.csv"), cx.read("out.csv"))
    cx.count("many_files")
    cx.count("files_read", n)
    cx.seen(repr((n, lim, hows, env)).encode() + lns[0])


def chunks_of(rng, lns, k):
    pos = sorted(rng.sample(range(1, len(lns)), k - 1))
    return [lns[x:y] for x, y in zip([0] + pos, pos + [len(lns)])]
