"""C14: success is reported only for complete output."""
import gzip
import os
import subprocess
import threading
import time

from fw import gen, outs, parse
from fw.core import Violation
from fw.util import cfg, sched_env

LEVEL = "fault_injection"
TECHNIQUE = "runtime monitoring with injected I/O faults (full device, file size limit at chosen offsets, bad paths, damaged inputs)"
RULE = ("A faultless run gives reference content of every output; the same run is repeated with one injected fault: an output "
        "that goes to a full device, a file size limit at offsets from 0 to the full size (dense at the tail and around "
        "buffer boundaries), a path that can not be created, an input that is missing, empty, a directory, a compressed input "
        "cut or damaged at any offset, a line around and above the buffer size, a pipe whose reader closes it after any number of "
        "bytes. Oracle: status zero implies that all outputs "
        "are equal to the reference; faults that certainly hit imply non-zero status and a message; no run hangs; a run whose "
        "fault can not hit succeeds. Non-trivial: the fault was hit (non-zero status); distinct by fault, its position and "
        "the workload.")
ASSUMPTIONS = ["faults are those of the kernel interface listed in the rule", "reports printed to stdout are not outputs",
               "held on the executions listed, not for all inputs and fault positions"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("full", 90), ("fulltr", 40), ("fsize", 200), ("fsizebig", 24), ("path", 50), ("input", 60), ("gztrunc", 110),
                    ("zsttrunc", 70), ("gzflip", 90), ("zstflip", 60), ("long", 140), ("sqlagain", 6), ("second", 40),
                    ("fsizesql", 40), ("parts", 6), ("pipe", 40), ("trpath", 24), ("transient", 16), ("sqlexists", 16)):
        for i in range(n * 2 if q else n * 20):
            res.append({"kind": kind, "n": i})
    return res


EXTS = ("", "", ".gz", ".zst")
# SQLite writes pages in place, it is left out where a fault is a certain failure.


def content(cx, fn, which, tr=()):
    """Readable content of outputs, raises Violation if an output is not complete."""
    res = {}
    for k in which:
        f = fn[k]
        if k == "sqlite":
            res[k] = {t: (v[0], v[2]) for t, v in outs.sqlite_tables(cx, f).items()}
            continue
        res[k] = parse.decompress(f, cx.read(f))
        if k == "pg":
            parse.read_pg(res[k])
    for f in tr:
        res[f] = parse.decompress(f, cx.read(f))
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 3, 20, 150, 800))
    if kind in ("fsizebig", "parts"):
        n = rng.choice((10001, 12000))
    if kind == "transient":
        n = rng.choice((20010, 31000))
    if kind == "pipe":
        n = rng.choice((1, 20, 500, 2000))
    a, conf = [], {}
    sch = gen.Schema(rng, width=6, depth=2, keymode="plain", valmode="plain", typemix=0.05)
    ds = []
    for i in range(n):
        d = {"id": "L%d" % i, "pad": "p" * rng.choice((0, 3, 50, 200))}
        if kind not in ("fsizebig", "parts", "transient"):
            d.update(sch.doc())
        if kind == "pipe":
            d["pad"] = "%x" % rng.getrandbits(4 * rng.choice((10, 300, 1000)))
        if kind in ("fulltr", "pipe", "trpath") or kind == "fsize" and case["n"] % 3 == 0:
            d["tags"] = [{"v": "t%d" % j} for j in range(rng.randint(1, 3))]
        ds.append(d)
    tr = []
    which = rng.choice((("csv",), ("raw",), ("pg",), ("csv", "raw"), ("csv", "pg"), ("csv", "raw", "pg")))
    if kind == "fsizesql":
        which = rng.choice((("sqlite",), ("csv", "sqlite")))
    if kind in ("sqlagain", "sqlexists"):
        which = ("sqlite",)
    if kind == "transient":
        which = rng.choice((("pg",), ("pg",), ("csv",), ("sqlite",), ("raw", "pg")))
    if kind == "trpath":
        which = rng.choice((("csv",), ("raw",), ("csv", "raw")))
    if kind in ("input", "gztrunc", "zsttrunc", "gzflip", "zstflip", "long", "second") and rng.random() < 0.25:
        which = which + ("sqlite",)
    ext = rng.choice(EXTS) if kind != "transient" else ""
    c = 1
    if kind != "parts" and rng.random() < 0.5:
        # Order of columns does not depend on schedule without a scan of keys.
        conf["includeKeys"] = [".id", ".pad"] + (["const:x"] if rng.random() < 0.3 else [])
        c = rng.choice((2, 4, 16))
        if rng.random() < 0.2:
            conf["includeKeys"] = [".id"]
    env = sched_env(rng, 0.5 if n < 200 else 0.0)
    if "tags" in ds[0]:
        conf["transpose"] = {".tags": "tags"}
        if "includeKeys" in conf:
            conf["includeKeys"] += [".tags.[0].v", ".tags.[1].v"]
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    fn = outs.names("out", ext)
    ref = outs.names("ref", ext)
    data = gen.lines(rng, ds, 0, 0)
    cx.write("in.jsonl", data)
    inp = ["in.jsonl"]
    buf = None
    if kind == "long":
        buf = rng.choice((4096, 5000, 70000, 65536, 65537))
        lines = data.split(b"\n")[:-1]
        lines = [l for l in lines if len(l) + 2 < buf][:200]
        m = rng.choice((buf - 3, buf - 2, buf - 1, buf, buf + 1, buf + 2, buf + 500, 2 * buf, 3 * buf + 7))
        pos = rng.choice((0, len(lines), len(lines) // 2, rng.randint(0, len(lines))))
        pre = b'{"id":"long","pad":"'
        lines.insert(pos, pre + b"z" * (m - len(pre) - 2) + b'"}')
        data = b"\n".join(lines) + (b"\n" if rng.random() < 0.6 else b"")
        cx.write("in.jsonl", data)

    def args(f):
        r = outs.args(f, which)
        return ["-verbosity", "0"] + r + a

    # Reference run without faults.
    cx.flat(args(ref) + inp, env)
    trf = []
    if "transpose" in conf:
        for k in which:
            if k in ("csv", "raw"):
                base = fn[k]
                d0, e0 = os.path.splitext(base)
                trf.append(d0 + "_tags" + e0)
    want = content(cx, ref, which, [f.replace("out", "ref", 1) for f in trf])
    want = {k.replace("ref", "out", 1) if k not in fn else k: v for k, v in want.items()}
    sizes = {k: os.path.getsize(cx.path(ref[k])) for k in which}
    for f in trf:
        sizes[f] = os.path.getsize(cx.path(f.replace("out", "ref", 1)))

    must_fail, must_pass = False, False
    fsize = transient = None
    run_args = None
    if kind == "full":
        ks = [k for k in which if k != "sqlite"]
        bad = rng.sample(ks, rng.randint(1, len(ks)))
        for k in bad:
            os.symlink("/dev/full", cx.path(fn[k]))
        must_fail = True
        what = "full %r" % bad
    elif kind == "fulltr":
        if not trf:
            return
        bad = rng.sample(trf, rng.randint(1, len(trf)))
        for f in bad:
            os.symlink("/dev/full", cx.path(f))
        must_fail = True
        what = "full %r" % bad
    elif kind == "trpath":
        # Transposed file can not be created.
        bad = rng.choice(trf)
        os.mkdir(cx.path(bad))
        must_fail = True
        if "includeKeys" in conf and rng.random() < 0.5:
            # No rows, file of transposed columns has a header.
            a += ["-offset-lines", str(n)]
        what = "directory %r" % bad
    elif kind == "sqlexists":
        # Database has a table or a view of the same name.
        import sqlite3
        db = sqlite3.connect(cx.path(fn["sqlite"]))
        db.execute(rng.choice(("create table flatjsonl (a)", "create view flatjsonl as select 1", "create table flatjsonl (_seq_id integer, id, pad)")))
        db.commit()
        db.close()
        must_fail = True
        if rng.random() < 0.5:
            a += ["-offset-lines", str(n)]
        what = "existing table"
    elif kind == "transient":
        # Limit is removed after it was hit, following writes succeed.
        s = max(sizes.values())
        fsize = rng.choice((0, 1, 5000, s // 10, s // 4, s // 2, rng.randint(0, s)))
        transient = ([cx.path(fn[k]) for k in which], rng.choice((0, 0.002, 0.01, 0.03)))
        what = "transient fsize %d of %r" % (fsize, sizes)
    elif kind in ("fsize", "fsizebig", "fsizesql"):
        top = max(sizes.values())
        k = rng.choice(list(sizes))
        s = sizes[k]
        fsize = rng.choice((0, 1, s - 1, s - 2, s // 2, max(0, s - 4096), 4096, 4095, 8192, rng.randint(0, s), rng.randint(0, s),
                            s, top, max(0, s - rng.randint(1, 100)), top - 1))
        fsize = max(0, fsize)
        must_fail = any(fsize < v for k, v in sizes.items() if k != "sqlite" and not fn.get(k, k).endswith((".gz", ".zst")))
        must_pass = fsize >= top + (1 << 16)
        what = "fsize %d of %r" % (fsize, sizes)
    elif kind == "parts":
        a += ["-sql-max-cols", "3"]
        which = ("pg",)
        cx.flat(args(ref) + inp, env)
        want = content(cx, ref, which)
        sizes = {"pg": os.path.getsize(cx.path(ref["pg"]))}
        fsize = rng.choice((sizes["pg"] - 1, sizes["pg"] // 2, 100))
        must_fail = ext == ""
        what = "parts fsize %d" % fsize
    elif kind == "path":
        k = rng.choice(which)
        how = rng.choice(("nodir", "dir", "notdir"))
        if how == "nodir":
            fn[k] = "nosuchdir/" + fn[k]
        elif how == "dir":
            os.mkdir(cx.path(fn[k]))
        else:
            fn[k] = "in.jsonl/" + fn[k]
        must_fail = True
        what = "path %s %s" % (how, k)
    elif kind in ("input", "second"):
        how = rng.choice(("missing", "empty", "dir", "gzempty", "zstempty", "notgz", "notzst"))
        bad = "bad.jsonl"
        if how == "empty":
            cx.write(bad, b"")
        elif how == "dir":
            os.mkdir(cx.path(bad))
        elif how in ("gzempty", "zstempty"):
            bad += ".gz" if how == "gzempty" else ".zst"
            cx.write(bad, b"")
        elif how in ("notgz", "notzst"):
            bad += ".gz" if how == "notgz" else ".zst"
            cx.write(bad, rng.choice((b"x", data, b"\x1f\x8b", b"\x28\xb5\x2f\xfd", b"\x1f\x8b\x08", b"{}\n")))
        inp = [bad] if kind == "input" else rng.choice((["in.jsonl", bad], [bad, "in.jsonl"], ["in.jsonl", bad, "in.jsonl"]))
        must_fail = True
        what = "input %s" % how
    elif kind in ("gztrunc", "gzflip"):
        if rng.random() < 0.3:
            h = len(data) // 2
            z1, z2 = gzip.compress(data[:h]), gzip.compress(data[h:])
            ends = {len(z1), len(z1) + len(z2)}
            z = z1 + z2
        else:
            z = gzip.compress(data, rng.choice((0, 1, 6, 9)))
            ends = {len(z)}
        what = damage(cx, rng, z, ends, kind, "in.jsonl.gz")
        must_fail = kind == "gztrunc"
        inp = ["in.jsonl.gz"]
    elif kind in ("zsttrunc", "zstflip"):
        z = subprocess.run(["zstd", "-q", "-c", "--check", "-%d" % rng.choice((1, 3, 9))], input=data, capture_output=True).stdout
        what = damage(cx, rng, z, {len(z)}, kind, "in.jsonl.zst")
        must_fail = kind == "zsttrunc"
        inp = ["in.jsonl.zst"]
    elif kind == "long":
        a += ["-buf-size", str(buf)]
        must_fail = m > buf
        must_pass = m + 2 <= buf
        what = "line of %d, buffer %d, position %d" % (m, buf, pos)
        if rng.random() < 0.2 and pos > 0:
            # Long line is behind the window.
            a += ["-max-lines", str(pos)]
            must_fail = must_pass = False
            outs_ref = args(ref)
            for k in which:
                cx.rm(ref[k])
            cx.flat([x for i, x in enumerate(outs_ref) if x != "-buf-size" and (i == 0 or outs_ref[i - 1] != "-buf-size")] + inp, env)
            want = content(cx, ref, which)
            what += " window %d" % pos
    elif kind == "pipe":
        ks = sorted(sizes)
        bad = rng.sample(ks, rng.randint(1, len(ks)))
        piped = {}
        for k in bad:
            s = sizes[k]
            piped[k] = rng.choice((0, 1, s // 2, s - 1, s, s + 1, rng.randint(0, s), rng.randint(0, s), 1 << 40, 1 << 40))
            os.mkfifo(cx.path(fn.get(k, k)))
        must_fail = any(sizes[k] > v + 200000 for k, v in piped.items())
        must_pass = all(v > 1 << 30 for v in piped.values())
        pipes = Pipes(cx, {cx.path(fn.get(k, k)): v for k, v in piped.items()})
        what = "pipes closed after %r of %r" % (piped, sizes)
    elif kind == "sqlagain":
        run_args = args(ref) + inp
        what = "existing SQLite table"
        fn = ref
    else:
        raise AssertionError(kind)

    show = []
    if kind in ("input", "second", "gztrunc", "zsttrunc") and rng.random() < 0.15 and "includeKeys" not in conf:
        # No outputs, a report only.
        show = ["-verbosity", "0", rng.choice(("-show-keys-flat", "-show-keys-info", "-show-json-schema", "-show-keys-hier"))] + a + inp
    if kind == "pipe":
        try:
            r = cx.exec(args(fn) + inp, env, timeout=60)
        finally:
            pipes.finish()
        if r.timeout:
            raise Violation("process hangs, %s\n%s" % (what, r.brief()), "hang")
        pipes.save()
    else:
        r = cx.exec(show or run_args or (args(fn) + inp), env, timeout=30, fsize=fsize, transient=transient)
    if r.timeout:
        for k in which:
            if os.path.isfile(cx.path(fn[k])) and not os.path.islink(cx.path(fn[k])):
                cx.rm(fn[k])
        r = cx.exec(show or run_args or (args(fn) + inp), env, timeout=60, fsize=fsize, transient=transient)
        if r.timeout:
            raise Violation("process hangs, %s\n%s" % (what, r.brief()), "hang")
    if r.rc == 0:
        if must_fail:
            raise Violation("status is zero in spite of the fault: %s\n%s" % (what, r.brief()))
        if kind == "pipe" and not must_pass:
            # Pipe buffer may take all that was not read.
            cx.count("pipe_not_hit")
            return
        try:
            got = content(cx, fn, which, trf)
        except Violation as v:
            raise Violation("status is zero, %s: %s\n%s" % (what, v, r.brief()))
        for k in want:
            if got.get(k) != want[k]:
                raise Violation("status is zero, output %s is not complete: %s; %d bytes, expected %d\n%s" % (
                    k, what, len(got.get(k) or ""), len(want[k]), r.brief()))
        cx.count("completed")
        return
    if must_pass:
        raise Violation("run failed, but the fault can not hit: %s\n%s" % (what, r.brief()))
    if not r.err.strip():
        raise Violation("run failed without a message: %s\n%s" % (what, r.brief()))
    cx.count("failed_as_required")
    cx.count("fault_" + kind)
    cx.seen((what, hash(data), repr(a), repr(env)))


def damage(cx, rng, z, ends, kind, name):
    if kind.endswith("trunc"):
        while True:
            pos = rng.choice((rng.randint(1, len(z) - 1), len(z) - rng.randint(1, 12), rng.randint(1, min(40, len(z) - 1))))
            pos = max(1, min(pos, len(z) - 1))
            if pos not in ends:
                break
        cx.write(name, z[:pos])
        return "truncated at %d of %d" % (pos, len(z))
    pos = rng.choice((rng.randint(0, len(z) - 1), len(z) - rng.randint(1, 8), rng.randint(0, min(20, len(z) - 1))))
    bit = 1 << rng.randint(0, 7)
    b = bytearray(z)
    b[pos] ^= bit
    cx.write(name, bytes(b))
    return "byte %d of %d flipped by %d" % (pos, len(z), bit)


class Pipes:
    """Readers of named pipes, each closes its pipe after a number of bytes."""

    def __init__(self, cx, limits):
        self.data, self.stop, self.ts = {}, False, []
        for f, lim in limits.items():
            fd = os.open(f, os.O_RDONLY | os.O_NONBLOCK)
            self.data[f] = bytearray()
            t = threading.Thread(target=self.read, args=(f, fd, lim), daemon=True)
            t.start()
            self.ts.append(t)

    def read(self, f, fd, lim):
        res, seen = self.data[f], False
        try:
            while len(res) < lim or not seen and not self.stop:
                try:
                    b = os.read(fd, max(1, min(lim - len(res), 65536)) if lim else 1)
                except BlockingIOError:
                    seen = True
                    if lim == 0:
                        break
                    time.sleep(0.001)
                    continue
                if b:
                    seen = True
                    res += b
                elif seen or self.stop:
                    break
                else:
                    time.sleep(0.001)
        finally:
            os.close(fd)

    def finish(self):
        self.stop = True
        for t in self.ts:
            t.join(20)

    def save(self):
        """Replaces pipes with files of what was read."""
        for f, b in self.data.items():
            os.unlink(f)
            with open(f, "wb") as w:
                w.write(b)
