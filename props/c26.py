"""C26: looped input is the same as a file with repeated content."""
from fw import gen, mix, outs, parse
from fw.core import Violation
from fw.util import get_csv, sched_env

LEVEL = "exploration"
RULE = ("Files of 1..300 lines (with and without the final line break, with blank and malformed lines, of one line, longer than the "
        "buffer in total) are looped with target sizes around multiples of the file size and buffers of 40 bytes to 10 MB. Oracle: "
        "differential run over a file that holds the repeated content; all rows are the same (the last one may be cut where the "
        "target size is reached inside of a line), their number is within the target size and one more pass, columns and other "
        "outputs agree. One and many workers, perturbed schedules, additional inputs after the looped one, row windows, selection "
        "(with and without key scan). Non-trivial: more than one pass; distinct by file, size and options.")
ASSUMPTIONS = ["looped file is not compressed", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("loop", 300), ("buf", 200), ("mix", 160), ("multi", 60), ("window", 60), ("outs", 60), ("big", 8), ("keys", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    args = []
    if kind == "mix":
        w = mix.workload(cx, rng.choice((3, 20, 60)), exclude=("multi", "gzin", "reports", "verbosity3", "verbose", "window", "snake",
                                                               "keylimit", "replacere", "transpose", "concat"))
        data, args = w.data, list(w.args)
        cx.rm(*w.inputs)
    else:
        n = rng.choice((1, 1, 2, 3, 10, 50, 300))
        if kind == "big":
            n = 4000
        sch = gen.Schema(rng, width=4, depth=2, keymode="plain", valmode="plain" if kind == "buf" else "mixed")
        lns = []
        for i in range(n):
            if rng.random() < 0.04:
                lns.append(rng.choice((b"", b"x", b"{", b"[]")))
                continue
            d = sch.doc()
            d["i"] = i
            lns.append(gen.to_json(d, rng, 0, 0.02).encode("utf-8", "surrogateescape"))
        data = b"\n".join(lns) + (b"\n" if rng.random() < 0.8 else b"")
        args += ["-verbosity", "0", "-children-limit", "0"]
        if "getkey" != kind and rng.random() < 0.3:
            args.append("-add-sequence")
        if rng.random() < 0.15:
            args += ["-get-key", ".i"]
        if kind == "window":
            args += ["-offset-lines", str(rng.choice((1, n, n + 1, n // 2))), "-max-lines", str(rng.choice((1, n, n + 2, 2 * n)))]
    if not data.strip():
        return
    if kind == "buf" and b"\n" not in data:
        data += b"\n"
    c = 1 if rng.random() < 0.5 else rng.choice((2, 4, 16, 64))
    env = sched_env(rng, 0.3 if kind != "big" else 0)
    args += ["-concurrency", str(c)]
    if kind == "buf":
        longest = max(len(x) for x in (data + data).split(b"\n"))
        args += ["-buf-size", str(rng.choice((longest + 2, longest + 3, longest * 2 + 1, len(data), len(data) + 1, 2 * len(data) - 1,
                                               max(longest + 2, 4096), longest + rng.randint(2, 500))) + 0)]
        if int(args[-1]) < longest + 2:
            args[-1] = str(longest + 2)
    size = len(data)
    k = rng.choice((1, 2, 2, 3, 5, 10, 40)) if kind != "big" else rng.choice((3, 12))
    most = 3 << 20 if kind == "big" else 200000
    if size * k > most:
        k = max(2, most // size)
    target = max(1, rng.choice((size * k, size * k + 1, size * k - 1, size * (k - 1) + rng.randint(1, size), size * k - size // 2, 1)))
    if kind != "loop":
        target = max(target, size)
    if kind == "window":
        # The window is inside of the input.
        if b"\n" not in data:
            data += b"\n"
            size += 1
        off, mx = int(args[args.index("-offset-lines") + 1]), int(args[args.index("-max-lines") + 1])
        target = max(target, size * ((off + mx) // data.count(b"\n") + 2))
    extra = []
    if kind == "multi":
        extra = [cx.write("more.jsonl", gen.lines(rng, [{"i": "m%d" % j, "more": j} for j in range(3)]))]
    cx.write("in.jsonl", data)
    reps = (target + size - 1) // size + 1
    cx.write("rep.jsonl", data * reps)
    fn = outs.names()
    which = outs.ALL if kind in ("outs", "big") else ("csv",)
    if size * reps > 20000:
        env.pop("FLATJSONL_VERIF_SCHED", None)
    rows = []
    for inp, a in (("rep.jsonl", []), ("in.jsonl", ["-dbg-loop-input-size", str(target)])):
        outs.run(cx, fn, which, a + args + [inp] + extra, env, inp=None)
        b = cx.read(fn["csv"])
        rows.append(get_csv(cx, fn["csv"]) if b.strip(b"\n") else None)
        if kind == "keys":
            r = cx.flat(a + args + ["-show-keys-flat", inp] + extra, env)
            rows[-1] = (rows[-1], sorted(r.out.split(b"\n")))
    if kind == "keys":
        if rows[0][1] != rows[1][1]:
            raise Violation("list of keys is %r, for repeated file %r" % (rows[1][1][:20], rows[0][1][:20]))
        rows = [x[0] for x in rows]
    exp, got = rows
    if (exp is None) != (got is None):
        raise Violation("table is present only for looped or repeated input")
    if exp is None:
        return
    if sorted(exp.cols) != sorted(got.cols) or (c == 1 and exp.cols != got.cols):
        if sorted(x.lower() for x in exp.cols) != sorted(x.lower() for x in got.cols) or c == 1 or "-case-sensitive-keys" in args:
            raise Violation("columns are %r, for repeated file %r" % (got.cols[:20], exp.cols[:20]))
    if "sqlite" in which:
        outs.check_all(cx, fn, got, which)
    pos = {x.lower(): j for j, x in enumerate(got.cols)} if "-case-sensitive-keys" not in args else {x: j for j, x in enumerate(got.cols)}
    ix = [pos[x.lower() if "-case-sensitive-keys" not in args else x] for x in exp.cols]
    g = [[r[j] for j in ix] for r in got.rows]
    e = [list(r) for r in exp.rows]
    me = []
    if extra:
        me, e = e[-3:], e[:-3]
        if g[-3:] != renum(me, exp.cols, len(g) - 3) and g[-3:] != me:
            raise Violation("rows of the next input are %r, expected %r" % (g[-3:], me))
        g = g[:-3]
    if len(exp.cols) == 1 or kind == "window":
        # Empty rows of a single column and cut windows do not tell the number of lines.
        if g != e[:len(g)] and g[:-1] != e[:len(g) - 1]:
            raise Violation("rows differ from those of repeated file: %r, %r" % (g[:5], e[:5]))
        if kind == "window" and len(exp.cols) > 1 and len(g) != mx:
            raise Violation("%d rows in the window of %d lines" % (len(g), mx))
        cx.count("rows", len(g))
        if reps > 2:
            cx.seen(data + repr((args, target, env)).encode())
        return
    lo, hi = count(data, reps, target), count(data, reps, target + size - 1) + 1
    if not lo <= len(g) <= hi:
        raise Violation("%d rows for target size %d of a file of %d bytes and %d lines, expected %d to %d" % (
            len(g), target, size, data.count(b"\n"), lo, hi))
    if g[:-1] != e[:len(g) - 1]:
        i = next(i for i in range(len(g)) if g[i] != e[i])
        raise Violation("row %d of looped input is %r, for repeated file %r" % (i + 1, g[i], e[i]))
    if g and len(g) <= len(e) and g[-1] != e[len(g) - 1]:
        # Target size is reached inside of the last line.
        cx.count("last_row_cut")
    cx.count("rows", len(g))
    cx.count("passes", len(g) // max(1, data.count(b"\n")))
    if reps > 2:
        cx.seen(data + repr((args, target, env)).encode())


def renum(rows, cols, off):
    """Rows with sequence numbers that follow the looped input."""
    if "._sequence" not in cols:
        return rows
    j = cols.index("._sequence")
    return [[str(off + i + 1) if x == j else v for x, v in enumerate(r)] for i, r in enumerate(rows)]


def count(data, reps, size):
    """Number of lines that are complete in the first bytes of the repeated data."""
    return (data * (reps + 1))[:size].count(b"\n")
