"""C02: each cell is exactly the value of its own line and key."""
from fw import gen, model
from fw.core import Violation
from fw.gen import Num
from fw.util import check_csv, conc, sched_env

LEVEL = "exploration"
RULE = ("Random JSONL workloads with known content (own serializer, random escapes, whitespace, number literals), run "
        "through the CLI; the whole CSV is compared cell by cell with an independent flattening model. A case is "
        "non-trivial if it has more than one line and at least one column; distinct by input bytes, options, schedule.")
ASSUMPTIONS = ["Python csv module reads RFC 4180 correctly", "keys have no dots unless kind is dotted",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("ident", 10), ("reuse", 8), ("longrun", 4), ("buffer", 14), ("bigline", 6), ("wide", 10), ("deep", 24), ("shrink", 40),
                    ("mixed", 420), ("dotted", 40), ("rawbytes", 24), ("arrays", 40), ("near", 40), ("scale", 16)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind == "reuse":
        return run_reuse(cx)
    args, env = [], sched_env(rng)
    c = conc(rng)
    ws = esc = None

    if kind == "mixed":
        ds = gen.docs(rng, rng.choice((1, 2, 5, 30, 120, 250)), width=rng.choice((2, 6, 14)), depth=rng.choice((1, 2, 3, 5)),
                      typemix=rng.choice((0, 0.1, 0.5)), unique=rng.choice((0, 0.1, 0.5)))
    elif kind == "ident":
        # Every value names its line and key, so that any exchange of values is visible.
        c = rng.choice((2, 8, 16, 64))
        n = rng.choice((1500, 3000))
        ds = []
        for i in range(n):
            d = {}
            for k in range(rng.randint(1, 12)):
                d["k%d" % k] = rng.choice(("L%dK%d", "L%dK%d" + "x" * rng.randint(0, 300))) % (i, k)
            if rng.random() < 0.3:
                d["o"] = {"n": Num("%d.%d" % (i, 1)), "b": i % 2 == 0, "a": ["L%dA%d" % (i, j) for j in range(i % 4)]}
            ds.append(d)
        env = sched_env(rng, 0.8)
        if "FLATJSONL_VERIF_SCHED" in env:
            env["FLATJSONL_VERIF_SCHED"] = env["FLATJSONL_VERIF_SCHED"].rsplit(":", 1)[0] + ":50"
    elif kind == "buffer":
        # Input is many times longer than the buffer of the reader, lines of the same worker wait while it is refilled.
        c = rng.choice((1, 4, 8, 16, 64))
        ln = rng.choice((40, 300, 3000, 9000, 34000, 70000, 150000))
        n = min(4000, max(40, rng.choice((1000000, 6000000)) // ln))
        ds = []
        for i in range(n):
            m = rng.randint(ln // 2, ln)
            ds.append({"id": i, "s": ("%d-" % i) * (m // (len(str(i)) + 1))})
        args += ["-buf-size", str(int(ln * 1.2 * rng.choice((1, 1, 2, 5))) + 200)]
        env = sched_env(rng, 0.9)
        if "FLATJSONL_VERIF_SCHED" in env:
            env["FLATJSONL_VERIF_SCHED"] = "%d:%d:%d" % (rng.randint(1, 9999), rng.choice((2, 10, 30)), 2000 if n < 500 else 100)
        ws, esc = 0, 0
    elif kind == "longrun":
        # Parsers and buffers of a worker are recycled after a number of lines.
        c = rng.choice((1, 2, 5))
        n = rng.randint(900, 1500)
        ds = gen.docs(rng, n, width=8, depth=3, unique=0.0, typemix=0.2)
    elif kind == "bigline":
        c = rng.choice((1, 3, 16))
        ds = []
        for i in range(rng.randint(3, 12)):
            if rng.random() < 0.5:
                ds.append({"s": "L%d" % i, "big": "".join(chr(rng.randint(32, 0x2fff)) for _ in range(500)) *
                           rng.choice((1, 50, 150, 400))})
            else:
                ds.append({"s": "L%d" % i, "t": gen.rstr(rng), "arr": [gen.rscalar(rng) for _ in range(rng.randint(0, 90))]})
    elif kind == "wide":
        args += ["-children-limit", "0"]
        w = rng.choice((99, 100, 101, 499, 500, 1000, 1500))
        ds = [{"c%d" % k: gen.rscalar(rng) for k in range(w) if rng.random() < 0.8} for _ in range(rng.randint(2, 6))]
        ds.append({"o": {"p%d" % k: k for k in range(w)}})
    elif kind == "deep":
        n = rng.choice((10, 19, 20, 21, 22, 25, 60, 150))
        ds = [gen.deep(rng, rng.randint(max(1, n - 3), n), gen.rscalar(rng)) for _ in range(rng.randint(2, 12))]
        for i, d in enumerate(ds):
            d["x"] = "L%d" % i
            d["y"] = [{"z%d" % j: gen.rscalar(rng)} for j in range(3)]
    elif kind == "shrink":
        # Long lines and paths followed by short ones on few workers: stale buffer contents would show up.
        c = rng.choice((1, 1, 2))
        ds = []
        for i in range(rng.randint(20, 160)):
            r = rng.random()
            if r < 0.3:
                ds.append({"k": "x" * rng.randint(0, 3000), "o": {"p" * rng.choice((1, 60, 400)): {"q": gen.rscalar(rng)}}})
            elif r < 0.6:
                ds.append({"k": gen.rscalar(rng)})
            elif r < 0.8:
                ds.append({"a": [gen.rscalar(rng) for _ in range(rng.randint(0, 20))], "k": None})
            else:
                ds.append({})
    elif kind == "dotted":
        ds = []
        for i in range(rng.randint(5, 60)):
            d = {}
            for k in ("a.b", "a..c", ".d", "e.", "f.g.h", "[0].x", "i"):
                if rng.random() < 0.6:
                    d[k] = gen.rscalar(rng) if rng.random() < 0.7 else {"z.y": gen.rscalar(rng), "w": [gen.rscalar(rng)]}
            ds.append(d)
        args += rng.choice(([], ["-case-sensitive-keys"]))
    elif kind == "rawbytes":
        # Strings that are not valid UTF-8 are passed as they are.
        esc = 0
        ds = []
        for i in range(rng.randint(5, 60)):
            b = bytes(rng.choice((rng.randint(0x80, 0xff), rng.randint(0x20, 0x7e))) for _ in range(rng.randint(1, 40)))
            ds.append({"b": b.decode("utf-8", "surrogateescape"), "i": i})
    elif kind == "arrays":
        args += rng.choice(([], ["-children-limit", "0"]))
        m = 95 if not args else 300

        def arr(d):
            n = rng.choice((0, 1, 2, 3, 10, 12, m if d == 2 else 5))
            return [arr(d - 1) if d > 0 and rng.random() < 0.3 else
                    ({"p": gen.rscalar(rng)} if rng.random() < 0.2 else gen.rscalar(rng)) for _ in range(n)]
        ds = [{"a": arr(2), "i": "L%d" % i} for i in range(rng.randint(2, 25))]

    elif kind == "near":
        # Long names and values which differ in one place only.
        c = rng.choice((1, 1, 2, 8))
        w = rng.choice((9, 17, 33, 49, 65, 129, 257, 513, 1025, 5000))

        def near(i):
            b = ["x"] * w
            m = i % 4
            if m == 0:
                b[0] = chr(97 + i // 4 % 26)
            elif m == 1:
                b[-1] = chr(97 + i // 4 % 26)
            elif m == 2:
                b[w // 2] = chr(97 + i // 4 % 26)
            else:
                j = i // 4 % (w - 1)
                b[j], b[j + 1] = "y", "z"
            return "".join(b)
        names = [near(rng.randint(0, 400)) for _ in range(rng.choice((1, 4, 12)))] if w < 1000 else ["k"]
        ds = []
        for i in range(rng.choice((10, 60, 300))):
            d = {k: near(rng.randint(0, 400)) for k in names}
            if rng.random() < 0.3:
                d["n"] = Num("".join(str(ord(x) % 10) for x in near(rng.randint(0, 400))[:300]).lstrip("0") or "1")
            if rng.random() < 0.3:
                d["o"] = {near(i % 7) if w < 1000 else "q": {"v": near(i)}}
            ds.append(d)
    elif kind == "scale":
        args += ["-children-limit", "0"]
        m = rng.choice((257, 1000, 1023, 1024, 1025, 1026, 2050, 4097))
        ds = [{"i": "L0", "a": [rng.choice((j, "v%d" % j, {"p": j})) for j in range(m)], "z": 1}]
        for i in range(rng.randint(1, 4)):
            ds.append({"i": "L%d" % (i + 1), "a": [j + i for j in range(rng.choice((3, m - 1, m, m + 1)))],
                       "o": {"b": [[j] for j in range(rng.choice((0, 5, m // 4)))]}})

    eol = rng.choice(("\n", "\n", "\r\n"))
    data = gen.lines(rng, ds, ws, esc, eol=eol, final=rng.random() < 0.8)
    cs = "-case-sensitive-keys" in args
    check_csv(cx, ds, data, args + ["-concurrency", str(c)], env, case_sensitive=cs)
    cx.count("conc_%d" % c)
    if env.get("FLATJSONL_VERIF_SCHED"):
        cx.count("perturbed_schedules")


def run_reuse(cx):
    """Many wide lines, more threads than cores, emptied pools of reused objects."""
    rng = cx.rng
    n, m = rng.choice(((300, 4000), (300, 4000), (3000, 500), (50, 8000)))
    ks = ["k%d" % j for j in range(n)]
    sparse = rng.random() < 0.3
    js, want = [], [",".join("." + k for k in ks)]
    for i in range(m):
        half = sparse and i > 0 and rng.random() < 0.5
        v = str(i)
        js.append("{" + ",".join(['"%s":%s' % (k, v) for k in (ks[: n // 2] if half else ks)]) + "}")
        want.append(",".join([v] * (n // 2) + [""] * (n - n // 2) if half else [v] * n))
    cx.write("in.jsonl", "\n".join(js) + "\n")
    env = {"GOMAXPROCS": str(rng.choice((4, 16, 32, 32, 32))), "GOGC": rng.choice(("5", "5", "20", "100"))}
    cx.flat(["-verbosity", "0", "-csv", "out.csv", "-concurrency", str(rng.choice((8, 64, 64))), "-children-limit", "0", "in.jsonl"],
            env, timeout=120)
    got = cx.read("out.csv").decode().rstrip("\n").split("\n")
    if sorted(got[0].split(",")) != sorted(want[0].split(",")):
        raise Violation("columns differ: %r" % got[0][:500])
    if len(got) != len(want):
        raise Violation("%d lines in the output, expected %d" % (len(got), len(want)))
    if sparse and got[0] != want[0]:
        at = {c: i for i, c in enumerate(got[0].split(","))}
        at = [at["." + k] for k in ks]
        got = [got[0]] + [",".join([r[i] for i in at]) for r in (g.split(",") for g in got[1:])]
    for i in range(1, len(want)):
        if got[i] != want[i]:
            raise Violation("row %d differs: %r, expected %r" % (i, got[i][:300], want[i][:300]))
    cx.count("reuse_cells", n * m)
    cx.seen(("reuse", n, m, repr(env), sparse, cx.case["n"]))
