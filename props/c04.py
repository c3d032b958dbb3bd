"""C04: CSV, RAW, SQLite and PostgreSQL outputs hold the same table."""
from fw import gen, model, outs
from fw.util import compare, conc, sched_env

LEVEL = "exploration"
RULE = ("All four outputs are enabled for random documents (hostile strings, names, numbers, wide tables around the column "
        "limit, row counts around flush and commit thresholds). CSV is compared with the model; RAW bytes, SQLite tables "
        "(read with sqlite3 of Python) and the parsed PostgreSQL dump are compared with CSV cell by cell, parts are "
        "joined by row number. Non-trivial: at least one column and two rows; distinct by input and options.")
ASSUMPTIONS = ["Python csv and sqlite3 modules read their formats correctly", "COPY blocks are read with the CSV rules",
               "numbers in numeric SQLite columns are compared by value, all other cells as text",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("commit", 6), ("wide", 20), ("parts", 90), ("mixed", 160), ("names", 40), ("strings", 60),
                    ("numbers", 50), ("scanlimit", 30), ("defaults", 20)):
        for i in range(n if q else n * 10):
            res.append({"kind": kind, "n": i})
    return res


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    a = []
    env = sched_env(rng, 0.3)
    c = conc(rng)
    maxcols = 500
    table = "flatjsonl"
    scan = None
    if kind == "commit":
        # SQLite commits after 10000, 1000 or 100 inserted rows, PostgreSQL block is 10000 lines.
        n, w = ((10001, 3), (20002, 2), (1002, 100), (2500, 120), (1100, 104), (305, 1005))[case["n"] % 6]
        a += ["-children-limit", "0"]
        ds = [{"k%d" % j: "v%d.%d" % (i, j) if j % 3 else i * j for j in range(w) if (i + j) % 7} for i in range(n)]
        if rng.random() < 0.5:
            maxcols = rng.choice((50, 60))
            a += ["-sql-max-cols", str(maxcols)]
    elif kind == "wide":
        a += ["-children-limit", "0"]
        w = rng.choice((498, 499, 500, 998, 999, 1497, 1996, 1997, 2100))
        ds = [{"k%d" % j: gen.rscalar(rng, "plain") for j in range(w) if i == 0 or rng.random() < 0.9}
              for i in range(rng.choice((1, 3)))]
    elif kind == "parts":
        maxcols = rng.choice((2, 3, 4, 5, 7, 11, 26))
        per = maxcols - 1
        w = max(1, per * rng.randint(1, 5) + rng.choice((-1, 0, 0, 1)))
        a += ["-sql-max-cols", str(maxcols)]
        ds = [{"k%d" % j: gen.rscalar(rng) for j in range(w) if i == 0 or rng.random() < 0.8}
              for i in range(rng.choice((1, 2, 20, 105)))]
    elif kind == "names":
        ds = []
        names = [k for k in gen.EVIL_KEY if k]
        for i in range(rng.randint(1, 8)):
            ds.append({k: gen.rscalar(rng) for k in rng.sample(names, rng.randint(1, 8))})
        table = rng.choice(("flatjsonl", "t", "select", "my table", 'q"t', "a.b", "таб", "it's", "T_part2", "1"))
        a += ["-sql-table", table]
        if rng.random() < 0.5:
            maxcols = 3
            a += ["-sql-max-cols", "3"]
    elif kind == "strings":
        ds = [{k: rng.choice(gen.EVIL_STR) for k in rng.sample("abcdef", rng.randint(1, 6))}
              for _ in range(rng.randint(1, 40))]
    elif kind == "numbers":
        # Columns of numbers only, columns where strings look like numbers.
        ds = []
        for i in range(rng.randint(1, 30)):
            d = {"n": gen.rnum(rng), "i": rng.randint(-2 ** 63, 2 ** 63 - 1), "b": rng.random() < 0.5,
                 "s": rng.choice(("1", "1.0", "007", "1e5", " 1", "0x10", "", "-0", ".5", "9223372036854775808")),
                 "m": rng.choice((gen.rnum(rng), "5", "x", None, True)),
                 "x": rng.choice((1, True)), "z": rng.choice((None, rng.randint(0, 9)))}
            ds.append({k: v for k, v in d.items() if rng.random() < 0.8})
    elif kind == "scanlimit":
        # Types of columns are guessed by a few lines, values that do not fit must not be lost.
        ds = gen.docs(rng, rng.choice((10, 60)), width=5, depth=2, typemix=0.5)
        scan = rng.randint(1, 5)
        c = 1
        a += ["-max-lines-keys", str(scan)]
    elif kind == "defaults":
        ds = gen.docs(rng, 12, width=4, depth=2)
    else:
        ds = gen.docs(rng, rng.choice((1, 2, 20, 120)), width=rng.choice((2, 6, 12)), depth=3)
        if rng.random() < 0.3:
            a.append("-add-sequence")
    a += ["-concurrency", str(c)]
    pre = None
    if "-add-sequence" in a:
        pre = lambda i: [("._sequence", ("_sequence",), i + 1)]
    t = model.table(ds, pre=pre, scan=scan)
    if not t.cols:
        return
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    ext = rng.choice(("", "", "", ".gz", ".zst"))
    fn = outs.names("out", ext)
    which = outs.ALL if kind != "defaults" else ("csv",) + tuple(x for x in outs.ALL[1:] if rng.random() < 0.5)
    outs.run(cx, fn, which, a, env, timeout=60)
    tab = outs.csv_tab(cx, fn["csv"])
    compare(cx, t, tab, order=c == 1)
    names = {n: i for i, n in enumerate(t.cols)}
    nulls = (lambda i, col: t.rows[i].get(col) is None) if scan is None else None
    outs.check_all(cx, fn, tab, which, table=table, maxcols=maxcols, nulls=nulls)
    if len(ds) > 1:
        cx.seen(data + repr(a).encode())
