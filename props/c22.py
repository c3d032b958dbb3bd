"""C22: CSV comparison tool is exact."""
from fw import gen
from fw.core import Violation

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: verdicts of the tool are monitored against a relational oracle over generated pairs of files"
BINS = ["csvequals", "flatjsonl"]
RULE = ("Pairs of CSV files: equal ones with columns in another order and other quoting, and ones with a single difference anywhere "
        "(one character of a cell, swapped cells, rows or column names, missing or additional row or column at any place, empty "
        "cell), several differences, ragged rows, outputs of the converter with different number of workers. Monitor: exit status "
        "is zero if and only if rows are equal as mappings from column name to value, for both orders of files; a failure names "
        "the column or the missing rows. Non-trivial: at least one row; distinct by contents of both files.")
ASSUMPTIONS = ["column names of a file are distinct", "line ends inside of cells are compared as LF (CRLF is the same)",
               "a blank line is not a record", "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("equal", 160), ("cell", 300), ("swap", 120), ("rows", 200), ("cols", 200), ("many", 60), ("real", 60),
                    ("big", 8), ("ragged", 40), ("empty", 30), ("names", 60)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def field(rng, s):
    if s == "" and rng.random() < 0.7:
        return s
    if any(c in s for c in ',"\n\r') or s.startswith((" ", "\t")) or rng.random() < 0.2:
        return '"' + s.replace('"', '""') + '"'
    return s


def render(rng, cols, rows, order=None):
    if order is None:
        order = list(range(len(cols)))
    eol = "\n" if rng.random() < 0.8 else "\r\n"
    out = []
    for r in [cols] + rows:
        out.append(",".join(field(rng, r[j]) for j in order))
    b = eol.join(out)
    return (b + (eol if rng.random() < 0.8 else "")).encode("utf-8", "surrogateescape")


def cell(rng):
    r = rng.random()
    if r < 0.2:
        return ""
    if r < 0.5:
        return rng.choice(("1", "0", "true", "x", "NULL", "a,b", 'q"q', " ", "é", "l1\nl2", "1.0", "01", "-"))
    return gen.rstr(rng, "mixed").replace("\r", "").replace("\x00", "")[:3000]


def rand_cols(rng, n, mode):
    res = []
    while len(res) < n:
        c = gen.rkey(rng, mode).replace("\r", "")
        if rng.random() < 0.5:
            c = "." + c
        if c not in res and c != "":
            res.append(c)
    return res


def near(rng, v):
    """A value that differs a little."""
    while True:
        r = rng.random()
        if v == "" or r < 0.2:
            w = cell(rng)
        elif r < 0.4:
            w = v + rng.choice((" ", "0", "x", "\n", "\""))
        elif r < 0.5:
            w = rng.choice((" ", "0")) + v
        elif r < 0.6:
            w = v[:-1]
        elif r < 0.7:
            w = v.swapcase()
        elif r < 0.8:
            w = ""
        else:
            i = rng.randrange(len(v))
            w = v[:i] + rng.choice("abc123 .,") + v[i + 1:]
        if w != v:
            return w


def as_maps(cols, rows):
    return [dict(zip(cols, r)) for r in rows]


def verdict(cx, a, b):
    r = cx.exec([a, b], bin="csvequals", timeout=60)
    if r.timeout:
        raise Violation("tool does not finish")
    e = r.err.decode("utf-8", "surrogateescape")
    if r.rc == 0 and "files are equal" not in e:
        raise Violation("exit status is 0, there is no verdict: %r" % e[-300:])
    if r.rc != 0 and ("panic" in e or "goroutine " in e):
        raise Violation("tool crashed: %s" % e[-1500:])
    if r.rc != 0 and not e.strip():
        raise Violation("exit status is %d, difference is not named" % r.rc)
    return r.rc == 0, e


def check(cx, A, B, exp, mention=None):
    """A, B are (cols, rows)."""
    rng = cx.rng
    oa = list(range(len(A[0])))
    ob = list(range(len(B[0])))
    if rng.random() < 0.7:
        rng.shuffle(oa)
        rng.shuffle(ob)
    cx.write("a.csv", render(rng, A[0], A[1], oa))
    cx.write("b.csv", render(rng, B[0], B[1], ob))
    for x, y in (("a.csv", "b.csv"), ("b.csv", "a.csv")):
        got, e = verdict(cx, x, y)
        if got != exp:
            raise Violation("%s and %s are %s, verdict is %s\n%s" % (
                x, y, "equal" if exp else "different", "equal" if got else "different", e[-600:]))
        if not exp and mention and not any(m in e for m in mention):
            raise Violation("failure does not name the difference %r: %r" % (mention, e[-600:]))
        cx.count("equal" if exp else "different")
    for x in ("a.csv", "b.csv"):
        got, e = verdict(cx, x, x)
        if not got:
            raise Violation("file is not equal to itself: %s" % e[-500:])
    if A[1] or B[1]:
        cx.seen(cx.read("a.csv") + b"\0" + cx.read("b.csv"))


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    if kind == "real":
        return run_real(cx)
    n = rng.choice((1, 2, 3, 10, 50))
    m = rng.choice((2, 2, 3, 5, 12))
    if kind == "big":
        n = rng.choice((3000, 20000))
        m = 4
    if kind != "big" and rng.random() < 0.05:
        m = 300
    mode = rng.choice(("plain", "mixed"))
    cols = rand_cols(rng, m, mode)
    rows = [[cell(rng) for _ in cols] for _ in range(n)]
    if rng.random() < 0.3 and n > 1:
        # Repeated rows and values.
        v = [cell(rng) for _ in range(2)]
        rows = [[rng.choice(v) for _ in cols] for _ in range(n)]
    # Blank line is not a record.
    A = (cols, rows)
    c2, r2 = list(cols), [list(r) for r in rows]
    mention = None
    if kind == "equal":
        pass
    elif kind in ("cell", "big"):
        i = rng.choice((0, n - 1, rng.randrange(n)))
        j = rng.choice((0, m - 1, rng.randrange(m)))
        r2[i][j] = near(rng, r2[i][j])
        mention = [cols[j]]
    elif kind == "swap":
        r = rng.random()
        if r < 0.4:
            i, k = rng.randrange(n), rng.randrange(n)
            r2[i], r2[k] = r2[k], r2[i]
        elif r < 0.7:
            i = rng.randrange(n)
            j, k = rng.sample(range(m), 2)
            r2[i][j], r2[i][k] = r2[i][k], r2[i][j]
        elif r < 0.85:
            j, k = rng.sample(range(m), 2)
            c2[j], c2[k] = c2[k], c2[j]
        else:
            j = rng.randrange(m)
            i, k = rng.randrange(n), rng.randrange(n)
            r2[i][j], r2[k][j] = r2[k][j], r2[i][j]
    elif kind == "rows":
        r = rng.random()
        k = rng.choice((1, 1, 2, n))
        if r < 0.35:
            r2 = r2[:-k]
        elif r < 0.5:
            del r2[rng.randrange(n)]
        elif r < 0.7:
            r2 += [list(r2[-1]) for _ in range(k)]
        elif r < 0.85:
            r2.insert(rng.randint(0, n), [cell(rng) for _ in cols])
        else:
            i = rng.randrange(n)
            r2.insert(i, list(r2[i]))
    elif kind == "cols":
        r = rng.random()
        if r < 0.35:
            j = rng.randrange(m)
            del c2[j]
            for x in r2:
                del x[j]
        elif r < 0.7:
            j = rng.randint(0, m)
            c2.insert(j, "new column")
            e = rng.random() < 0.5
            for x in r2:
                x.insert(j, "" if e else cell(rng))
            mention = ["new column"]
        else:
            j = rng.randrange(m)
            w = near(rng, c2[j]).replace("\r", "")
            if w and w not in c2:
                c2[j] = w
    elif kind == "many":
        for _ in range(rng.randint(2, 5)):
            i, j = rng.randrange(n), rng.randrange(m)
            r2[i][j] = near(rng, r2[i][j])
        if rng.random() < 0.3:
            del r2[rng.randrange(n)]
    elif kind == "ragged":
        # Row with a different number of fields is not valid.
        i = rng.randrange(n)
        b = render(rng, cols, rows).replace(b"\r\n", b"\n")
        cx.write("a.csv", b)
        x = list(r2[i])
        if rng.random() < 0.5:
            x.append(rng.choice(("", "y")))
        else:
            x.pop()
        if x == [""] or not x:
            x = ["z"]
        if len(x) == m:
            x.append("z")
        r2[i] = x
        out = [",".join(field(rng, v) for v in r) for r in [cols] + r2]
        cx.write("b.csv", "\n".join(out).encode("utf-8", "surrogateescape") + b"\n")
        for x, y in (("a.csv", "b.csv"), ("b.csv", "a.csv"), ("b.csv", "b.csv")):
            got, e = verdict(cx, x, y)
            if got:
                raise Violation("file with ragged rows is reported as equal")
        cx.count("ragged")
        cx.seen(cx.read("b.csv"))
        return
    elif kind == "empty":
        r = rng.random()
        if r < 0.3:
            cx.write("a.csv", b"")
            cx.write("b.csv", render(rng, cols, rows))
            for x, y in (("a.csv", "b.csv"), ("b.csv", "a.csv")):
                if verdict(cx, x, y)[0]:
                    raise Violation("empty file is equal to a file with rows")
            if not verdict(cx, "a.csv", "a.csv")[0]:
                raise Violation("empty file is not equal to itself")
        elif r < 0.6:
            r2 = []
            return check(cx, A, (c2, r2), False)
        elif r < 0.8:
            if verdict(cx, "missing.csv", "also.csv")[0]:
                raise Violation("missing files are equal")
            cx.write("b.csv", render(rng, cols, rows))
            for x, y in (("missing.csv", "b.csv"), ("b.csv", "missing.csv")):
                if verdict(cx, x, y)[0]:
                    raise Violation("missing file is equal to a file with rows")
        else:
            return check(cx, (cols, []), (c2, []), True)
        cx.count("empty")
        cx.seen(repr((case, r)))
        return
    elif kind == "names":
        # Names that are values and the other way around.
        cols = ["a", "b", "1", "a b", "", "A"][:rng.randint(2, 6)]
        cols = [c for c in cols if c] if rng.random() < 0.5 else cols
        rows = [[rng.choice(("a", "b", "1", "", "A")) for _ in cols] for _ in range(n)]
        A = (cols, rows)
        c2, r2 = list(cols), [list(r) for r in rows]
        if rng.random() < 0.6:
            i, j = rng.randrange(n), rng.randrange(len(cols))
            r2[i][j] = rng.choice(("a", "b", "1", "", "A"))
    exp = as_maps(*A) == as_maps(c2, r2)
    check(cx, A, (c2, r2), exp, None if exp else mention)


def run_real(cx):
    """Outputs of the converter."""
    rng = cx.rng
    ds = gen.docs(rng, rng.choice((2, 20, 120)), keymode="plain", valmode="plain", depth=2)
    for i, d in enumerate(ds):
        d["id"] = "L%d" % i
        d["two"] = "x"
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    cx.flat(["-verbosity", "0", "-concurrency", "1", "-csv", "a.csv", "in.jsonl"])
    cx.flat(["-verbosity", "0", "-concurrency", "8", "-csv", "b.csv", "in.jsonl"])
    i = rng.randrange(len(ds))
    d2 = [dict(d) for d in ds]
    r = rng.random()
    if r < 0.5:
        d2[i]["id"] += "x"
    elif r < 0.8:
        del d2[i]
    else:
        d2[i]["two"] = ""
    cx.write("in2.jsonl", gen.lines(rng, d2))
    cx.flat(["-verbosity", "0", "-concurrency", "4", "-csv", "c.csv", "in2.jsonl"])
    for x, y, exp in (("a.csv", "b.csv", True), ("b.csv", "a.csv", True), ("a.csv", "c.csv", False), ("c.csv", "a.csv", False)):
        got, e = verdict(cx, x, y)
        if got != exp:
            raise Violation("%s and %s are %s, verdict is %s\n%s" % (
                x, y, "equal" if exp else "different", "equal" if got else "different", e[-600:]))
        cx.count("equal" if exp else "different")
    cx.seen(data)
