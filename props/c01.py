"""C01: one output row per input line, in input order, under any schedule."""
from fw import gen, outs, parse
from fw.core import Violation
from fw.util import sched_env

LEVEL = "exploration"
RULE = ("Every line carries a unique identifier; schedules are varied with the number of workers, GOMAXPROCS and seeded "
        "delays at scheduling points of the line pipeline (line started, finished, received, completed). Monitor: the "
        "sequence of identifiers in every output must be exactly that of the input, and row numbers 1..n. A case is "
        "non-trivial if at least two lines were processed; distinct by the recorded order in which lines finished, "
        "where it is recorded, otherwise by input, options and schedule.")
ASSUMPTIONS = ["delays are injected only at the hooked points, other preemptions come from the Go scheduler",
               "held on the executions and interleavings listed, not for all schedules"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("flush", 4), ("many", 10), ("memlimit", 6), ("slow", 30), ("order", 260), ("blank", 24),
                    ("multi", 20), ("getkey", 24)):
        for i in range(n if q else n * 10):
            res.append({"kind": kind, "n": i})
    return res


def ids(tab, name, what):
    c = [i for i, x in enumerate(tab.cols) if x == name]
    if len(c) != 1:
        raise Violation("%s has no column %r: %r" % (what, name, tab.cols[:10]))
    return [r[c[0]] for r in tab.rows]


def check_ids(exp, got, what):
    if exp == got:
        return
    if len(exp) != len(got):
        miss = [x for x in exp if x not in set(got)]
        dup = sorted({x for x in got if got.count(x) > 1})[:5] if len(got) < 30000 else "?"
        raise Violation("%s has %d rows, expected %d; missing %r, duplicated %r" % (what, len(got), len(exp), miss[:5], dup))
    i = next(i for i in range(len(exp)) if exp[i] != got[i])
    raise Violation("%s row %d: expected %r, got %r; then %r" % (what, i + 1, exp[i], got[i], got[i:i + 6]))


def observe_log(cx, b):
    """Evidence from the recorded pipeline events: which interleavings were actually exercised."""
    order, recv = [], 0
    for l in b.decode().split("\n"):
        ev, _, s = l.rpartition(" ")
        if ev == "finish":
            order.append(int(s))
        elif ev == "receive":
            recv += 1
        cx.count("events")
    inv = sum(1 for a, b in zip(order, order[1:]) if a > b)
    cx.count("lines_finished_out_of_order", inv)
    cx.count("max_out_of_order", inv)
    if order:
        cx.seen(("order", tuple(order)))
    return bool(order)


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    c = rng.choice((1, 2, 2, 3, 4, 8, 16, 32, 100, 300))
    env = sched_env(rng, 0.7)
    a = []
    which = ("csv",)
    mk = lambda i: '{"id":"L%d","x":%d}' % (i, i)
    n = rng.choice((2, 3, 10, 50, 99, 100, 101, 250, 600))
    exp = None

    if kind == "flush":
        n = (9999, 10000, 10001, 20003)[case["n"] % 4]
        which = outs.ALL
        c = rng.choice((2, 16, 50))
        env = {"FLATJSONL_VERIF_SCHED": "%d:2:100" % rng.randint(1, 1 << 30)} if rng.random() < 0.5 else {}
    elif kind == "many":
        n = rng.choice((5000, 12000))
        which = ("csv", "raw")
        mk = lambda i: '{"id":"L%d","p":"%s"}' % (i, "x" * (i * 7919 % 97) * (1 if i % 50 else 60))
        env = {"GOMAXPROCS": str(rng.choice((1, 2, 4, 8, 32)))}
    elif kind == "memlimit":
        # Reader is throttled all the time, it must still finish.
        n = rng.choice((100, 3000))
        a += ["-mem-limit", "1"]
        if rng.random() < 0.5:
            a += ["-buf-size", str(rng.choice((1 << 16, 1 << 24)))]
    elif kind == "slow":
        # Few lines are much slower than others.
        n = rng.choice((40, 150))
        slow = set(rng.sample(range(n), 3))
        big = ",".join('"k%d":"%s"' % (k, "v" * 2000) for k in range(90))
        mk = lambda i: ('{"id":"L%d",%s}' % (i, big) if i in slow else '{"id":"L%d"}' % i)
        env = {"FLATJSONL_VERIF_SCHED": "%d:%d:%d" % (rng.randint(1, 1 << 30), rng.choice((3, 10)), rng.choice((5000, 30000)))}
        which = rng.choice((("csv",), outs.ALL))
    elif kind == "order":
        env = {"FLATJSONL_VERIF_SCHED": "%d:%d:%d" % (rng.randint(1, 1 << 30), rng.choice((5, 20, 50, 100)),
                                                    rng.choice((0, 30, 200, 1000, 3000))),
               "GOMAXPROCS": str(rng.choice((1, 2, 4, 8, 32))), "FLATJSONL_VERIF_LOG": cx.path("ev.log")}
        n = rng.choice((5, 20, 60, 120, 250))
        which = rng.choice((("csv",), ("csv",), ("csv", "raw"), outs.ALL))
    elif kind == "blank":
        # Lines that are not parsed keep their place.
        bad = ["", "x", "{", "null", "[1]", '{"id":', "   ", "\x00", '{"a":1', "{}", "{}{}"]
        n = rng.randint(5, 200)
        pat = [rng.choice(bad) if rng.random() < 0.4 else None for _ in range(n)]
        if all(p is not None for p in pat):
            pat[0] = None
        mk = lambda i: '{"id":"L%d"}' % i if pat[i] is None else pat[i]
        exp = ["L%d" % i if pat[i] is None else "" for i in range(n)]
        which = rng.choice((("csv",), outs.ALL))
    elif kind == "getkey":
        a += ["-get-key", ".id"]
        which = rng.choice((("csv",), outs.ALL))
        n = rng.choice((3, 120, 700))

    lines = [mk(i) for i in range(n)]
    inp = "in.jsonl"
    extra = []
    if kind == "multi":
        k = rng.randint(2, 5)
        cuts = sorted(rng.randint(1, n) for _ in range(k - 1))
        parts_ = [lines[x:y] for x, y in zip([0] + cuts, cuts + [n])]
        parts_ = [p for p in parts_ if p]
        for j, p in enumerate(parts_):
            cx.write("in%d.jsonl" % j, "\n".join(p) + ("\n" if rng.random() < 0.5 else ""))
        inp, extra = None, ["in%d.jsonl" % j for j in range(len(parts_))]
        which = rng.choice((("csv",), outs.ALL))
    else:
        cx.write(inp, "\n".join(lines) + ("\n" if kind == "blank" or rng.random() < 0.7 else ""))
    if exp is None:
        exp = ["L%d" % i for i in range(n)]

    a += ["-concurrency", str(c)]
    if kind != "getkey" and rng.random() < 0.3:
        a += ["-add-sequence"]
    fn = outs.names()
    cx.rm("ev.log")
    outs.run(cx, fn, which, a + extra, env, inp=inp, timeout=40)
    tab = outs.csv_tab(cx, fn["csv"])
    check_ids(exp, ids(tab, ".id", "CSV"), "CSV")
    if "-add-sequence" in a:
        check_ids([str(i + 1) for i in range(len(exp))], ids(tab, "._sequence", "CSV sequence"), "CSV sequence")
    outs.check_all(cx, fn, tab, which)
    cx.count("rows", len(exp))
    cx.count("conc_%d" % c)
    logged = False
    if "FLATJSONL_VERIF_LOG" in env:
        b = cx.read("ev.log", must=False)
        if b:
            logged = observe_log(cx, b)
    if not logged and n > 1:
        cx.seen((kind, n, c, tuple(a), tuple(sorted(env.items())), case["n"]))
