"""C16: no data races between workers, writers and key scan."""
import re

from fw import gen, mix
from fw.core import Violation

LEVEL = "exploration"
BINS = ["flatjsonl_race"]
TECHNIQUE = "sanitizer: Go race detector on real runs over all feature combinations with injected scheduling delays"
RULE = ("The binary is built with the race detector and run on random documents with random combinations of all features, "
        "2 to 64 workers, different GOMAXPROCS, seeded delays at scheduling points. Any report of the detector with a frame "
        "outside of the progress reporting library is a violation. Non-trivial: at least two lines with at least two workers; "
        "distinct by features, options, input and schedule.")
ASSUMPTIONS = ["the detector sees races only between accesses that were executed, with a bounded history per location",
               "races inside of the progress reporting library (third party) are ignored",
               "held on the executions listed, not for all schedules"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for f in mix.FEATURES:
        for i in range(4 if q else 60):
            res.append({"kind": "single", "feat": f, "n": i})
    for i in range(300 if q else 5000):
        res.append({"kind": "mix", "n": i})
    for kind, n in (("keys", 30), ("cardinality", 30), ("flush", 2), ("wide", 6), ("strings", 20)):
        for i in range(n if q else n * 20):
            res.append({"kind": kind, "n": i})
    return res


_rep = re.compile(r"WARNING: DATA RACE\n(.*?)\n==================", re.S)
PROGRESS = "github.com/bool64/progress."


def races(err):
    """Returns reports that are not internal to the progress library."""
    res, ign = [], set()
    for m in _rep.finditer(err):
        body = m.group(1)
        secs = re.split(r"\n\n", body)
        tops, printer, idle = [], [], []
        for s in secs[:2]:
            ls = s.split("\n")
            frames = [l.strip() for l in ls[1:] if l.startswith("  ") and not l.startswith("      ")]
            own = [f for f in frames if not f.startswith(("runtime.", "sync.", "sync/atomic.", "internal/"))]
            tops.append(own[0] if own else "")
            printer.append(any(f.startswith(PROGRESS + "(*Progress).printStatus") for f in frames))
            # Main goroutine between reading sessions.
            idle.append("main goroutine" in ls[0] and not any(".(*Reader).Read(" in f for f in frames))
        # Printer of progress may outlive the session, because Stop does not wait for it, and it reads fields of Progress
        # (metrics, counters of the current reader) without synchronization.
        lib = [t.startswith(PROGRESS) for t in tops]
        if len(tops) == 2 and (all(lib) or any(printer[i] and (lib[i] or idle[1 - i]) for i in (0, 1))):
            ign.add(" / ".join(tops))
            continue
        res.append((tops, body))
    return res, ign


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    c = rng.choice((2, 2, 3, 4, 8, 16, 64))
    which = ["csv"]
    env = {"GORACE": "atexit_sleep_ms=0 exitcode=0 history_size=2"}
    if rng.random() < 0.6:
        env["FLATJSONL_VERIF_SCHED"] = "%d:%d:%d" % (rng.randint(1, 1 << 30), rng.choice((5, 30, 100)), rng.choice((0, 50, 300)))
    if rng.random() < 0.5:
        env["GOMAXPROCS"] = str(rng.choice((2, 3, 4, 16)))
    outputs = []
    if rng.random() < 0.5:
        outputs += ["-csv", rng.choice(("o.csv", "o.csv.gz", "o.csv.zst"))]
    if rng.random() < 0.4:
        outputs += ["-raw", rng.choice(("o.raw", "o.raw.gz"))]
    if rng.random() < 0.3:
        outputs += ["-sqlite", "o.sqlite"]
    if rng.random() < 0.4:
        outputs += ["-pg-dump", rng.choice(("o.sql", "o.sql.zst"))]
    if not outputs:
        outputs = ["-csv", "o.csv"]
    if kind == "single":
        w = mix.workload(cx, feats={case["feat"]})
    elif kind == "mix":
        w = mix.workload(cx)
    else:
        w = mix.Mix()
        w.inputs = ["in.jsonl"]
        w.args = ["-verbosity", "0"]
        if kind == "keys":
            # Every line brings new keys and new types of common keys.
            n = rng.choice((100, 300))
            ls = []
            for i in range(n):
                d = {"k%d" % rng.randint(0, i + 1): gen.rscalar(rng, "plain") for _ in range(rng.randint(1, 8))}
                d["c"] = gen.rscalar(rng, "plain")
                d["o"] = {"x%d" % (i % 7): gen.rscalar(rng, "plain"), "y": [{"z": i}] * rng.randint(0, 3)}
                ls.append(gen.to_json(d))
            w.args += rng.choice(([], ["-skip-zero-cols"], ["-case-sensitive-keys"], ["-show-json-schema", "-show-keys-hier"], ["-replace-keys"]))
        elif kind == "cardinality":
            n = rng.choice((50, 200))
            ls = []
            for i in range(n):
                ls.append(gen.to_json({"a": {"k%d" % rng.randint(0, 60): {"v": rng.randint(0, 3), "w": {"q%d" % i: 1}} for _ in range(3)},
                                       "b": [i] * rng.randint(0, 30)}))
            w.args += ["-children-limit", str(rng.choice((1, 5, 20, 40)))]
        elif kind == "flush":
            n = 10300
            ls = ['{"id":%d,"t":["a","b"]}' % i for i in range(n)]
            w.args += ["-config", '{"transpose":{".t":"t"}}']
            outputs = ["-csv", "o.csv", "-raw", "o.raw", "-sqlite", "o.sqlite", "-pg-dump", "o.sql"]
            env.pop("FLATJSONL_VERIF_SCHED", None)
        elif kind == "wide":
            n = 60
            ls = [gen.to_json({"k%d" % k: k * i for k in range(rng.choice((20, 600)))}) for i in range(n)]
            w.args += ["-sql-max-cols", str(rng.choice((10, 500)))]
            outputs = ["-csv", "o.csv", "-sqlite", "o.sqlite", "-pg-dump", "o.sql"]
        else:
            n = rng.choice((60, 250))
            ls = [gen.to_json({"s": rng.choice(('{"a":{"b":"[1,2]"}}', "http://a/b?c=%7B%22x%22%3A1%7D", "[[1]]", '{"x":"http://h:1/p"}')),
                               "t": "2024-01-02 03:04:05", "l": "z" * rng.randint(0, 3000)}) for i in range(n)]
            w.args += ["-extract-strings", "-field-limit", "3", "-config", '{"parseTime":{".t":"2006-01-02 15:04:05"},"outputTZ":"Asia/Tokyo"}']
        cx.write("in.jsonl", "\n".join(ls) + "\n")
        w.n = n
        w.feats = (kind,)
    r = cx.flat(outputs + w.args + ["-concurrency", str(c)] + w.inputs, env=env, timeout=120, bin="flatjsonl_race", ok=False)
    err = r.err.decode("utf-8", "replace")
    found, ign = races(err)
    for x in ign:
        cx.count("ignored in progress library: " + x)
    if found:
        tops, body = found[0]
        raise Violation("%d data race report(s), first: %s\n%s" % (len(found), " / ".join(tops), body[:6000]))
    if "fatal error: concurrent map" in err or "checkptr" in err:
        raise Violation("runtime detected unsynchronized access\n" + err[:4000])
    if r.rc != 0:
        raise Violation("run failed\n" + r.brief())
    if "DATA RACE" in err and not ign:
        raise Violation("unparsed report of a data race\n" + err[:4000])
    cx.count("runs_clean")
    cx.count("lines", w.n)
    for f in w.feats:
        cx.count("feature_" + f)
    if w.n > 1:
        cx.seen((w.feats, tuple(w.args), tuple(outputs), tuple(sorted(env.items())), c, case["n"], kind))
