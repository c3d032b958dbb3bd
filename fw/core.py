"""Framework core: builds the code under test, runs workloads, collects verdicts and evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken by an observed execution."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or msg.split("\n")[0][:80]


class Inconclusive(Exception):
    """The execution does not allow a verdict."""


# --- build ---------------------------------------------------------------------------------

def go_env(race=False):
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], env=env,
                         capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode("utf-8", "surrogateescape")
    if race:
        env["CGO_ENABLED"] = "1"
    return env


def build(outdir, want):
    """Builds binaries from the working tree of the repository, returns paths."""
    os.makedirs(outdir, exist_ok=True)
    res = {}
    for name in want:
        out = os.path.join(outdir, name)
        if name == "flatjsonl":
            cmds = [["go", "build", "-tags", "verif", "-o", out, "."], ["go", "build", "-o", out, "."]]
        elif name == "flatjsonl_race":
            cmds = [["go", "build", "-race", "-tags", "verif", "-o", out, "."],
                    ["go", "build", "-race", "-o", out, "."]]
        elif name == "csvequals":
            cmds = [["go", "build", "-o", out, "./cmd/csvequals"]]
        elif name in ("lib", "lib_race"):
            # A program that uses the package, it is not in the repository.
            ov = os.path.join(outdir, "overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, "verif_lib", "main.go"): os.path.join(VERIF, "harness", "lib", "main.go")}}, f)
            race = ["-race"] if name == "lib_race" else []
            cmds = [["go", "build"] + race + ["-tags", "verif", "-overlay", ov, "-o", out, "./verif_lib"],
                    ["go", "build"] + race + ["-overlay", ov, "-o", out, "./verif_lib"]]
        else:
            raise ValueError(name)
        err = ""
        for cmd in cmds:
            p = subprocess.run(cmd, cwd=REPO, env=go_env("race" in name), capture_output=True, text=True)
            if p.returncode == 0:
                res[name] = out
                break
            err += " ".join(cmd) + "\n" + p.stdout + p.stderr
        else:
            raise RuntimeError("build failed: " + err)
    return res


# --- running -------------------------------------------------------------------------------

class Res:
    __slots__ = ("rc", "out", "err", "dt", "timeout", "cmd")

    def brief(self):
        e = self.err.decode("utf-8", "replace")
        return "rc=%s timeout=%s cmd=%s\nstderr: %s" % (
            self.rc, self.timeout, " ".join(self.cmd)[:1500], e[:3000])


def lift(p, fsize, files, delay):
    """Removes file size limit of a process some time after a file has reached it."""
    while p.poll() is None:
        for f in files:
            try:
                if os.stat(f).st_size >= fsize:
                    time.sleep(delay)
                    resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                    return
            except (FileNotFoundError, ProcessLookupError):
                pass
        time.sleep(0.0005)


def run_proc(cmd, cwd, env=None, timeout=60, stdin=None, fsize=None, nofile=None, transient=None):
    e = {"PATH": os.environ.get("PATH", ""), "HOME": cwd, "TMPDIR": cwd, "LC_ALL": "C", "TZ": "UTC"}
    if env:
        e.update(env)

    def pre():
        os.setsid()
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize if transient is None else resource.RLIM_INFINITY))
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    r = Res()
    r.cmd = cmd
    r.timeout = False
    t = time.time()
    # Outputs go to pipes: file size limit must not affect them.
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    if transient is not None:
        threading.Thread(target=lift, args=(p, fsize) + tuple(transient), daemon=True).start()
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.out, r.err = p.communicate()
        r.rc = None
    r.dt = time.time() - t
    return r


class Ctx:
    """Execution context of a case."""

    def __init__(self, pid, bins, case, scratch):
        self.pid = pid
        self.bins = bins
        self.case = case
        self.dir = scratch
        self.rng = random.Random("%s:%s" % (pid, json.dumps(case, sort_keys=True)))
        self.runs = 0
        self.counts = {}
        self.keys = set()
        self.log = []
        self.notes = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, key):
        """Registers a distinct nontrivial observation."""
        if not isinstance(key, (bytes, bytearray)):
            key = repr(key).encode("utf-8", "surrogatepass")
        self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        with open(self.path(name), "wb") as f:
            f.write(data)
        return name

    def read(self, name, must=True):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            if must:
                raise Violation("output file %s is missing" % name)
            return None

    def rm(self, *names):
        for n in names:
            try:
                os.unlink(self.path(n))
            except FileNotFoundError:
                pass

    def exec(self, args, env=None, timeout=60, bin="flatjsonl", fsize=None, transient=None, nofile=None):
        """Runs a binary once, a hang is confirmed by a second run."""
        cmd = [self.bins[bin]] + list(args)
        self.runs += 1
        self.log.append([bin] + list(args) + (["env=" + json.dumps(env)] if env else []))
        r = run_proc(cmd, self.dir, env, timeout, fsize=fsize, transient=transient, nofile=nofile)
        return r

    def flat(self, args, env=None, timeout=60, bin="flatjsonl", ok=True, outputs=()):
        """Runs flatjsonl on a valid workload, it must succeed."""
        r = self.exec(args, env, timeout, bin)
        if r.timeout:
            self.rm(*outputs)
            r = self.exec(args, env, timeout * 2, bin)
            if r.timeout:
                raise Violation("process does not finish (%d s, confirmed twice)\n%s" % (timeout, r.brief()), "hang")
        if ok:
            if r.rc != 0:
                raise Violation("run failed on a valid workload\n" + r.brief(), "failed run")
            if b"panic" in r.err or b"goroutine " in r.err:
                if b"panic on line" in r.err or b"[recovered]" in r.err or b"runtime error" in r.err:
                    raise Violation("panic on a valid workload\n" + r.brief(), "panic")
        return r


# --- check runner --------------------------------------------------------------------------

_G = {}


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_case(i):
    mod, pid, bins, cases, base = _G["mod"], _G["pid"], _G["bins"], _G["cases"], _G["base"]
    case = cases[i]
    scratch = os.path.join(base, "case%d" % i)
    os.makedirs(scratch, exist_ok=True)
    cx = Ctx(pid, bins, case, scratch)
    t = time.time()
    out = {"i": i, "violation": None, "inconclusive": None, "error": None}
    try:
        mod.run_case(cx, case)
    except Violation as v:
        out["violation"] = (str(v)[:20000], v.sig)
    except Inconclusive as v:
        out["inconclusive"] = str(v)[:2000]
    except Exception:
        out["error"] = traceback.format_exc()[-4000:]
    out.update(runs=cx.runs, counts=cx.counts, keys=list(cx.keys), dt=time.time() - t, notes=cx.notes,
               log=cx.log[-12:])
    if out["violation"]:
        rep = os.path.join(VERIF, "replays", pid, "case%d" % i)
        shutil.rmtree(rep, ignore_errors=True)
        os.makedirs(rep)
        with open(os.path.join(rep, "case.json"), "w") as f:
            json.dump({"property": pid, "case": case, "violation": out["violation"][0], "commands": cx.log,
                       "replay": "python3 check.py %s --replay %s" % (pid, rep)}, f, indent=1)
        sz = 0
        for fn in sorted(os.listdir(scratch)):
            p = os.path.join(scratch, fn)
            if os.path.isfile(p) and not os.path.islink(p) and os.path.getsize(p) < 20 << 20 and sz < 60 << 20:
                sz += os.path.getsize(p)
                shutil.copy(p, os.path.join(rep, fn))
        out["replay"] = rep
    shutil.rmtree(scratch, ignore_errors=True)
    return out


def load_known():
    """Known findings: list of dicts {property, sig, text}; 'fixed' entries suppress nothing."""
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    d = json.loads(line[len("finding: "):])
                    res.append(d)
    except FileNotFoundError:
        pass
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("props." + pid.lower())
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    t0 = time.time()
    rc = 2
    try:
        rc = _main(argv, pid, tier, seed, mod, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rc


def _main(argv, pid, tier, seed, mod, base, t0):
    bins = build(os.path.join(base, "bin"), getattr(mod, "BINS", ["flatjsonl"]))
    build_s = time.time() - t0
    if len(argv) > 2 and argv[1] == "--replay":
        with open(os.path.join(argv[2], "case.json")) as f:
            cases = [json.load(f)["case"]]
        first = 1
    else:
        cases = mod.cases(tier, random.Random("%s:%d:%s" % (pid, seed, tier)))
        first = len(cases)
        if tier == "quick":
            # More cases of the same kinds, as many as fit into a soft limit of time.
            x = int(os.environ.get("VERIF_QUICK_X", "0")) or getattr(mod, "QUICK_X", 6)
            cases = [dict(c) for _ in range(x) for c in cases]
        for i, c in enumerate(cases):
            c.setdefault("id", i)
            c.setdefault("seed", seed)
        if len(argv) > 2 and argv[1] == "--case":
            cases = [cases[int(argv[2])]]
            first = 1
    if os.environ.get("VERIF_SAMPLE"):
        # A quick random sample of cases for experiments, seconds.
        random.Random(seed).shuffle(cases)
        os.environ["VERIF_SOFT_S"] = os.environ["VERIF_SAMPLE"]
        first = 1
    _G.update(mod=mod, pid=pid, bins=bins, cases=cases, base=base)

    budget = float(os.environ.get("VERIF_BUDGET_S", "660" if tier == "quick" else "6000"))
    soft = float(os.environ.get("VERIF_SOFT_S", "60"))
    tot = {"runs": 0, "done": 0}
    counts, keys, samples, errors, inconc, viols = {}, set(), [], [], [], []
    kinds = {}
    known = [k for k in load_known() if k["property"] == pid]
    known_hit = {}
    truncated = False
    procs = min(getattr(mod, "PROCS", 8), max(1, len(cases)))
    with multiprocessing.Pool(procs, initializer=_worker_init) as pool:
        for o in pool.imap_unordered(_run_case, range(len(cases)), chunksize=1):
            tot["done"] += 1
            tot["runs"] += o["runs"]
            for k, v in o["counts"].items():
                if k.startswith("max_"):
                    counts[k] = max(counts.get(k, 0), v)
                else:
                    counts[k] = counts.get(k, 0) + v
            keys.update(o["keys"])
            c = cases[o["i"]]
            kd = kinds.setdefault(str(c.get("kind", "-")), [0, 0.0])
            kd[0] += 1
            kd[1] += o["dt"]
            if kd[0] <= 2 and len(samples) < 24:
                samples.append({"case": {k: v for k, v in c.items() if len(repr(v)) < 300},
                                "runs": [" ".join(x)[:400] for x in o["log"][:3]],
                                "observed": o["counts"], "notes": o["notes"]})
            if o["violation"]:
                msg, sig = o["violation"]
                hit = [k for k in known if k["sig"] in msg]
                if hit:
                    known_hit[hit[0]["sig"]] = hit[0]
                else:
                    viols.append((o["i"], msg, o["replay"]))
                    if len(viols) >= 3:
                        truncated = True
                        pool.terminate()
                        break
            if o["inconclusive"]:
                inconc.append((o["i"], o["inconclusive"]))
            if o["error"]:
                errors.append((o["i"], o["error"]))
                if len(errors) > 5 + tot["done"] // 500:
                    pool.terminate()
                    break
            if tier == "quick" and tot["done"] >= first and time.time() - t0 > soft:
                pool.terminate()
                break
            if time.time() - t0 > budget:
                truncated = True
                pool.terminate()
                break

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
        "violations": len(viols),
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "cases": tot["done"],
            "cases_planned": len(cases),
            "cases_by_kind": {k: v[0] for k, v in sorted(kinds.items())},
            "observed": {k: counts[k] for k in sorted(counts)},
            "inconclusive": len(inconc) + len(errors),
            "inconclusive_samples": [m[:300] for _, m in inconc[:3]] + [m[-300:] for _, m in errors[:3]],
            "truncated": truncated,
            "build_s": round(build_s, 1),
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    js = json.dumps(ev, indent=1)
    while len(js) > 60000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
        js = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        f.write(js)

    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(kinds.items()):
            print("  kind %-28s cases %5d  cpu %7.1fs" % (k, v[0], v[1]))
        print("  observed", json.dumps(ev["coverage"]["observed"]))
    for i, msg in inconc[:3]:
        print("inconclusive case %d: %s" % (i, msg[:500]))
    for i, e in errors[:3]:
        print("ERROR in case %d %s\n%s" % (i, json.dumps(cases[i])[:500], e))
    for i, msg, rep in viols:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        print("\n".join("    " + x for x in msg[:2500].split("\n")))
    print("%s %s: cases %d/%d runs %d distinct %d violations %d inconclusive %d errors %d wall %.1fs" % (
        pid, tier, tot["done"], len(cases), tot["runs"], len(keys), len(viols), len(inconc), len(errors), wall))
    sys.stdout.flush()
    if viols:
        return 1
    if len(errors) > max(2, tot["done"] // 500):
        return 2    # Few cases in which the monitor itself failed are inconclusive.
    if tot["done"] == 0 or (inconc and len(inconc) * 2 > tot["done"]):
        return 2
    return 0
