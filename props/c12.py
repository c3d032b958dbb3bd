"""C12: timestamps denote the same instant in the requested format and zone."""
import datetime as dt
import re
import zoneinfo

from fw import gen, model, outs
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
RULE = ("Random instants (with fractions, zones with and without daylight saving, negative and half-hour offsets, leap days) "
        "are written by an independent formatter in random layouts at configured keys, next to values that do not match the "
        "layout, other types and other keys. Oracle: text of the same instant in the output layout and zone, computed with "
        "Python datetime and zoneinfo; every other cell comes from the model. Non-trivial: at least one timestamp is "
        "converted; distinct by input, options and schedule.")
ASSUMPTIONS = ["wall clock times that are skipped or repeated by a change of zone offset are not generated",
               "system time zone database is used by both sides", "layouts with zone abbreviations are not used",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("plain", 160), ("zone", 200), ("format", 120), ("bad", 120), ("raw", 40), ("single", 80), ("merge", 50),
                    ("outs", 40), ("extract", 40), ("par", 12), ("transpose", 40), ("same", 40), ("near", 40), ("clock", 40)):
        for i in range(n * 2 if q else n * 20):
            res.append({"kind": kind, "n": i})
    return res


MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
MONTH = "January February March April May June July August September October November December".split()
DAY = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
TOK = re.compile(r"2006|January|Jan|Monday|Mon|01|02|_2|15|03|04|05|06|PM|-07:00|-0700|Z07:00|Z0700|[.]0+(?![0-9])|[.]9+(?![0-9])")


class T:
    """Instant with nanoseconds and an offset in minutes."""

    def __init__(self, d, ns, off):
        self.d = d          # aware datetime, whole seconds
        self.ns = ns
        self.off = off      # the layout tells the offset


def go_format(d, ns, layout):
    off = int(d.utcoffset().total_seconds()) // 60

    def o(colon):
        a = abs(off)
        return "%s%02d%s%02d" % ("-" if off < 0 else "+", a // 60, ":" if colon else "", a % 60)

    def rep(m):
        s = m.group(0)
        if s == "2006":
            return "%04d" % d.year
        if s == "06":
            return "%02d" % (d.year % 100)
        if s == "January":
            return MONTH[d.month - 1]
        if s == "Jan":
            return MON[d.month - 1]
        if s == "Monday":
            return DAY[d.weekday()]
        if s == "Mon":
            return DAY[d.weekday()][:3]
        if s == "01":
            return "%02d" % d.month
        if s == "02":
            return "%02d" % d.day
        if s == "_2":
            return "%2d" % d.day
        if s == "15":
            return "%02d" % d.hour
        if s == "03":
            return "%02d" % (d.hour % 12 or 12)
        if s == "04":
            return "%02d" % d.minute
        if s == "05":
            return "%02d" % d.second
        if s == "PM":
            return "PM" if d.hour >= 12 else "AM"
        if s == "-07:00":
            return o(True)
        if s == "-0700":
            return o(False)
        if s == "Z07:00":
            return "Z" if off == 0 else o(True)
        if s == "Z0700":
            return "Z" if off == 0 else o(False)
        if s[1] == "0":
            return "." + ("%09d" % ns)[:len(s) - 1]
        f = ("%09d" % ns)[:len(s) - 1].rstrip("0")
        return "." + f if f else ""

    return TOK.sub(rep, layout)


# Layout, has offset, digits of a fraction.
IN = [
    ("2006-01-02T15:04:05Z07:00", True, 0), ("2006-01-02T15:04:05.999999999Z07:00", True, 9),
    ("2006-01-02 15:04:05", False, 0), ("2006-01-02 15:04:05.000", False, 3), ("2006-01-02", False, None),
    ("02/Jan/2006:15:04:05 -0700", True, 0), ("20060102150405", False, 0), ("Jan _2 2006 15:04:05", False, 0),
    ("2006/01/02 03:04:05 PM", False, 0), ("Mon, 02 Jan 2006 15:04:05 -0700", True, 0), ("2006-01-02T15:04:05.000Z0700", True, 3),
    ("02 January 2006 15:04:05.000000 -07:00", True, 6), ("Monday, 02 Jan 2006 15:04:05", False, 0),
    ("02/01/2006 15:04:05", False, 0), ("01/02/2006 15:04:05", False, 0), ("2006-02-01 15:04:05", False, 0),
    ("2006-01-02T15:04:05-07:00", True, 0), ("2006-01-02T15:04:05Z", False, 0),
]
OUT = ["2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02 15:04:05", "2006-01-02",
       "2006-01-02 15:04:05.000000 -0700", "02/Jan/2006:15:04:05 -0700", "Monday, 02-Jan-06 15:04:05 -07:00", "20060102150405",
       "Jan _2 15:04:05.000", "2006-01-02,15:04:05 PM", "03:04PM", "15:04:05", "\"2006\"\n01", "2006|01|02", "Mon Jan _2 2006"]
# Texts of one layout may be valid in another one as a different time.
SAME = [i for i in IN if i[0] in ("02/01/2006 15:04:05", "01/02/2006 15:04:05", "2006-02-01 15:04:05", "2006-01-02 15:04:05")]
# Layouts without a year, the time is in a leap year.
CLOCK_IN = [("15:04:05 -0700", True, 0), ("15:04 -07:00", True, -1), ("03:04:05PM -0700", True, 0), ("Jan _2 15:04:05 -0700", True, 0),
            ("15:04:05", False, 0), ("Jan _2 15:04:05", False, 0), ("01-02T15:04:05.000Z07:00", True, 3), ("01/02", False, None)]
CLOCK_OUT = ["15:04:05", "15:04", "Jan _2 15:04:05 -0700", "01-02 15:04:05.000000 Z07:00", "03:04:05 PM", "02 January 15:04"]
CLOCK_ZONES = ["UTC", "Etc/GMT+5", "Etc/GMT-3", "Etc/GMT-14", "Etc/GMT+12"]
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns",
         "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Tokyo", "Europe/London", "America/Sao_Paulo", "Etc/GMT+12",
         "Africa/Casablanca", "Pacific/Chatham"]


def stable(local, tz):
    """Wall clock time exists once in the zone."""
    for h in (-49, -25, -24, -12, -3, 0, 3, 12, 24, 25, 49):
        try:
            x = (local + dt.timedelta(hours=h)).replace(tzinfo=tz)
        except OverflowError:
            return False
        if x.utcoffset() != local.replace(tzinfo=tz).utcoffset():
            return False
    return True


def instant(rng, layout, has_off, frac, tz, wide):
    """Returns text in the layout and aware time of it."""
    while True:
        if wide:
            y = rng.randint(1, 9998)
        else:
            y = rng.randint(1975, 2022)
        mo = rng.randint(1, 12)
        try:
            if "2006" not in layout and "06" not in layout:
                y, mo = 2000, rng.randint(1, 12) if "Jan" in layout or "01" in layout else 1
            local = dt.datetime(y, mo, rng.choice((rng.randint(1, 28), 29, 30, 31, 1)), rng.choice((rng.randint(0, 23), 0, 23, 12)),
                                rng.choice((rng.randint(0, 59), 0)), rng.randint(0, 59))
        except ValueError:
            continue
        if "02" not in layout and "_2" not in layout:
            local = local.replace(day=1)
        if frac == -1:
            local = local.replace(second=0)
        if frac is None:
            local = local.replace(hour=0, minute=0, second=0)
        ns = 0
        if frac and frac > 0:
            ns = rng.randint(0, 10 ** frac - 1) * 10 ** (9 - frac)
            if rng.random() < 0.2:
                ns = 0
        if has_off:
            off = rng.choice((0, 0, 60, 120, -300, 330, 345, -210, 765, -720, rng.randint(-719, 719)))
            d = local.replace(tzinfo=dt.timezone(dt.timedelta(minutes=off)))
        else:
            if not stable(local, tz):
                continue
            d = local.replace(tzinfo=tz)
        return go_format(d, ns, layout), d, ns


BAD = ["", " ", "not a time", "2021-13-01T00:00:00Z", "2021-02-30", "2021-02-30 10:00:00", "2021-01-01T25:00:00Z", "20210101", "1",
       "2021-01-01T10:00:00Z trailing", "2021-01-01 10:00:00 ", "T", "0000-00-00 00:00:00", "日本", "2021-01-01T10:00:00+99:99", "null",
       "12/31/2021", "10:61", "\n"]


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    n = rng.choice((1, 2, 5, 40, 120))
    if kind == "par":
        n = 1500
    c = 1 if rng.random() < 0.3 else conc(rng)
    env = sched_env(rng, 0.4 if kind != "par" else 0)
    if rng.random() < 0.3:
        # Time zone of the machine must not matter.
        env["TZ"] = rng.choice(ZONES)
    out_tz = None
    wide = False
    if kind in ("zone", "par", "bad", "outs", "extract", "merge", "transpose", "single") and (kind == "zone" or rng.random() < 0.6):
        out_tz = rng.choice(ZONES)
    elif rng.random() < 0.3:
        wide = True
    if kind == "clock":
        out_tz = rng.choice([None] + CLOCK_ZONES)
    tz = zoneinfo.ZoneInfo(out_tz) if out_tz else dt.timezone.utc
    out = rng.choice(CLOCK_OUT) if kind == "clock" else OUT[0] if kind in ("plain", "zone") and rng.random() < 0.6 else rng.choice(OUT)
    conf, a = {}, []
    pt = {}
    keys = rng.sample((".ts", ".time", ".a.b", ".arr.[1]", ".x y", ".When.At", ".tsx", ".é"), rng.randint(1, 4))
    if kind == "extract":
        keys = [".s.JSON.ts", ".s.JSON.in.[0]"]
        a.append("-extract-strings")
    if kind == "near":
        a.append("-case-sensitive-keys")
    if kind == "transpose":
        keys = [".arr.[0].ts", ".arr.[1].ts", ".obj.k.at"]
    for k in keys:
        lay = rng.choice(SAME if kind == "same" else CLOCK_IN if kind == "clock" else IN)
        pt[k] = ("RAW", None, None) if kind == "raw" or rng.random() < 0.03 else lay
    if kind == "transpose":
        pt[".arr.[1].ts"] = pt[".arr.[0].ts"]
    conf["parseTime"] = {k: v[0] for k, v in pt.items()}
    if rng.random() < 0.2:
        conf["parseTime"][".absent"] = "2006"
    if out != OUT[0] or rng.random() < 0.3:
        conf["outputTimeFormat"] = out
    if out_tz:
        conf["outputTZ"] = out_tz
    want = {}
    stats = {"converted": 0, "bad": 0}
    pool = []
    rows_exp = []

    def value(path, exp):
        lay = pt[path]
        r = rng.random()
        if r < 0.08:
            return None
        if r < 0.14:
            return rng.choice((gen.Num("1612345678"), True, gen.Num("20210101")))
        if lay[0] == "RAW":
            s = rng.choice(("2021-01-01T10:00:00+02:00", "raw text", "", gen.rstr(rng)))
            if kind == "extract":
                s = "2021-01-01T10:00:00+02:00"
            return s
        if kind == "bad" and rng.random() < 0.5 or rng.random() < 0.05:
            s = rng.choice(BAD)
            if s == "20210101" and lay[0].startswith("2006"):
                pass
            stats["bad"] += 1
            exp[path] = ("bad", s)
            return s
        if kind == "same" and pool and rng.random() < 0.8:
            s = rng.choice(pool)
            p = re.match(r"(\d+)(.)(\d+).(\d+) (\d+):(\d+):(\d+)\Z", s)
            if (p.group(2) == "/") == ("/" in lay[0]):
                x = [int(p.group(i)) for i in (1, 3, 4, 5, 6, 7)]
                o = {"02/01/2006": (2, 1, 0), "01/02/2006": (2, 0, 1), "2006-02-01": (0, 2, 1), "2006-01-02": (0, 1, 2)}[lay[0][:10]]
                try:
                    d = dt.datetime(*(x[j] for j in o), *x[3:])
                except ValueError:
                    stats["bad"] += 1
                    exp[path] = ("bad", s)
                    return s
                if stable(d, tz):
                    d = d.replace(tzinfo=tz)
                    exp[path] = ("time", go_format(d, 0, out))
                    stats["converted"] += 1
                    return s
        s, d, ns = instant(rng, *lay, tz, wide)
        if kind == "same":
            pool.append(s)
        if out_tz:
            d = d.astimezone(tz)
        exp[path] = ("time", go_format(d, ns, out))
        stats["converted"] += 1
        return s

    def noise():
        r = rng.random()
        if r < 0.3:
            return "2021-03-04T05:06:07Z"
        return gen.rscalar(rng, "plain")

    ds = []
    for i in range(n):
        d = {"id": "L%d" % i}
        exp = {}

        def put(k, v):
            d[k] = v
        for k in rng.sample(keys, rng.randint(1, len(keys))):
            if kind == "extract":
                continue
            segs = k.split(".")[1:]
            v = value(k, exp)
            if kind == "transpose":
                if segs[0] == "arr":
                    arr = d.setdefault("arr", [{"n": noise()} for _ in range(2)])
                    arr[int(segs[1][1:-1])]["ts"] = v
                else:
                    d.setdefault("obj", {})["k"] = {"at": v, "n": noise()}
                continue
            if segs[0] == "arr":
                d["arr"] = [noise(), v, noise()]
            elif len(segs) == 1:
                d[segs[0]] = v
            else:
                d.setdefault(segs[0], {"o": noise()})[segs[1]] = v
        if kind == "extract":
            inner = {}
            if rng.random() < 0.9:
                inner["ts"] = value(keys[0], exp)
            if rng.random() < 0.9:
                inner["in"] = [value(keys[1], exp), noise()]
            inner["o"] = noise()
            s = gen.to_json(inner)
            want[s] = inner
            d["s"] = s
        if kind == "near":
            # Keys with names close to the configured ones.
            d.setdefault("in", {})
            for k in keys:
                tail = k.split(".")[-1]
                for k2 in (tail + "x", "x" + tail, tail.swapcase()):
                    if rng.random() < 0.4:
                        d[rng.choice(("zz", "in"))] = {k2: noise(), tail: noise()}
        for k in ("n1", "ts2", "n3"):
            if rng.random() < 0.6:
                d[k] = noise()
        ds.append(d)
        rows_exp.append(exp)
    hook = (lambda p, s: [("JSON", want[s])] if s in want else []) if kind == "extract" else None
    t = model.table(ds, hook=hook, case_sensitive=True)
    sel = None
    merged = None
    if kind == "merge" and len(keys) > 1:
        conf["replaceKeys"] = {k: "merged" for k in keys}
        merged = [k for k in keys if k in t.cols]
        if rng.random() < 0.5:
            conf["concatDelimiter"] = "|"
    if kind == "transpose":
        conf["transpose"] = {".arr": "arr", ".obj": "obj"}
    if kind == "single":
        k = rng.choice(keys)
        sel = [k]
        if rng.random() < 0.4:
            sel.append(".n1")
        if len(sel) == 1 and rng.random() < 0.5:
            a += ["-get-key", k]
        else:
            conf["includeKeys"] = sel
    a += cfg(conf) + ["-concurrency", str(c)]
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    fn = outs.names()
    which = outs.ALL if kind in ("outs", "transpose") else ("csv",)
    outs.run(cx, fn, which, a, env)

    def cell(i, k):
        """Expected text, or ("bad", value)."""
        e = rows_exp[i].get(k)
        if e is None:
            return t.rows[i].get(k, "")
        return e[1] if e[0] == "time" else e

    def check(i, k, got, where="CSV"):
        w = cell(i, k)
        if isinstance(w, tuple):
            if not got.startswith("failed to parse time"):
                raise Violation("%s row %d key %r: value %r does not match format %r, got %r" % (
                    where, i + 1, k, w[1], conf["parseTime"].get(k), got[:300]))
            return
        if got != w:
            raise Violation("%s row %d key %r: expected %r, got %r; source %r, options %r" % (
                where, i + 1, k, w, got[:300], t.rows[i].get(k), conf))

    tab = outs.csv_tab(cx, fn["csv"])
    if len(tab.rows) != n:
        raise Violation("%d rows, expected %d" % (len(tab.rows), n))
    if kind == "transpose":
        exp = {"arr": {}, "obj": {}}
        for i, r in enumerate(t.rows):
            for k, v in r.items():
                p = k.split(".")
                if p[1] in exp:
                    idx = p[2].strip("[]") if p[1] == "arr" else p[2]
                    exp[p[1]].setdefault((str(i + 1), idx), {})["." + ".".join(p[3:])] = (i, k)
        for name, e in exp.items():
            if not any(k.startswith("." + name + ".") for k in t.cols):
                continue
            tt = outs.csv_tab(cx, "out_%s.csv" % name)
            seen = set()
            for r in tt.rows:
                g = dict(zip(tt.cols, r))
                key = (g.pop("._sequence"), g.pop("._index"))
                if key in seen:
                    raise Violation("transposed row %r is repeated" % (key,))
                seen.add(key)
                src = e.get(key, {})
                for col, got in g.items():
                    if col in src:
                        check(*src[col], got, where="transposed CSV")
                    elif got != "":
                        raise Violation("transposed row %r column %r has unexpected value %r" % (key, col, got[:200]))
            if not set(e) <= seen:
                raise Violation("transposed rows %r are missing" % sorted(set(e) - seen)[:5])
        main = [k for k in t.cols if not k.startswith((".arr.", ".obj."))]
    else:
        main = sel or t.cols
    if merged:
        main = [k for k in main if k not in merged]
    names = set(main) | ({"merged"} if merged else set())
    if set(tab.cols) != names:
        raise Violation("columns differ: %r, expected %r" % (sorted(tab.cols), sorted(names)))
    for i, r in enumerate(tab.rows):
        g = dict(zip(tab.cols, r))
        for k in main:
            check(i, k, g[k])
        if merged:
            order = [e.path for e in model.walk(ds[i]) if not e.container and e.path in merged and e.value is not None]
            parts = [cell(i, k) for k in order]
            if "concatDelimiter" not in conf:
                parts = parts[:1]
            if any(isinstance(p, tuple) for p in parts):
                if not any("failed to parse time" in x for x in [g["merged"]]):
                    raise Violation("row %d: merged value %r has no failure, sources %r" % (i + 1, g["merged"], parts))
            elif g["merged"] != "|".join(parts):
                raise Violation("row %d: merged value %r, expected %r" % (i + 1, g["merged"], "|".join(parts)))
    if kind == "outs":
        outs.check_all(cx, fn, tab, which)
    cx.count("rows", n)
    for k, v in stats.items():
        cx.count(k, v)
    if stats["converted"]:
        cx.seen(data + repr(a).encode() + repr(env).encode())
