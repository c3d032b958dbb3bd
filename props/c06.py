"""C06: renaming columns neither loses nor mixes data."""
import re

from fw import gen, model, outs
from fw.core import Violation
from fw.util import cfg, conc, sched_env

LEVEL = "exploration"
RULE = ("Random documents (values are unique per key) with random exact replacements, pattern replacements with captures "
        "and |to_snake_case, -replace-keys and -key-limit. The table must be the model table with columns in the same "
        "places: cells are compared by position, names of exactly and pattern replaced columns are computed "
        "independently, all names must be distinct, a generated name must be a snake_case tail of its key or the key "
        "itself, a limited name must keep the beginning of the name and fit the limit. Non-trivial: at least one name is "
        "changed; distinct by input, options and schedule.")
ASSUMPTIONS = ["patterns are mutually exclusive", "with several workers the order of columns is fixed with includeKeys",
               "held on the executions listed, not for all inputs"]


def cases(tier, rng):
    q = tier == "quick"
    res = []
    for kind, n in (("exact", 80), ("regex", 110), ("snake", 120), ("limit", 110), ("mixed", 140), ("collide", 60), ("captures", 40)):
        for i in range(n if q else n * 12):
            res.append({"kind": kind, "n": i})
    return res


def to_snake(s):
    s = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", s)
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s)
    s = re.sub(r"[^a-z0-9A-Z\t\n\f\r ()]+", "_", s)
    return s.replace("_ ", " ").strip("_").lower()


def tails(key):
    """All names that may be made of tail segments of a key."""
    segs = key.rstrip(".").split(".")
    res = {key}
    name = to_snake(segs[-1]).strip("[]")
    res.add(name)
    for s in reversed(segs[1:-1]):
        p = to_snake(s).strip("[]")
        name = p + "_" + name if name else p
        res.add(name)
    return res


KEYS = ["id", "Id2", "userId", "userID", "user_id", "HTTPCode", "code", "a b", "first name", "x-y", "x_y", "x y", "1", "22",
        "[0]", "é", "日本", "--", "(a)", "value", "Value2", "id0", "id1", "co0", "_x", "x_", "UPPER", "camelCaseKey2X",
        "tab\tkey", "long" * 20, "identity", "ab", "abc", "abcd", "q\"k", "sp  ace", "_value", "JSON", "0", "a$b"]


VARIANTS = ["ID", "Id", "userid", "CODE", "Code", "A b", "upper", "Upper", "Value", "VALUE2"]


def docs(rng, kind, cs):
    n = rng.choice((1, 2, 8, 40))

    def shape(d, top=False):
        r = rng.random()
        if top or (d > 0 and r < 0.35):
            ks, low = [], set()
            for k in rng.sample(KEYS + VARIANTS if cs else KEYS, rng.randint(2, 9) if top else rng.randint(1, 4)):
                if k.lower() not in low or cs:
                    low.add(k.lower())
                    ks.append(k)
            return {k: shape(d - 1) for k in ks}
        if d > 0 and r < 0.5:
            return [shape(d - 1) for _ in range(rng.randint(1, 3))]
        return None

    sh = shape(3, True)

    def fill(s, i, path):
        if s is None:
            if rng.random() < 0.1:
                return None
            return rng.choice(("L%d%s", "L%d%s", "%d%s")) % (i, path)
        if isinstance(s, dict):
            return {k: fill(x, i, path + "." + k) for k, x in s.items() if i == 0 or rng.random() < 0.8}
        return [fill(x, i, path + ".%d" % j) for j, x in enumerate(s)]
    return [fill(sh, i, "") for i in range(n)]


def chains(rng):
    """Objects nested to a certain depth, with values at the bottom only."""
    depth = rng.choice((1, 2, 5, 9, 10, 11, 13, 16, 26))
    paths = set()
    for _ in range(rng.randint(1, 5)):
        paths.add(tuple(rng.choice(("a", "b", "cd", "e f", " g", "h ", "i  j", "K", "1", "x-y", "$1", "{2}")) for _ in range(depth)))
    ds = []
    for i in range(rng.choice((1, 3, 20))):
        d = {}
        for p in sorted(paths):
            o = d
            for s in p[:-1]:
                o = o.setdefault(s, {})
            o[p[-1]] = "L%d%s" % (i, ".".join(p))
        ds.append(d)
    return ds


def esc(s):
    return re.sub(r"([\\.+*?()|\[\]{}^$])", r"\\\1", s)


def run_case(cx, case):
    rng = cx.rng
    kind = case["kind"]
    cs = rng.random() < 0.25
    ck = (lambda s: s) if cs else (lambda s: s.lower())
    ds = chains(rng) if kind == "captures" else docs(rng, kind, cs)
    t = model.table(ds, case_sensitive=cs)
    if not t.cols:
        return
    c = conc(rng)
    conf, a = {}, []
    keys = list(t.cols)
    if cs:
        a.append("-case-sensitive-keys")
    if c > 1:
        rng.shuffle(keys)
        conf["includeKeys"] = keys
    exact, regs = {}, []
    snake = kind in ("snake", "collide") or (kind in ("mixed", "limit") and rng.random() < 0.5)
    limit = 0
    if kind == "limit" or (kind in ("mixed", "collide") and rng.random() < 0.5):
        limit = rng.choice((3, 3, 4, 5, 8, 12, 20, 60))
        a += ["-key-limit", str(limit)]
    if kind in ("exact", "mixed", "collide") or (kind == "limit" and rng.random() < 0.3):
        for i, k in enumerate(rng.sample(keys, rng.randint(1, min(5, len(keys))))):
            name = rng.choice(("name%d", "Name %d", "n,%d", 'q"%d', "é%d", ".x.%d", "id%d", "co%d", "x" * 70 + "%d")) % i
            exact[k] = name
        if kind == "collide":
            # Target is what another key would get as its unique name.
            k = rng.choice(keys)
            tgt = sorted(tails(rng.choice(keys)) - set(keys))
            if tgt and k not in exact:
                exact[k] = rng.choice(tgt)
            if len(set(exact.values())) != len(exact):
                return
    if kind in ("regex", "mixed") or (kind in ("limit", "collide") and rng.random() < 0.3):
        heads = sorted({k.split(".")[1] for k in keys})
        rng.shuffle(heads)
        for h in heads[:rng.randint(1, 3)]:
            if h == "" or "*" in h or h.startswith("[") or (c == 1 and rng.random() < 0.0):
                continue
            sn = rng.random() < 0.4
            if rng.random() < 0.5:
                # Star syntax of certain depth.
                depth = rng.randint(1, 3)
                pat = "." + h + ".*" * depth
                if re.search(r"[+?()|^$\\]", h):
                    continue
                rx = re.compile(r"^\." + esc(h) + r"\.([^.]+)" * depth + "$")
                rep = rng.choice(("r_%s_" % to_snake(h), "R " + h + " ")) + rng.choice(("_", "::", " ")).join(
                    "${%d}" % (g + 1) for g in rng.sample(range(depth), depth))
            else:
                pat = r"^\." + esc(h) + r"\.?(.*)$"
                rx = re.compile(r"^\." + esc(h) + r"\.?([^\n]*)$")
                rep = "g_" + to_snake(h) + "_${1}"
                if any(k.startswith("." + h) and not (k == "." + h or k.startswith("." + h + ".")) for k in keys):
                    continue
            if kind == "collide" and rng.random() < 0.5:
                rep = rng.choice(("${1}", "id", "code", "value"))
                sn = False
            regs.append((pat, rx, rep + ("|to_snake_case" if sn else ""), rep, sn))
    if kind == "captures":
        depth = len(keys[0].split(".")) - 1
        if rng.random() < 0.5:
            pat = ".*" * depth
            rx = re.compile("^" + r"\.([^.]+)" * depth + "$")
        else:
            pat = "^" + rng.choice((r"\.([^.]+)", r"\.([^.]*)", r"[.]([^.]+?)")) * depth + "$"
            rx = re.compile(pat)
        use = [rng.randint(1, depth) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.7:
            use = list(range(1, depth + 1)) + use
        if rng.random() < 0.5:
            rng.shuffle(use)
        sn = rng.random() < 0.2
        rep = rng.choice(("", "n", "N ")) + rng.choice(("_", "/", "", " ")).join("${%d}" % g for g in use) + rng.choice(("", "", "!", ".x"))
        regs = [(pat, rx, rep + ("|to_snake_case" if sn else ""), rep, sn)]
    if snake:
        a.append("-replace-keys")

    # Names known in advance.
    lows = {ck(k): v for k, v in exact.items()}
    known, matched = {}, {}
    for k in keys:
        if ck(k) in lows:
            known[k] = lows[ck(k)]
            continue
        hits = []
        for pat, rx, _, rep, sn in regs:
            m = rx.match(k)
            if m:
                name = rep
                for i, g in enumerate(m.groups()):
                    name = name.replace("${%d}" % (i + 1), re.sub(r"[\t\n\f\r ]+", "_", (g or "").strip()))
                if sn:
                    name = to_snake(name)
                hits.append(name)
        if len(hits) > 1:
            return
        if hits and hits[0] != k:
            matched[k] = hits[0]
            if not limit or len(hits[0].encode()) <= limit:
                known[k] = hits[0]
    # Only names that do not coincide are in the scope of this property.
    vals = list(matched.values()) + [lows[ck(k)] for k in keys if ck(k) in lows]
    if len(set(vals)) != len(vals) or any(v in keys for v in vals):
        return

    if exact:
        conf["replaceKeys"] = dict(exact)
        if not cs and rng.random() < 0.4:
            # Letter case does not matter.
            conf["replaceKeys"] = {rng.choice((k, k.upper(), k.lower())) if k.isascii() else k: v for k, v in exact.items()}
        elif cs and rng.random() < 0.6:
            # Another letter case is another key.
            for k in list(exact):
                if k.swapcase() not in exact and k.swapcase() not in keys:
                    conf["replaceKeys"][k.swapcase()] = "decoy %d" % len(conf["replaceKeys"])
    if regs:
        conf["replaceKeysRegex"] = {p: r for p, _, r, _, _ in regs}
    if conf:
        a += cfg(conf)
    a += ["-concurrency", str(c)]
    data = gen.lines(rng, ds)
    cx.write("in.jsonl", data)
    env = sched_env(rng, 0.3)
    fn = outs.names()
    which = rng.choice((("csv",), ("csv",), outs.ALL))
    r = outs.run(cx, fn, ("csv",), a, env)
    tab = outs.csv_tab(cx, fn["csv"])
    if len(set(tab.cols)) != len(tab.cols):
        raise Violation("columns share a name: %r" % sorted(x for x in set(tab.cols) if tab.cols.count(x) > 1)[:5])
    if len(tab.cols) != len(keys):
        raise Violation("%d columns for %d keys %r: %r" % (len(tab.cols), len(keys), keys[:20], tab.cols[:20]))
    if len(tab.rows) != len(t.rows):
        raise Violation("%d rows, expected %d" % (len(tab.rows), len(t.rows)))
    changed = 0
    for k, n in zip(keys, tab.cols):
        if k in known:
            if n != known[k]:
                raise Violation("key %r is named %r, expected %r" % (k, n, known[k]))
        elif limit and len(n.encode("utf-8", "surrogateescape")) > limit:
            raise Violation("name %r of key %r is longer than %d" % (n, k, limit))
        else:
            cands = {matched[k]} if k in matched else tails(k) if snake else {k}
            ok = n in cands
            if not ok and limit:
                # Truncated name with a number.
                m = re.fullmatch(r"(.*?)(\d+)", n, re.S)
                b = n.encode("utf-8", "surrogateescape")
                ok = m is not None and any(
                    b[:j] == x.encode()[:j] and b[j:].isdigit()
                    for x in cands if len(x.encode()) > limit for j in range(len(b)))
            if not ok:
                raise Violation("key %r is named %r, it is none of %r" % (k, n, sorted(cands)[:6]))
        changed += n != k
    for i, (e, row) in enumerate(zip(t.rows, tab.rows)):
        for k, n, v in zip(keys, tab.cols, row):
            if e.get(k, "") != v:
                raise Violation("row %d column %r (key %r): expected %r, got %r" % (i + 1, n, k, e.get(k, "")[:200], v[:200]))
    cx.count("rows", len(t.rows))
    cx.count("cells", sum(len(r) for r in t.rows))
    cx.count("columns", len(keys))
    cx.count("renamed", changed)
    if len(which) > 1 and "".join(tab.cols).isascii() and len({x.lower() for x in tab.cols}) == len(tab.cols):
        outs.run(cx, fn, which, a, env)
        tab2 = outs.csv_tab(cx, fn["csv"])
        if sorted(tab2.cols) != sorted(tab.cols):
            raise Violation("names differ between runs: %r, %r" % (tab.cols, tab2.cols))
        outs.check_all(cx, fn, tab2, which)
    if changed:
        cx.seen(data + repr(a).encode() + repr(env).encode())
