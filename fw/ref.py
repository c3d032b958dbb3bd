"""Reference model of the whole tool: lines and options to the main table and transposed tables.

It composes effects of options the way they are documented: values of a line are listed (line prefix, sequence number,
document, data extracted from strings), keys are found in the scanned lines, selected, named, merged by name, then each
line gives one row of the main table and rows of transposed tables."""
import re

from . import model


class Spec:
    """Options of a run."""

    def __init__(self):
        self.case_sensitive = False
        self.prefix = None          # compiled bytes pattern
        self.sequence = False
        self.find = None            # string -> [(suffix, document)] for -extract-strings
        self.extract = {}           # key -> (suffix, string -> document or None)
        self.keep = set()
        self.limit_children = 0
        self.allow = set()
        self.include = []
        self.include_re = []        # compiled
        self.exclude = []
        self.exclude_re = []
        self.zero = False
        self.replace = {}           # key -> name
        self.replace_re = []        # [(compiled, template, snake function or None)]
        self.transpose = {}         # path -> table
        self.concat = None
        self.field = 0
        self.times = {}             # key -> string -> text
        self.offset = 0
        self.max = 0
        self.max_keys = 0


class Line:
    """Line of a file: text before JSON, document (None if there is no valid JSON)."""
    __slots__ = ("pre", "doc")

    def __init__(self, pre, doc):
        self.pre = pre
        self.doc = doc


class Result:
    def __init__(self):
        self.cols = []
        self.rows = []
        self.keys = []       # original key of each column
        self.missing = []    # names of columns without values by row
        self.tables = {}     # name of transposed table -> (cols, {(seq, prefix, segment): {col: text}})
        self.merged = 0
        self.hc = set()
        self.values = 0


def elements(sp, ln, seq, keep):
    """Elements of a line in order."""
    res = []
    if sp.sequence:
        res.append(model.Ev("._sequence", ("_sequence",), False, seq))
    if sp.prefix is not None and ln.pre is not None:
        for m in sp.prefix.finditer(ln.pre.encode("utf-8", "surrogateescape")):
            for j, g in enumerate(m.groups()):
                s = "[%d]" % j
                res.append(model.Ev("._prefix." + s, ("_prefix", s), False, (g or b"").decode("utf-8", "surrogateescape")))
    if ln.doc is not None:
        def hook(path, s):
            x = sp.extract.get(path)
            if x is not None:
                d = x[1](s)
                if d is not None:
                    return [(x[0], d)]
            return sp.find(s) if sp.find is not None else []
        res += model.walk(ln.doc, keep, hook)
    return res


def window(sp, files, scan):
    """Lines that are processed, with their numbers."""
    res = []
    for f in files:
        lns = f[sp.offset:]
        m = sp.max
        if scan and sp.max_keys and (m == 0 or sp.max_keys < m):
            m = sp.max_keys
        if m:
            lns = lns[:m]
        res += lns
    return res


def iszero(v):
    return v is None or v is False or v == "" or (not isinstance(v, (str, bool)) and float(str(getattr(v, "lit", v))) == 0)


def run(sp, files):
    r = Result()
    ck = (lambda k: k) if sp.case_sensitive else str.lower
    scanned = bool(sp.include_re) or not sp.include
    keep = set(sp.keep)

    def hit(rs, k):
        return any(x.search(k) for x in rs)

    excluded = {ck(k) for k in sp.exclude}
    gone = lambda k: ck(k) in excluded or hit(sp.exclude_re, k)
    cols = []       # (canonical key, original key, const value)
    have = set()

    def add(k, orig=None):
        if ck(k) not in have:
            have.add(ck(k))
            cols.append((ck(k), orig or k, k[6:] if k.startswith("const:") else None))

    order, first, segs = [], {}, {}
    scal, nonzero, conts = set(), set(), set()
    nulls = {}
    if scanned:
        lns = window(sp, files, True)
        if sp.limit_children:
            kids = {}
            for i, ln in enumerate(lns):
                for e in elements(sp, ln, i + 1, keep):
                    if len(e.segs) > 1 and e.segs[0] != "_prefix":
                        kids.setdefault(e.path[:-len(e.segs[-1]) - 1], set()).add(e.path)
            r.hc = {p for p, x in kids.items() if len(x) > sp.limit_children and p not in sp.allow}
            keep |= r.hc
            keep = {p for p in keep}
        for i, ln in enumerate(lns):
            for e in elements(sp, ln, i + 1, keep):
                c = ck(e.path)
                if any(p != e.path and e.path.startswith(p + ".") for p in r.hc):
                    continue
                if c not in first:
                    first[c] = e.path
                    segs[c] = e.segs
                    order.append(c)
                if e.container:
                    conts.add(e.path)
                    if e.path not in r.hc:
                        nonzero.add(c)
                    else:
                        nonzero.add(c)
                elif e.value is None:
                    nulls.setdefault(c, set()).add(e.path)
                else:
                    scal.add(c)
                if not e.container and not iszero(e.value):
                    nonzero.add(c)
        order = [c for c in order if c in scal or any(p not in conts for p in nulls.get(c, ()))]
    for k in sp.include:
        if not gone(k):
            add(k, first.get(ck(k)))
            segs.setdefault(ck(k), tuple(k.split(".")[1:]))
    for c in order:
        k = first[c]
        if gone(k):
            continue
        if sp.include_re:
            if hit(sp.include_re, k):
                add(k)
        elif not sp.include and (not sp.zero or c in nonzero):
            add(k)

    replace = {ck(k): v for k, v in sp.replace.items()}

    def named(k):
        if ck(k) in replace:
            return replace[ck(k)]
        for rx, tpl, snake in sp.replace_re:
            m = rx.search(k)
            if m:
                n = tpl
                for i, g in enumerate(m.groups()):
                    n = n.replace("${%d}" % (i + 1), re.sub(r"[\t\n\f\r ]+", "_", (g or "").strip()))
                return snake(n) if snake else n
        return k

    def where(s):
        for p, dst in sp.transpose.items():
            ps = tuple(p.split(".")[1:])
            if len(s) > len(ps) and s[:len(ps)] == ps:
                return ps, dst
        return None, None

    target = {}     # canonical key -> column, or (table, prefix, element, column)
    variants = {}
    const = {}
    for c, orig, cv in cols:
        s = segs.get(c, ())
        p, dst = where(s) if cv is None else (None, None)
        if dst is None:
            n = named(orig)
            target[c] = n
            if n not in r.cols:
                r.cols.append(n)
                r.keys.append(orig)
            if cv is not None:
                const[n] = cv
            continue
        el = s[len(p)]
        rest = s[len(p) + 1:]
        n = "." + ".".join(rest) if rest else "._value"
        n = variants.setdefault((dst, ck(n)), n)
        n = named(n)
        t = r.tables.setdefault(dst, ([], {}))
        if n not in t[0]:
            t[0].append(n)
        target[c] = (dst, p, el, n)

    for i, ln in enumerate(window(sp, files, False)):
        row = {}
        for e in elements(sp, ln, i + 1, keep):
            if e.container:
                continue
            t = target.get(ck(e.path))
            if t is None:
                continue
            n = t
            cells = row
            if not isinstance(t, str):
                n = t[3]
                cells = r.tables[t[0]][1].setdefault((i + 1, t[1], t[2]), {})
            if e.value is None:
                continue
            v = model.fmt(e.value)
            if isinstance(e.value, str):
                if sp.field:
                    v = v.encode("utf-8", "surrogateescape")[:sp.field].decode("utf-8", "surrogateescape")
                f = sp.times.get(e.path)
                if f is not None:
                    v = f(v)
            r.values += 1
            if n not in cells:
                cells[n] = v
            else:
                r.merged += 1
                if sp.concat is not None:
                    cells[n] += sp.concat + v
        row.update(const)
        r.rows.append(row)
        r.missing.append(set(r.cols) - set(row))
    return r
