"""Reference model: flattening of documents into the expected table."""
from .gen import Num, to_json


def fmt(v):
    """Text of a scalar cell, None for null."""
    if v is None:
        return None
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, Num):
        return v.lit
    if isinstance(v, int):
        return str(v)
    return v


def kind(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, Num):
        return "num"
    if isinstance(v, int):
        return "num"
    return "str"


class Ev:
    """Element seen during a walk."""
    __slots__ = ("path", "segs", "container", "value", "arr")

    def __init__(self, path, segs, container, value, arr=False):
        self.path = path
        self.segs = segs
        self.container = container
        self.value = value
        self.arr = arr


def walk(doc, keep=(), hook=None, skip=None):
    """Yields elements of a document in order; keep is a set of paths kept as JSON,
    hook(path, string) returns [(suffix, document)] extracted from a string,
    skip(path) stops descending."""
    res = []

    def w(v, path, segs):
        if isinstance(v, (dict, list, tuple)):
            arr = not isinstance(v, dict)
            if path != "":
                res.append(Ev(path, segs, True, v, arr))
                if path in keep:
                    res.append(Ev(path, segs, False, to_json(v)))
                    return
                if skip is not None and skip(path):
                    return
            it = enumerate(v) if arr else v.items()
            for k, x in it:
                s = "[%d]" % k if arr else k
                w(x, path + "." + s, segs + (s,))
            return
        res.append(Ev(path, segs, False, v))
        if hook is not None and isinstance(v, str):
            for suf, d in hook(path, v):
                w(d, path + "." + suf, segs + (suf,))

    w(doc, "", ())
    return res


class Table:
    """Expected table."""

    def __init__(self):
        self.cols = []      # names in order of first appearance
        self.rows = []      # list of {name: text}; missing key is empty
        self.kinds = {}     # name -> set of kinds
        self.vals = []      # list of {name: scalar value}


def table(ds, case_sensitive=False, keep=(), hook=None, pre=None, scan=None, skip=None):
    """Builds expected table of documents. None instead of a document is a line without data.
    pre(i) gives extra leading elements of a line [(path, segs, value)].
    scan limits number of lines that contribute columns."""
    t = Table()
    first = {}
    scalar, nulls, conts = {}, {}, set()
    order = []
    allev = []
    for i, d in enumerate(ds):
        evs = []
        if pre is not None:
            evs += [Ev(p, s, False, v) for p, s, v in pre(i)]
        if d is not None:
            evs += walk(d, keep, hook, skip)
        allev.append(evs)
        if scan is not None and i >= scan:
            continue
        for e in evs:
            c = e.path if case_sensitive else e.path.lower()
            if c not in first:
                first[c] = e.path
                order.append(c)
            if not e.container:
                if e.value is not None:
                    scalar[c] = True
                else:
                    nulls.setdefault(c, set()).add(e.path)
            else:
                conts.add(e.path)
    cols = []
    for c in order:
        # A key with only containers and nulls is not a column.
        if c in scalar or any(p not in conts for p in nulls.get(c, ())):
            cols.append(c)
    t.cols = [first[c] for c in cols]
    t.canon = cols
    names = {c: first[c] for c in cols}
    for evs in allev:
        row, vals = {}, {}
        for e in evs:
            if e.container:
                continue
            c = e.path if case_sensitive else e.path.lower()
            n = names.get(c)
            if n is None:
                continue
            t.kinds.setdefault(n, set()).add(kind(e.value))
            if vals.get(n) is None:
                vals[n] = e.value
                if e.value is not None:
                    row[n] = fmt(e.value)
        t.rows.append(row)
        t.vals.append(vals)
    return t


def element_index(seg):
    """Text of index of a transposed element: number of an array item or name of a property."""
    x = seg[1:-1]
    if seg[:1] == "[" and seg[-1:] == "]" and x.isascii() and x.isdigit() and str(int(x)) == x and int(x) < 1 << 63:
        return x
    return seg
