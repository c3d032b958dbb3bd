"""Workload generation: documents with known content, own JSON serializer."""
import string


class Num:
    """JSON number literal."""
    __slots__ = ("lit",)

    def __init__(self, lit):
        self.lit = lit

    def __repr__(self):
        return "Num(%s)" % self.lit

    def __eq__(self, o):
        return isinstance(o, Num) and o.lit == self.lit

    def __hash__(self):
        return hash(self.lit)


# --- serializer ----------------------------------------------------------------------------

_short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def js_str(s, rng=None, esc=0.0):
    """Serializes a string, a share of characters is escaped at random."""
    if rng is None or esc == 0:
        res = []
        for ch in s:
            o = ord(ch)
            if ch in _short:
                res.append(_short[ch])
            elif o < 0x20:
                res.append("\\u%04x" % o)
            else:
                res.append(ch)
        return '"' + "".join(res) + '"'
    res = []
    for ch in s:
        o = ord(ch)
        must = o < 0x20 or ch in '"\\'
        if 0xD800 <= o <= 0xDFFF:
            res.append(ch)  # surrogateescape'd raw byte
            continue
        if not must and rng.random() >= esc:
            res.append(ch)
            continue
        if ch in _short and rng.random() < 0.6:
            res.append(_short[ch])
        elif ch == "/" and rng.random() < 0.5:
            res.append("\\/")
        elif o > 0xFFFF:
            v = o - 0x10000
            f = "\\u%04x\\u%04x" if rng.random() < 0.5 else "\\u%04X\\u%04X"
            res.append(f % (0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF)))
        else:
            f = "\\u%04x" if rng.random() < 0.5 else "\\u%04X"
            res.append(f % o)
    return '"' + "".join(res) + '"'


def to_json(v, rng=None, ws=0.0, esc=0.0):
    """Serializes a document. Whitespace and escapes are added at random."""
    if rng is None or ws == 0:
        def sp():
            return ""
    else:
        def sp():
            if rng.random() < ws:
                return "".join(rng.choice(" \t ") for _ in range(rng.randint(1, 3)))
            return ""

    def w(v):
        if v is None:
            return "null"
        if v is True:
            return "true"
        if v is False:
            return "false"
        if isinstance(v, Num):
            return v.lit
        if isinstance(v, int):
            return str(v)
        if isinstance(v, str):
            return js_str(v, rng, esc)
        if isinstance(v, dict):
            return "{" + sp() + ",".join(
                sp() + js_str(k, rng, esc) + sp() + ":" + sp() + w(x) + sp() for k, x in v.items()) + "}"
        if isinstance(v, (list, tuple)):
            return "[" + sp() + ",".join(sp() + w(x) + sp() for x in v) + "]"
        raise TypeError(type(v))

    return w(v)


# --- scalars -------------------------------------------------------------------------------

WORDS = ("alpha beta gamma delta id name user host time value count status error message level request "
         "response body header path query type kind size total item node parent child label tag geo lat lon").split()

EVIL_STR = [
    "", " ", "  lead", "trail  ", ",", '"', '""', "a,b", 'say "hi"', "line1\nline2", "cr\rlf\r\n", "\t", "\\", "\\.",
    "\\N", "NULL", "null", "true", "false", "0", "1", "-1", "1e5", "007", "NaN", "'", "''", "';--", "`", "a|b", "a;b",
    "\x00", "nul\x00mid", "\x01\x1f", "\x7f", "é", "日本語", "😀", "a😀b", "\u2028\u2029", "\ufeff", "\ufffd",
    "{", "[", "}", "{}", "[]", "{\"a\":1}", "[1,2]", "http://", "=1+1", "#", "%s%d", "${1}", "\u0301",
    "\n", "\r", "\n\n", ",,,", "\",\"", "x" * 255, "y" * 4096, "<nop>", "const:x", "\\u0041", "\\n",
]


def rstr(rng, mode="mixed"):
    """Random string value."""
    if mode == "plain":
        return "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(rng.randint(1, 12)))
    r = rng.random()
    if r < 0.3:
        return rng.choice(EVIL_STR)
    if r < 0.6:
        return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
    if r < 0.8:
        n = rng.randint(1, 30)
        return "".join(chr(rng.choice((rng.randint(0, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xd7ff),
                                       rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff))))
                       for _ in range(n))
    if r < 0.97:
        return "".join(rng.choice("abc\"\\,\n\r \t';|{}[]:.") for _ in range(rng.randint(1, 20)))
    return rstr(rng, "plain") * rng.choice((10, 100, 1000, 3000))


EVIL_NUM = ["0", "-0", "1", "-1", "10", "1.0", "-1.50", "0.1", "0.10", "1e5", "1E5", "1e+5", "1E-7", "1.5e300",
            "123456789012345678901234567890", "9007199254740993", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "0.30000000000000004",
            "3.14159265358979323846264338327950288", "1e-300", "100000", "100000.0", "1000000", "1234567",
            "0.000001", "123456.789", "2.5e-3", "1e22", "1e23", "-0.0", "0e0", "0.0", "99999", "65536", "4294967296"]


def rnum(rng):
    r = rng.random()
    if r < 0.3:
        return Num(rng.choice(EVIL_NUM))
    if r < 0.6:
        return Num(str(rng.randint(-10 ** rng.randint(1, 18), 10 ** rng.randint(1, 18))))
    if r < 0.8:
        return Num(("%." + str(rng.randint(1, 17)) + "f") % rng.uniform(-1e6, 1e6))
    return Num(repr(rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30)))


def rscalar(rng, mode="mixed"):
    r = rng.random()
    if r < 0.45:
        return rstr(rng, mode)
    if r < 0.75:
        return rnum(rng)
    if r < 0.88:
        return rng.random() < 0.5
    return None


EVIL_KEY = ["a b", " ", "é", "日本", "😀k", "q\"uote", "it's", "co,mma", "new\nline", "tab\t", "back\\slash", "1", "0",
            "-", "_", "__", "$", "@type", "#", "a-b", "a/b", "a:b", "JSON", "URL", "_sequence2", "_value", "null", "true",
            "select", "k(1)", "<x>", "a=b", "\x01", "%41", "`", "[x]", "]", "[", "x]", "{", "NaN", "id2", "ID_3"]


def rkey(rng, mode="mixed"):
    if mode == "plain":
        return rng.choice(WORDS) + rng.choice(("", "", str(rng.randint(0, 99)), "_x", "Id"))
    r = rng.random()
    if r < 0.25:
        return rng.choice(EVIL_KEY)
    if r < 0.7:
        return rng.choice(WORDS) + rng.choice(("", "", str(rng.randint(0, 9)), "_id", "Name"))
    if r < 0.98:
        return "".join(rng.choice("abcdefghij_-é漢 ") for _ in range(rng.randint(1, 12)))
    return "".join(rng.choice("abcdefgh") for _ in range(rng.choice((100, 1000, 5200))))


# --- documents -----------------------------------------------------------------------------

class Schema:
    """A pool of key paths shared by lines of a workload, so that columns repeat over lines."""

    def __init__(self, rng, width=8, depth=3, keymode="mixed", valmode="mixed", arrays=True, typemix=0.15,
                 containers=True, fixed_types=False):
        self.rng = rng
        self.depth = depth
        self.keymode = keymode
        self.valmode = valmode
        self.arrays = arrays
        self.typemix = typemix
        self.fixed_types = fixed_types
        self.root = self._obj(width, depth if containers else 0)

    def _obj(self, width, depth):
        rng = self.rng
        props = {}
        low = set()
        for _ in range(rng.randint(1, width)):
            k = rkey(rng, self.keymode)
            if k.lower() in low or "." in k:
                continue
            low.add(k.lower())
            props[k] = self._node(width, depth - 1)
        return ("o", props)

    def _node(self, width, depth):
        rng = self.rng
        r = rng.random()
        if depth > 0 and r < 0.25:
            return self._obj(max(1, width // 2), depth)
        if depth > 0 and self.arrays and r < 0.42:
            return ("a", self._node(max(1, width // 2), depth - 1), rng.randint(0, 5))
        return ("s", rng.choice("sssnnnbx"))

    def scalar(self, t):
        rng = self.rng
        if not self.fixed_types and rng.random() < self.typemix:
            return rscalar(rng, self.valmode)
        if rng.random() < 0.05:
            return None
        if t == "s":
            return rstr(rng, self.valmode)
        if t == "n":
            return rnum(rng)
        if t == "b":
            return rng.random() < 0.5
        return rscalar(rng, self.valmode)

    def value(self, node, presence):
        rng = self.rng
        if node[0] != "s" and not self.fixed_types and rng.random() < self.typemix * 0.4:
            return rscalar(rng, self.valmode)
        if node[0] == "o":
            items = [(k, n) for k, n in node[1].items() if rng.random() < presence]
            if rng.random() < 0.3:
                rng.shuffle(items)
            return {k: self.value(n, presence) for k, n in items}
        if node[0] == "a":
            return [self.value(node[1], presence) for _ in range(rng.randint(0, node[2]))]
        return self.scalar(node[1])

    def doc(self, presence=None):
        rng = self.rng
        if presence is None:
            presence = rng.choice((0.3, 0.7, 0.95))
        items = [(k, n) for k, n in self.root[1].items() if rng.random() < presence]
        if rng.random() < 0.3:
            rng.shuffle(items)
        return {k: self.value(n, presence) for k, n in items}


def docs(rng, n, **kw):
    """n documents over a common schema, with occasional unique keys."""
    uniq = kw.pop("unique", 0.02)
    s = Schema(rng, **kw)
    res = []
    for i in range(n):
        d = s.doc()
        if rng.random() < uniq:
            d["u%d" % i] = rscalar(rng, s.valmode)
        res.append(d)
    return res


def lines(rng, ds, ws=None, esc=None, eol="\n", final=True):
    """Serializes documents to JSON lines (bytes)."""
    if ws is None:
        ws = rng.choice((0, 0, 0.2))
    if esc is None:
        esc = rng.choice((0, 0.1, 0.5))
    out = []
    for d in ds:
        out.append(d.encode("utf-8", "surrogateescape") if isinstance(d, str) else
                   d if isinstance(d, bytes) else to_json(d, rng, ws, esc).encode("utf-8", "surrogateescape"))
    e = eol.encode()
    b = e.join(out)
    return b + e if final else b


def deep(rng, depth, leaf):
    """Nested document."""
    v = leaf
    for i in range(depth):
        if rng.random() < 0.6:
            v = {rkey(rng, "plain"): v}
        else:
            v = [v]
    return {"deep": v}
