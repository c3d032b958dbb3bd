"""Readers of output formats, independent of the code under test."""
import csv
import gzip
import io
import re
import sqlite3
import subprocess

from .core import Violation

csv.field_size_limit(1 << 30)


def text(b):
    return b.decode("utf-8", "surrogateescape")


def decompress(name, b):
    if name.endswith(".gz"):
        try:
            return gzip.decompress(b)
        except Exception as e:
            raise Violation("output %s is not a complete gzip file: %s" % (name, e))
    if name.endswith(".zst"):
        p = subprocess.run(["zstd", "-dc"], input=b, capture_output=True)
        if p.returncode != 0:
            raise Violation("output %s is not a complete zstd file: %s" % (name, p.stderr[:200]))
        return p.stdout
    return b


class Tab:
    """Parsed table."""

    def __init__(self, cols, rows):
        self.cols = cols
        self.rows = rows


def read_csv(b, ncols=None):
    """Parses CSV bytes into Tab. A blank line is a record with one empty field."""
    s = text(b)
    if s and not s.endswith("\n"):
        raise Violation("CSV output does not end with a newline: ...%r" % s[-60:])
    try:
        recs = [r if r else [""] for r in csv.reader(io.StringIO(s, newline=""), strict=True)]
    except csv.Error as e:
        raise Violation("CSV output is malformed: %s" % e)
    if not recs:
        raise Violation("CSV output has no header")
    cols = recs[0]
    for i, r in enumerate(recs[1:]):
        if len(r) != len(cols):
            raise Violation("CSV row %d has %d fields, header has %d: %r" % (i + 1, len(r), len(cols), r[:5]))
    return Tab(cols, recs[1:])


def read_raw(b, delim, ncols):
    s = text(b)
    if s and not s.endswith("\n"):
        raise Violation("RAW output does not end with a newline: ...%r" % s[-60:])
    rows = []
    for i, l in enumerate(s.split("\n")[:-1]):
        r = l.split(delim) if delim else [l]
        if len(r) != ncols:
            raise Violation("RAW row %d has %d fields, expected %d: %r" % (i + 1, len(r), ncols, l[:300]))
        rows.append(r)
    return rows


def read_sqlite(path):
    """Returns {table: (cols, decltypes, rows)} in rowid order."""
    res = {}
    db = sqlite3.connect("file:%s?mode=ro" % path.replace("?", "%3f").replace("#", "%23"), uri=True)
    db.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
    try:
        chk = db.execute("PRAGMA integrity_check").fetchall()
        if chk != [("ok",)]:
            raise Violation("SQLite file is corrupt: %r" % chk[:3])
        for (tn,) in db.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY rowid").fetchall():
            q = '"' + tn.replace('"', '""') + '"'
            info = db.execute("PRAGMA table_info(%s)" % q).fetchall()
            rows = db.execute("SELECT * FROM %s ORDER BY rowid" % q).fetchall()
            res[tn] = ([i[1] for i in info], [i[2] for i in info], rows, [i[5] for i in info])
    except sqlite3.Error as e:
        raise Violation("SQLite file is not readable: %s" % e)
    finally:
        db.close()
    return res


_ident = r'"((?:[^"]|"")*)"'
_create = re.compile(r'CREATE TABLE ' + _ident + r' \(\n(.*?)\n\);\n', re.S)


class PG:
    """Parsed PostgreSQL dump: tables {name: (cols, types, rows)}, statements count."""

    def __init__(self):
        self.tables = {}
        self.copies = {}
        self.statuses = []
        self.status_rows = []
        self.primary = {}


class _Lines:
    def __init__(self, s, pos):
        self.s = s
        self.pos = pos

    def peek(self):
        e = self.s.find("\n", self.pos)
        return self.s[self.pos:] if e < 0 else self.s[self.pos:e + 1]

    def __iter__(self):
        return self

    def __next__(self):
        l = self.peek()
        if l == "":
            raise StopIteration
        self.pos += len(l)
        return l


def _idents(s, pos):
    """Parses an identifier at s[pos], returns (name, end)."""
    if s[pos] != '"':
        raise Violation("PostgreSQL dump: quoted identifier expected at %r" % s[pos:pos + 60])
    pos += 1
    res = []
    while True:
        e = s.find('"', pos)
        if e < 0:
            raise Violation("PostgreSQL dump: unterminated identifier")
        res.append(s[pos:e])
        if s[e + 1:e + 2] == '"':
            res.append('"')
            pos = e + 2
            continue
        return "".join(res), e + 1


def read_pg(b):
    s = text(b)
    res = PG()
    pos = 0
    n = len(s)

    def fail(msg):
        raise Violation("PostgreSQL dump: %s at byte %d: %r" % (msg, pos, s[pos:pos + 100]))

    while pos < n:
        if s[pos] in "\n \t":
            pos += 1
            continue
        if s.startswith("CREATE TABLE ", pos):
            name, pos = _idents(s, pos + len("CREATE TABLE "))
            if not s.startswith(" (", pos):
                fail("( expected")
            pos += 2
            cols, types, prim = [], [], []
            while True:
                while s[pos:pos + 1] in ("\n", " ", "\t") and pos < n:
                    pos += 1
                c, pos = _idents(s, pos)
                m = re.compile(r"[^,\n]*").match(s, pos)
                tp = m.group(0).strip()
                pos = m.end()
                prim.append("primary key" in tp.lower())
                tp = re.sub(r"(?i)\s*primary key", "", tp).strip()
                cols.append(c)
                types.append(tp)
                while s[pos:pos + 1] in ("\n", " ", "\t") and pos < n:
                    pos += 1
                if s[pos:pos + 1] == ",":
                    pos += 1
                    continue
                if s.startswith(");", pos):
                    pos += 2
                    break
                fail("column list is malformed")
            if name in res.tables:
                fail("table %r is declared twice" % name)
            if len(set(cols)) != len(cols):
                fail("table %r has duplicate columns" % name)
            res.tables[name] = (cols, types, [])
            res.primary[name] = prim
            continue
        if s.startswith("COPY ", pos):
            name, pos = _idents(s, pos + 5)
            if not s.startswith(" (", pos):
                fail("( expected")
            pos += 2
            cols = []
            while True:
                c, pos = _idents(s, pos)
                cols.append(c)
                if s[pos:pos + 1] == ",":
                    pos += 1
                    continue
                if s[pos:pos + 1] == ")":
                    pos += 1
                    break
                fail("COPY column list is malformed")
            tail = " FROM stdin WITH (FORMAT csv);\n"
            if not s.startswith(tail, pos):
                fail("COPY options")
            pos += len(tail)
            if name not in res.tables:
                fail("COPY to undeclared table %r" % name)
            tcols = res.tables[name][0]
            if cols != tcols:
                fail("COPY columns differ from declared columns of %r" % name)
            it = _Lines(s, pos)
            rd = csv.reader(it, strict=True)
            rows = res.tables[name][2]
            while True:
                l = it.peek()
                if l == "\\.\n":
                    pos = it.pos + len(l)
                    break
                if l == "":
                    fail("COPY block of %r is not terminated" % name)
                try:
                    r = next(rd)
                except csv.Error as e:
                    fail("CSV of %r is malformed: %s" % (name, e))
                if len(r) != len(cols):
                    fail("row of %r has %d fields instead of %d: %r" % (name, len(r), len(cols), r[:6]))
                rows.append(r)
            res.copies[name] = res.copies.get(name, 0) + 1
            continue
        if s.startswith("SELECT '", pos):
            e = s.find(";\n", pos)
            if e < 0:
                fail("unterminated statement")
            res.statuses.append(s[pos:e])
            # Rows of the main table by now.
            res.status_rows.append(len(next(iter(res.tables.values()))[2]) if res.tables else 0)
            pos = e + 2
            continue
        fail("unexpected statement")
    return res


def parts(tables, name):
    """Names of parts of a table in order."""
    res = [name]
    i = 2
    while "%s_part%d" % (name, i) in tables:
        res.append("%s_part%d" % (name, i))
        i += 1
    return res


def diff_tables(exp_cols, exp_rows, cols, rows, order=True, nocase=False, what="CSV"):
    """Compares expected and actual tables; exp_rows are dicts name -> text, rows are lists of text."""
    ncase = (lambda x: x.lower()) if nocase else (lambda x: x)
    ec = [ncase(c) for c in exp_cols]
    ac = [ncase(c) for c in cols]
    if len(set(ac)) != len(ac):
        raise Violation("%s has duplicate columns: %r" % (what, sorted(c for c in set(ac) if ac.count(c) > 1)[:10]),
                        "duplicate columns")
    miss = [c for c in ec if c not in set(ac)]
    extra = [c for c in ac if c not in set(ec)]
    if miss or extra:
        raise Violation("%s columns differ: missing %r, unexpected %r" % (what, miss[:10], extra[:10]), "columns")
    if order and ec != ac:
        i = next(i for i in range(len(ec)) if ec[i] != ac[i])
        raise Violation("%s columns order differs at %d: expected %r, got %r" % (what, i, ec[i:i + 5], ac[i:i + 5]),
                        "column order")
    if len(rows) != len(exp_rows):
        raise Violation("%s has %d rows, expected %d" % (what, len(rows), len(exp_rows)), "row count")
    idx = {ncase(c): c for c in exp_cols}
    names = [idx[c] for c in ac]
    cells = 0
    at = {n: i for i, n in enumerate(names)}
    for i, (e, r) in enumerate(zip(exp_rows, rows)):
        cells += len(e)
        if len(names) > 4 * len(e) and len(r) == len(names):
            # Sparse row.
            k = 0
            for n, v in e.items():
                if n in at:
                    if r[at[n]] != v:
                        break
                    k += len(v)
            else:
                if len("".join(r)) == k:
                    continue
        want = [e.get(n, "") for n in names]
        if want != list(r):
            for n, w, g in zip(names, want, r):
                if w != g:
                    raise Violation("%s row %d column %r: expected %r, got %r" % (what, i + 1, n[:200], w[:300], g[:300]),
                                    "cell")
    return cells
