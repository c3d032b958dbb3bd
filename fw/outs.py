"""Reading and comparing all output formats of a run."""
import os
import re

from . import parse
from .core import Violation

ALL = ("csv", "raw", "sqlite", "pg")


def names(base="out", ext=""):
    return {"csv": base + ".csv" + ext, "raw": base + ".raw" + ext, "sqlite": base + ".sqlite", "pg": base + ".pg.sql" + ext}


def args(fn, which=ALL, delim="\x1f|"):
    a = []
    for k, f in (("csv", "-csv"), ("raw", "-raw"), ("sqlite", "-sqlite"), ("pg", "-pg-dump")):
        if k in which:
            a += [f, fn[k]]
    if "raw" in which:
        a += ["-raw-delim", delim]
    return a


def run(cx, fn, which, a, env=None, inp="in.jsonl", delim="\x1f|", timeout=60, bin="flatjsonl"):
    fs = [fn[k] for k in which]
    cx.rm(*fs)
    return cx.flat(["-verbosity", "0"] + args(fn, which, delim) + list(a) + ([inp] if inp else []), env=env,
                   timeout=timeout, outputs=fs, bin=bin)


def csv_tab(cx, fn):
    return parse.read_csv(parse.decompress(fn, cx.read(fn)))


def num_equal(s, v):
    """Text of a number and a value read from SQLite."""
    try:
        a = float(s)
    except ValueError:
        return False
    if isinstance(v, int) and not isinstance(v, bool):
        if re.fullmatch(r"-?\d+", s):
            return int(s) == v
        return a == float(v)
    b = float(v)
    if a == b:
        return True
    return abs(a - b) <= 2e-15 * max(abs(a), abs(b))


def sq_equal(s, v):
    """s is expected text (None for NULL), v is a value read from SQLite."""
    if v is None:
        return s is None
    if s is None:
        return False
    if isinstance(v, str):
        return s == v
    if isinstance(v, bytes):
        return s.encode("utf-8", "surrogateescape") == v
    return num_equal(s, v)


def join_parts(tables, name, maxcols, what, get):
    """Joins parts of a table by position, checks their shape. get(t) returns (cols, rows) with _seq_id first."""
    ps = parse.parts(tables, name)
    for tn in ps:
        if tn not in tables:
            raise Violation("%s: table %r is missing, there are %r" % (what, tn, sorted(tables)[:10]))
    cols, rows = [], None
    for n, tn in enumerate(ps):
        c, r = get(tables[tn])
        if not c or c[0] != "_seq_id":
            raise Violation("%s: table %r does not start with row number: %r" % (what, tn, c[:5]))
        if maxcols and len(c) > maxcols:
            raise Violation("%s: table %r has %d columns, limit is %d" % (what, tn, len(c), maxcols))
        if len(ps) > 1 and len(c) < 2:
            raise Violation("%s: part %r has no columns" % (what, tn))
        cols += c[1:]
        if rows is None:
            rows = [list(x) for x in r]
            continue
        if len(rows) != len(r):
            raise Violation("%s: part %r has %d rows, first part has %d" % (what, tn, len(r), len(rows)))
        for i, (a, b) in enumerate(zip(rows, r)):
            if str(a[0]) != str(b[0]):
                raise Violation("%s: part %r row %d has number %r, first part has %r" % (what, tn, i + 1, b[0], a[0]))
            a.extend(b[1:])
    return ps, cols, rows


def sqlite_tables(cx, fn):
    cx.read(fn)
    return parse.read_sqlite(cx.path(fn))


def pg_tables(cx, fn):
    return parse.read_pg(parse.decompress(fn, cx.read(fn)))


def same_cols(exp, cols, what):
    if len(set(cols)) != len(cols):
        raise Violation("%s has duplicate columns: %r" % (what, sorted(c for c in set(cols) if cols.count(c) > 1)[:5]))
    if set(exp) != set(cols):
        raise Violation("%s columns differ from CSV: missing %r, unexpected %r" % (
            what, [c for c in exp if c not in set(cols)][:8], [c for c in cols if c not in set(exp)][:8]))


def check_seq(rows, what):
    for i, r in enumerate(rows):
        if str(r[0]) != str(i + 1):
            raise Violation("%s row %d has row number %r" % (what, i + 1, r[0]))


def check_raw(cx, fn, tab, delim, rows=None):
    """RAW bytes are cells of the CSV rows joined as they are."""
    b = parse.decompress(fn, cx.read(fn))
    exp = "".join(delim.join(r) + "\n" for r in (tab.rows if rows is None else rows)).encode("utf-8", "surrogateescape")
    if b != exp:
        n = next((i for i, (x, y) in enumerate(zip(b, exp)) if x != y), min(len(b), len(exp)))
        raise Violation("RAW output differs from CSV at byte %d of %d (expected size %d): expected %r, got %r" % (
            n, len(b), len(exp), exp[max(0, n - 30):n + 60], b[max(0, n - 30):n + 60]))
    return len(b)


def check_sqlite(cx, tabs, name, tab, maxcols, nulls=None):
    """Main table in SQLite against CSV. nulls(i, col) tells if value is NULL rather than an empty string, or None."""
    what = "SQLite"
    ps, cols, rows = join_parts(tabs, name, maxcols, what, lambda t: (t[0], t[2]))
    same_cols(tab.cols, cols, what)
    if len(rows) != len(tab.rows):
        raise Violation("SQLite has %d rows, CSV has %d" % (len(rows), len(tab.rows)))
    check_seq(rows, what)
    pos = {c: i for i, c in enumerate(tab.cols)}
    for i, (r, e) in enumerate(zip(rows, tab.rows)):
        for c, v in zip(cols, r[1:]):
            s = e[pos[c]]
            if s == "" and v is None:
                continue
            if not sq_equal(s, v):
                raise Violation("SQLite row %d column %r: CSV has %r, SQLite has %r" % (i + 1, c[:200], s[:300], v))
            if nulls is not None and s == "" and nulls(i, c):
                raise Violation("SQLite row %d column %r: missing value is not NULL: %r" % (i + 1, c[:200], v))
    return ps


def check_pg(cx, pg, name, tab, maxcols):
    what = "PostgreSQL dump"
    ps, cols, rows = join_parts(pg.tables, name, maxcols, what, lambda t: (t[0], t[2]))
    same_cols(tab.cols, cols, what)
    if len(rows) != len(tab.rows):
        raise Violation("PostgreSQL dump has %d rows, CSV has %d" % (len(rows), len(tab.rows)))
    check_seq(rows, what)
    perm = [tab.cols.index(c) if len(cols) < 50 else None for c in cols]
    if len(cols) >= 50:
        pos = {c: i for i, c in enumerate(tab.cols)}
        perm = [pos[c] for c in cols]
    for i, (r, e) in enumerate(zip(rows, tab.rows)):
        for j, c in enumerate(cols):
            if r[j + 1] != e[perm[j]]:
                raise Violation("PostgreSQL dump row %d column %r: CSV has %r, dump has %r" % (
                    i + 1, c[:200], e[perm[j]][:300], r[j + 1][:300]))
    return ps


def check_all(cx, fn, tab, which=ALL, delim="\x1f|", table="flatjsonl", maxcols=500, nulls=None, only=True):
    """All enabled outputs agree with the parsed CSV table."""
    res = {}
    if "raw" in which:
        cx.count("raw_bytes", check_raw(cx, fn["raw"], tab, delim))
    if "sqlite" in which:
        tabs = sqlite_tables(cx, fn["sqlite"])
        ps = check_sqlite(cx, tabs, table, tab, maxcols, nulls)
        if only and set(tabs) != set(ps):
            raise Violation("SQLite has unexpected tables: %r" % sorted(set(tabs) - set(ps)))
        cx.count("sqlite_tables", len(ps))
        res["sqlite"] = tabs
    if "pg" in which:
        pg = pg_tables(cx, fn["pg"])
        ps = check_pg(cx, pg, table, tab, maxcols)
        if only and set(pg.tables) != set(ps):
            raise Violation("PostgreSQL dump has unexpected tables: %r" % sorted(set(pg.tables) - set(ps)))
        cx.count("pg_tables", len(ps))
        cx.count("pg_copy_blocks", sum(pg.copies.values()))
        res["pg"] = pg
    return res


def check_transposed(cx, fn, which, dst, header, exp, sq, pg, maxcols=500):
    """Transposed table in all outputs: columns of header in any order after sequence and index, sorted rows exp."""
    f = fn["csv"]
    base, e = os.path.splitext(f)
    tf = base + "_" + dst + e
    tb = parse.read_csv(parse.decompress(tf, cx.read(tf)))
    if tb.cols[:2] != header[:2] or sorted(tb.cols[2:]) != sorted(header[2:]):
        raise Violation("transposed table %r has columns %r, expected %r" % (dst, tb.cols[:20], header[:20]))

    def check(cols, rows, what):
        perm = [cols.index(x) for x in header]
        got = sorted([r[j] for j in perm] for r in rows)
        if got != exp:
            for g, w in zip(got + [None], exp + [None]):
                if g != w:
                    raise Violation("%s %r: expected row %r, got %r (%d rows, expected %d)" % (
                        what, dst, w, g, len(got), len(exp)))

    check(tb.cols, tb.rows, "transposed CSV")
    seqs = [int(r[0]) for r in tb.rows]
    if seqs != sorted(seqs):
        raise Violation("transposed rows of %r are not in order of lines" % dst)
    if "raw" in which:
        rb, re_ = os.path.splitext(fn["raw"])
        check_raw(cx, rb + "_" + dst + re_, tb, "\x1f|")
    for tabs, what, get in ((sq, "SQLite", lambda t: (t[0], t[2])), (pg and pg.tables, "PostgreSQL dump", lambda t: (t[0], t[2]))):
        if tabs is None:
            continue
        ps, cols, rows = join_parts(tabs, "flatjsonl_" + dst, maxcols, what, get)
        if sorted(cols) != sorted(header) or cols[:2] != header[:2]:
            raise Violation("%s %r has columns %r, expected %r" % (what, dst, cols, header))
        perm = [cols.index(x) for x in header]
        for r in rows:
            if str(r[0]) != str(r[1]):
                raise Violation("%s %r: row number %r differs from sequence %r" % (what, dst, r[0], r[1]))
        g = [[r[1 + j] for j in perm] for r in rows]
        if what != "SQLite":
            check(header, g, what)
            continue
        if len(g) != len(exp):
            raise Violation("SQLite %r has %d rows, expected %d" % (dst, len(g), len(exp)))
        # Rows are in the same order as in CSV.
        ci = [tb.cols.index(x) for x in header]
        for gr, cr in zip(g, tb.rows):
            for x, gv, j in zip(header, gr, ci):
                if not (cr[j] == "" and gv is None) and not sq_equal(cr[j], gv):
                    raise Violation("SQLite %r column %r: CSV has %r, SQLite has %r (%r)" % (dst, x, cr[j], gv, gr[:4]))
    cx.count("transposed_rows", len(exp))
