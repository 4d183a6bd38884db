"""Reconciliation: do emitted segments reproduce bytes [a, b) of an input blob?

Every emitted segment must either be the very bytes found at the cursor, or a
value the facts of this partition show to be stored there.  Anything else is a
mismatch; a mismatch that involves an unknown term is 'undecided'.
"""

import struct as _struct

from .values import *
from .engine import has_unk, Undecided


class Result:
    def __init__(self):
        self.ok = True
        self.kind = None
        self.msg = None
        self.site = None
        self.fills = []
        self.cursor = None

    def fail(self, kind, msg, site=None, cursor=None):
        self.ok = False
        self.kind = kind
        self.msg = msg
        self.site = site
        self.cursor = cursor
        return self


def fstr_bytes(s):
    """Canonical stored form of a constant string."""
    if s == "":
        return b"\0\0\0\0"
    if s.isascii():
        d = s.encode("ascii") + b"\0"
        return len(d).to_bytes(4, "little", signed=True) + d
    d = s.encode("utf-16-le", "surrogatepass") + b"\0\0"
    return (-(len(d) // 2)).to_bytes(4, "little", signed=True) + d


def fields_at(eng, blob, cur):
    return eng.fields.get((blob, cur), [])


def describe(eng, blob, cur):
    fs = fields_at(eng, blob, cur)
    if not fs:
        return "no field was read at this position"
    k, t, site = fs[0]
    return "%s read by %s" % (fname(k, t), fmt_site(site))


def fname(k, t):
    if k == "int":
        return "%s%d" % ("i" if t.args[3] else "u", 8 * t.args[2])
    if k == "flt":
        return "f%d" % (8 * t.args[2])
    return k


def fmt_site(site):
    if not site:
        return "?"
    return "%s:%s (%s)" % (site[0], site[2], site[1])


def const_match(eng, res, data, blob, cur):
    """How many leading bytes of constant `data` are justified at cur (0 = none)."""
    exp = eng.__dict__.get("expected", {}).get((blob, cur))
    if exp is not None:
        size, val, label, signed = exp
        v = eng.canon(val)
        if type(v) is int and len(data) >= size and data[:size] == v.to_bytes(size, "little", signed=signed):
            res.fills.append(("expected", label, cur, blob))
            return size
    best = 0
    for k, t, site in fields_at(eng, blob, cur):
        if k == "int":
            size, signed, endian = t.args[2], t.args[3], t.args[4]
            v = eng.canon(atom(t))
            order = "little" if endian == "<" else "big"
            if len(data) < size:
                continue
            if type(v) is int:
                try:
                    e = v.to_bytes(size, order, signed=signed)
                except OverflowError:
                    continue
                if data[:size] == e:
                    best = max(best, size)
            else:
                lo, hi = eng.bounds(v)
                if lo is not None and lo >= 1 and data[:size] == (1).to_bytes(size, order):
                    res.fills.append(("bool1", t, cur, blob))
                    best = max(best, size)
        elif k == "flt" and eng.float_class is not None and "finite" not in eng.fclasses(t):
            size, endian = t.args[2], t.args[3]
            if len(data) >= size and size in (4, 8):
                v = _struct.unpack(endian + ("f" if size == 4 else "d"), data[:size])[0]
                if v != v:
                    res.fills.append(("nan", t, cur, blob))
                    best = max(best, size)
        elif k == "fstr":
            v = eng.res(t)
            if isinstance(v, str):
                e = fstr_bytes(v)
                if data[: len(e)] == e:
                    best = max(best, len(e))
    return best


def reconcile(eng, segs, blob, a, b):
    res = Result()
    cur = eng.canon(a)
    segs = list(segs)
    i = 0
    while i < len(segs):
        s = segs[i]
        i += 1
        res.cursor = cur
        if isinstance(s, Sub):
            sa, sb = eng.canon(s.a), eng.canon(s.b)
            if sa == sb:
                continue
            if s.blob != blob or sa != cur:
                # a structurally different spelling of the same content?
                exp = eng.__dict__.get("expected", {}).get((blob, cur))
                if exp is not None and s.blob == blob:
                    t = None
                    for k, f, _ in fields_at(eng, s.blob, sa):
                        if k == "int" and f.args[2] == exp[0] and eng.canon(add(sa, exp[0])) == sb:
                            t = f
                    if t is not None and eng.canon(atom(t)) == eng.canon(exp[1]):
                        cur = eng.canon(add(cur, exp[0]))
                        continue
                # values equal through facts (both pinned to the same constant)
                ln = eng.canon(sub(sb, sa))
                pin = pinned(eng, s.blob, sa, ln)
                if pin is not None:
                    segs.insert(i, CB(pin, s.site))
                    continue
                u = has_unk(sa) or has_unk(sb) or has_unk(cur)
                return res.fail(
                    "undecided" if u else "mismatch",
                    "bytes read from %s@%s are written where %s@%s is expected (%s)" % (s.blob, sa, blob, cur, describe(eng, blob, cur)),
                    s.site,
                    cur,
                )
            cur = sb
            continue
        if isinstance(s, CB):
            data = s.data
            while data:
                n = const_match(eng, res, data, blob, cur)
                if not n:
                    # maybe a zero-length remainder of the region
                    return res.fail(
                        "mismatch",
                        "constant %r is written where the input holds %s" % (data[:16], describe(eng, blob, cur)),
                        s.site,
                        cur,
                    )
                data = data[n:]
                cur = eng.canon(add(cur, n))
            continue
        if isinstance(s, IntSeg):
            r = int_match(eng, res, s, blob, cur)
            if r is True:
                cur = eng.canon(add(cur, s.size))
                continue
            return res.fail(
                "undecided" if has_unk(s.val) else "mismatch",
                "value %r written as %s%d does not equal the input field at %s (%s)" % (s.val, "i" if s.signed else "u", s.size * 8, cur, describe(eng, blob, cur)),
                s.site,
                cur,
            )
        if isinstance(s, RepSeg):
            n = eng.norm_rep(s)
            if not isinstance(n, RepSeg):
                segs.insert(i, n)
                continue
            # locate the loop record starting here to explain
            for lrs in eng.looprec.values():
                for lr in lrs:
                    if lr.blob == blob and eng.canon(lr.start) == cur:
                        r = reconcile(eng, s.body, lr.blob, lr.bstart, lr.bend)
                        if eng.canon(lr.count) != eng.canon(s.count):
                            return res.fail(
                                "undecided" if has_unk(s.count) else "mismatch",
                                "sequence written %r times, %r elements were read" % (s.count, lr.count),
                                s.site,
                                cur,
                            )
                        if not r.ok:
                            return res.fail(r.kind, "per element: " + r.msg, r.site or s.site, r.cursor)
            return res.fail(
                "undecided" if has_unk(s) else "mismatch",
                "a repeated group %r is written where the input holds %s" % (s, describe(eng, blob, cur)),
                s.site,
                cur,
            )
        if isinstance(s, TB) and s.term.op == "fsenc":
            v = eng.res(s.term.args[0])
            if isinstance(v, str):
                segs.insert(i, CB(fstr_bytes(v), s.site))
                continue
            done = False
            for k, t, _ in fields_at(eng, blob, cur):
                if k == "fstr" and eng.same(t, v):
                    cur = eng.canon(add(cur, atom(T("fslen", (blob, cur), "int"))))
                    done = True
                    break
            if done:
                continue
        return res.fail(
            "undecided" if has_unk(s) else "mismatch",
            "%r is written where the input holds %s" % (s, describe(eng, blob, cur)),
            s.site,
            cur,
        )
    if b is not None and cur != eng.canon(b):
        u = has_unk(cur) or has_unk(b)
        lo, hi = eng.bounds(sub(b, cur))
        if lo is not None and hi is not None and lo == hi == 0:
            return res
        return res.fail(
            "undecided" if u else "leftover",
            "output ends at %s but the input region extends to %s: bytes in between are lost (%s)" % (cur, eng.canon(b), describe(eng, blob, cur)),
            segs[-1].site if segs else None,
            cur,
        )
    res.cursor = cur
    return res


def pinned(eng, blob, a, ln):
    """Constant bytes of region when the facts pin them (single int/string field)."""
    for k, t, _ in fields_at(eng, blob, a):
        if k == "int":
            v = eng.canon(atom(t))
            if type(v) is int and ln == t.args[2]:
                return v.to_bytes(t.args[2], "little" if t.args[4] == "<" else "big", signed=t.args[3])
        elif k == "fstr":
            v = eng.res(t)
            if isinstance(v, str) and ln == eng.canon(atom(T("fslen", (blob, a), "int"))):
                return fstr_bytes(v)
    return None


def int_match(eng, res, s, blob, cur):
    exp = eng.__dict__.get("expected", {}).get((blob, cur))
    if exp is not None and exp[0] == s.size:
        if is_int(s.val) and eng.canon(sub(s.val, exp[1])) == 0:
            return True
        lo, hi = eng.bounds(sub(s.val, exp[1])) if is_int(s.val) else (None, None)
        if lo is not None and lo == hi == 0:
            return True
        return False
    for k, t, site in fields_at(eng, blob, cur):
        if k != "int" or t.args[2] != s.size or (t.args[4] != s.endian and s.size > 1):
            continue
        v = s.val
        if is_int(v):
            d = eng.canon(sub(v, atom(t)))
            if d == 0:
                if t.args[3] == s.signed:
                    return True
                lo, hi = eng.atom_range(t)
                if lo >= 0 and hi < (1 << (8 * s.size - 1)):
                    return True
                if s.signed is False and lo is not None and lo >= 0:
                    return True
        if isinstance(v, T) and v.op == "ite":
            c, x, y = v.args
            x, y = eng.res(x), eng.res(y)
            if x in (1, True) and y in (0, False) and isinstance(c, T):
                a = bool_source(eng, c)
                if a is not None and a == eng.canon(atom(t)):
                    res.fills.append(("bool", t, cur, blob))
                    return True
    return False


def bool_source(eng, c):
    """If boolean term c means 'unsigned field != 0', the field's Lin."""
    if c.op == "not":
        d = c.args[0]
        if isinstance(d, T) and d.op == "cmp":
            rel, diff = d.args
            diff = eng.canon(diff)
            if rel == "==" and isinstance(diff, Lin):
                return diff if lin_atom(diff) is not None else (neg(diff) if lin_atom(neg(diff)) is not None else None)
            if rel == "<" and isinstance(diff, Lin):
                # not (x - 1 < 0)  <=>  x >= 1
                x = add(diff, 1)
                if lin_atom(x) is not None:
                    lo, _ = eng.bounds(x)
                    if lo is not None and lo >= 0:
                        return x
        return None
    if c.op == "cmp":
        rel, diff = c.args
        diff = eng.canon(diff)
        if rel == "<" and isinstance(diff, Lin):
            # -x < 0  <=> x > 0
            x = neg(diff)
            if lin_atom(x) is not None:
                lo, _ = eng.bounds(x)
                if lo is not None and lo >= 0:
                    return x
    return None
