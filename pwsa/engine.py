"""Path-partition state of one abstract run: facts, decisions, streams, loops."""

import math
import re
import struct as _struct
from .values import *


class Prune(Exception):
    """This partition is infeasible (contradicts recorded facts)."""


class Undecided(Exception):
    """The analysis does not understand a construct; no verdict for the partition."""


class AbsRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class AbsExit(Exception):
    """exit()/sys.exit() of the analysed program."""

    def __init__(self, code):
        Exception.__init__(self, repr(code))
        self.code = code


class Restart(Exception):
    """Something was learned (an induction variable); run this partition again."""


def unk(why, ty="any"):
    return T("unk", (why,), ty)


def has_unk(x, depth=0):
    if isinstance(x, T):
        if x.op == "unk":
            return True
        return any(has_unk(a, depth + 1) for a in x.args)
    if isinstance(x, Lin):
        return any(has_unk(a) for a, _ in x.t)
    if isinstance(x, tuple):
        return any(has_unk(a) for a in x)
    if isinstance(x, (Sub,)):
        return has_unk(x.a) or has_unk(x.b)
    if isinstance(x, (IntSeg, FltSeg)):
        return has_unk(x.val)
    if isinstance(x, TB):
        return has_unk(x.term)
    if isinstance(x, RepSeg):
        return has_unk(x.body) or has_unk(x.count)
    if isinstance(x, BytesV):
        return has_unk(x.segs)
    if isinstance(x, ListV) and depth < 6:
        return any(has_unk(v, depth + 1) for it in x.items for v in (it[1:] if it[0] != "r" else [t[1] for t in it[3]]))
    return False


class LoopFrame:
    def __init__(self, lid, count):
        self.id = lid
        self.count = count
        self.streams = {}
        self.lists = {}
        self.dictreps = []
        self.pairs = set()
        self.idx = atom(T("idx", (lid,), "int"))
        self.attrs = {}


class LoopRec:
    def __init__(self, lid, blob, count, start, bstart, bend, end):
        self.lid = lid
        self.blob = blob
        self.count = count
        self.start, self.bstart, self.bend, self.end = start, bstart, bend, end


RANGE_OPS = {"idx": (0, None), "cnt": (0, None), "len": (0, None), "fslen": (4, None), "strlen": (0, None), "oplen": (0, None), "blen": (0, None), "pe": (0, None), "le": (0, None), "lp": (0, None)}


FCLASSES = frozenset(["nan", "inf", "-inf", "finite"])


STR_FUN = {
    "lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix",
    "replace", "split", "rsplit", "partition", "rpartition", "splitlines", "startswith", "endswith", "isascii", "isdigit",
    "isalpha", "isalnum", "isupper", "islower", "isidentifier", "isnumeric", "isspace", "zfill",
}


def str_fun_base(t):
    """The string a derived term (lower(x), x[3:], x.split('::')[-1] ...) is computed from, or None."""
    b = t
    while isinstance(b, T) and b.args and (b.op in STR_FUN or b.op in ("slice", "chop", "tail", "item")):
        b = b.args[0]
    return b if b is not t and isinstance(b, T) and b.op in ("fstr", "op", "decode", "sym") else None


def str_fun(t, base, c):
    """The value of a derived term when its base is the constant c (None: cannot tell)."""
    if t == base:
        return c
    v = str_fun(t.args[0], base, c)
    if v is None:
        return None
    try:
        rest = [tuple(a) if isinstance(a, list) else a for a in t.args[1:]]
        if any(isinstance(a, (T, Lin)) or type(a) not in (int, str, tuple, type(None)) for a in rest):
            return None
        if t.op == "slice":
            return v[slice(*rest)]
        if t.op == "chop":
            return v[: len(v) - rest[0]]
        if t.op == "tail":
            return v[len(rest[0]) :] if v.startswith(rest[0]) else None
        if t.op == "item":
            return v[rest[0]]
        if type(v) is not str:
            return None
        return getattr(v, t.op)(*rest)
    except Exception:
        return None


class Eng:
    def __init__(self, prefix=(), learned=None):
        self.prefix = prefix
        self.trace = []
        self.di = 0
        self.subst = {}
        self.dom = {}
        self.iv = {}
        self.bools = {}
        self.dmap = {}  # string term -> terms computed from it that were decided
        self.fields = {}  # (blob, start) -> list of (kind, term, site)
        self.events = []
        self.loops = []
        self.looprec = {}
        self.rorder = {}  # (blob, position) -> order of first read
        self.learned = learned if learned is not None else {}
        self.lid = 0
        self.try_depth = 0
        self.order = {}
        self._canon = {}
        self.labels = []
        self.fresh_n = 0
        self.fills = []
        self.notes = []
        self.site = None
        self.reads = 0
        self.short_mode = False
        self.gen0 = False
        self.edited = False  # when set: written values are kept apart from the input's bytes
        self.float_class = None  # when set: every stored float is of this class (or all of one of these)

    # ------------------------------------------------------------ decisions
    def choose(self, n, label):
        if n <= 1:
            return 0
        i = self.di
        d = self.prefix[i] if i < len(self.prefix) else 0
        self.di += 1
        self.trace.append((d, n, label))
        self.labels.append((label, d))
        if len(self.trace) > 400:
            raise Undecided("too many decisions on one path")
        return d

    def fresh(self, op, ty="any", *args):
        self.fresh_n += 1
        return T(op, args + (self.fresh_n,), ty)

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["site"] = self.site() if self.site else None
        kw["loops"] = tuple(f.id for f in self.loops)
        self.events.append(kw)
        return kw

    def cur_site(self):
        return self.site() if self.site else None

    # ------------------------------------------------------------ canonical forms
    def canon(self, x):
        if type(x) in (int, str, bytes, bool, float) or x is None:
            return x
        if isinstance(x, T):
            c = self._canon.get(x)
            if c is None:
                if x.args:
                    args = tuple(self.canon(a) for a in x.args)
                    c = x if args == x.args else T(x.op, args, x.ty)
                else:
                    c = x
                if x.op == "cat":
                    r = scat(*[self.strval(p) for p in c.args])
                    c = r
                elif c.args and (c.op in STR_FUN or c.op in ("slice", "chop", "tail")) and isinstance(c.args[0], (T, str)):
                    b = self.strval(c.args[0])
                    if type(b) is str:
                        r = str_fun(c, c.args[0], b)
                        if type(r) in (str, bool):
                            c = r
                self._canon[x] = c
            return c
        if isinstance(x, Lin):
            c = self._canon.get(x)
            if c is None:
                const, d = x.c, {}
                changed = False
                for a, k in x.t:
                    ca = self.canon(a)
                    s = self.subst.get(ca)
                    if s is None and ca.op == "blen" and isinstance(ca.args[0], T) and ca.args[0].op == "rep" and ca.args[0].args[1] == 0:
                        s = 0
                    if s is not None:
                        changed = True
                        cc, dd = as_lin(s)
                        const += cc * k
                        for b, kk in dd.items():
                            d[b] = d.get(b, 0) + kk * k
                    else:
                        d[ca] = d.get(ca, 0) + k
                c = mklin(const, d)
                if changed and isinstance(c, Lin):
                    c = self.canon(c)
                self._canon[x] = c
            return c
        if isinstance(x, tuple):
            return tuple(self.canon(a) for a in x)
        if isinstance(x, Sub):
            return Sub(x.blob, self.canon(x.a), self.canon(x.b), x.site)
        if isinstance(x, IntSeg):
            return IntSeg(x.size, x.signed, x.endian, self.canon(x.val), x.site)
        if isinstance(x, FltSeg):
            return FltSeg(x.size, x.endian, self.canon(x.val), x.site)
        if isinstance(x, TB):
            return TB(self.canon(x.term), x.site)
        if isinstance(x, RepSeg):
            return RepSeg(x.loop, self.canon(x.count), self.canon(x.body), x.pair, x.site)
        if isinstance(x, BytesV):
            return BytesV(self.canon(x.segs))
        return x

    def _recanon_facts(self):
        self._canon = {}
        for _ in range(6):
            new = {}
            for k, v in self.subst.items():
                ck = self.canon(k)
                if ck not in self.subst and isinstance(ck, T):
                    new[ck] = v
            if not new:
                break
            self.subst.update(new)
            self._canon = {}
        self.dmap = {self.canon(k): {self.canon(d) for d in v} for k, v in self.dmap.items()}
        for name in ("dom", "bools"):
            old = getattr(self, name)
            new = {}
            for k, v in old.items():
                new[self.canon(k)] = v
            setattr(self, name, new)
        old = self.iv
        self.iv = {}
        for k, v in old.items():
            self._iv_add(k, v[0], v[1], v[2])
        oldf = self.fields
        self.fields = {}
        for (b, s), v in oldf.items():
            self.fields.setdefault((b, self.canon(s)), []).extend(v)

    def strval(self, x):
        """Constant value of a string term if the facts pin it."""
        if isinstance(x, T):
            d = self.dom.get(x)
            if d is not None and d[0] == "in" and len(d[1]) == 1:
                return next(iter(d[1]))
        return x

    def res(self, x):
        """Resolve a value to a constant where the facts allow."""
        if isinstance(x, Lin):
            return self.canon(x)
        if isinstance(x, T):
            c = self.canon(x)
            if isinstance(c, T):
                d = self.dom.get(c)
                if d is not None and d[0] == "in" and len(d[1]) == 1:
                    return next(iter(d[1]))
                if c.ty == "bool" and c in self.bools:
                    return self.bools[c]
            return c
        return x

    def same(self, a, b):
        """Structural equality under the facts (a decision procedure only for 'yes')."""
        a, b = self.res(a), self.res(b)
        if type(a) is bool or type(b) is bool:
            return type(a) is type(b) and a == b
        return a == b

    # ------------------------------------------------------------ integer facts
    def atom_range(self, a):
        if a.op == "int":
            size, signed = a.args[2], a.args[3]
            n = 8 * size
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        else:
            lo, hi = RANGE_OPS.get(a.op, (None, None))
            if a.op == "ord":
                c = a.args[0]
                narrow = isinstance(c, T) and c.op == "char" and isinstance(c.args[0], T) and c.args[0].op == "decode" and c.args[0].args[0] == "ascii"
                lo, hi = 0, 127 if narrow else 0x10FFFF
        d = self.dom.get(a)
        if d is not None and d[0] == "in" and all(type(v) is int for v in d[1]) and d[1]:
            lo2, hi2 = min(d[1]), max(d[1])
            lo = lo2 if lo is None else max(lo, lo2)
            hi = hi2 if hi is None else min(hi, hi2)
        f = self.iv.get(((a, 1),))
        if f:
            if f[0] is not None:
                lo = f[0] if lo is None else max(lo, f[0])
            if f[1] is not None:
                hi = f[1] if hi is None else min(hi, f[1])
            while lo is not None and lo in f[2]:
                lo += 1
            while hi is not None and hi in f[2]:
                hi -= 1
        return lo, hi

    @staticmethod
    def _norm(d):
        """(key, scale): homogeneous form normalised to positive leading coef, gcd 1."""
        items = sorted(d.items(), key=lambda p: p[0].key())
        g = 0
        for _, k in items:
            g = math.gcd(g, abs(k))
        s = g if items[0][1] > 0 else -g
        return tuple((a, k // s) for a, k in items), s

    def bounds(self, x):
        x = self.canon(x)
        if not isinstance(x, Lin):
            return x, x
        c, d = as_lin(x)
        lo = hi = 0
        for a, k in d.items():
            l, h = self.atom_range(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * k
            hi = None if hi is None or h is None else hi + h * k
        key, s = self._norm(d)
        f = self.iv.get(key)
        if f:
            l, h = f[0], f[1]
            if s < 0:
                l, h = h, l
            if l is not None:
                l = l * s
                lo = l if lo is None else max(lo, l)
            if h is not None:
                h = h * s
                hi = h if hi is None else min(hi, h)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def _iv_add(self, key, lo, hi, ne=frozenset()):
        """Constrain homogeneous form `key` (tuple of (atom,coef)) to [lo,hi] minus ne."""
        x = self.canon(mklin(0, dict(key)))
        if not isinstance(x, Lin):
            if (lo is not None and x < lo) or (hi is not None and x > hi) or x in ne:
                raise Prune()
            return
        c, d = as_lin(x)
        k2, s = self._norm(d)
        # key value = c + s*form(k2)  =>  form in [(lo-c)/s, (hi-c)/s]
        lo2 = None if lo is None else lo - c
        hi2 = None if hi is None else hi - c
        if s < 0:
            lo2, hi2 = hi2, lo2
        if lo2 is not None:
            lo2 = math.ceil(lo2 / s) if abs(s) != 1 else lo2 * (1 if s > 0 else -1)
        if hi2 is not None:
            hi2 = math.floor(hi2 / s) if abs(s) != 1 else hi2 * (1 if s > 0 else -1)
        ne2 = set((v - c) // s for v in ne if (v - c) % s == 0)
        old = self.iv.get(k2)
        if old:
            lo2 = old[0] if lo2 is None else (lo2 if old[0] is None else max(lo2, old[0]))
            hi2 = old[1] if hi2 is None else (hi2 if old[1] is None else min(hi2, old[1]))
            ne2 |= old[2]
        if lo2 is not None:
            while lo2 in ne2:
                lo2 += 1
        if hi2 is not None:
            while hi2 in ne2:
                hi2 -= 1
        if lo2 is not None and hi2 is not None and lo2 > hi2:
            raise Prune()
        self.iv[k2] = (lo2, hi2, frozenset(ne2))
        form = mklin(0, dict(k2))
        bl, bh = self.bounds(form)
        if bl is not None and bh is not None:
            if bl > bh:
                raise Prune()
            if bl == bh:
                self._equate(form, bl)

    def _equate(self, form, val):
        """form == val (both canonical): add a substitution if an atom can be isolated."""
        c, d = as_lin(sub(form, val))
        cands = [a for a, k in d.items() if abs(k) == 1]
        cands = [a for a in cands if not any(b is not a and occurs(a, b) for b in d)]
        if not cands:
            return
        # prefer explicit lengths/counts, then the earliest atom seen
        cands.sort(key=lambda a: (self.order.get(a, 1 << 30), a.key()))
        a = cands[0]
        k = d.pop(a)
        rhs = mul(mklin(c, d), -k)
        if isinstance(rhs, Lin) and any(occurs(a, b) for b, _ in rhs.t):
            return
        self.subst[a] = rhs
        f = self.iv.pop(((a, 1),), None)
        dm = self.dom.get(a)
        lo, hi = self.atom_range(a)
        self._recanon_facts()
        if f:
            self._iv_add(((a, 1),), f[0], f[1], f[2])
        if isinstance(self.canon(rhs), Lin):
            self._iv_add(((a, 1),), lo, hi)
        else:
            r = self.canon(rhs)
            if (lo is not None and r < lo) or (hi is not None and r > hi):
                raise Prune()
        if dm is not None and dm[0] == "notin":
            self._iv_add(((a, 1),), None, None, frozenset(v for v in dm[1] if type(v) is int))

    def cmp_decide(self, rel, diff):
        """Decide  diff REL 0  -> True/False/None."""
        lo, hi = self.bounds(diff)
        if rel == "==":
            if lo is not None and lo == hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            d = self.canon(diff)
            if isinstance(d, Lin):
                c, dd = as_lin(d)
                key, s = self._norm(dd)
                f = self.iv.get(key)
                if f and (-c) % s == 0 and (-c) // s in f[2]:
                    return False
                if (-c) % s != 0:
                    return False
                a = lin_atom(mklin(0, dd))
                if a is not None:
                    m = self.dom.get(a)
                    if m:
                        if m[0] == "in" and -c not in m[1]:
                            return False
                        if m[0] == "notin" and -c in m[1]:
                            return False
            return None
        if rel == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            return None
        raise AssertionError(rel)

    def assume_cmp(self, rel, diff, val):
        d = self.canon(diff)
        if not isinstance(d, Lin):
            ok = (d == 0) if rel == "==" else (d < 0)
            if ok != val:
                raise Prune()
            return
        c, dd = as_lin(d)
        key, s = self._norm(dd)
        # d = c + s*form
        if rel == "==":
            if val:
                if (-c) % s:
                    raise Prune()
                v = (-c) // s
                self._iv_add(key, v, v)
            else:
                if (-c) % s == 0:
                    self._iv_add(key, None, None, frozenset([(-c) // s]))
        elif rel == "<":
            # c + s*form < 0   (val)  else >= 0
            if val:
                if s > 0:
                    self._iv_add(key, None, math.ceil(-c / s) - 1)
                else:
                    self._iv_add(key, math.floor(-c / s) + 1, None)
            else:
                if s > 0:
                    self._iv_add(key, math.ceil(-c / s), None)
                else:
                    self._iv_add(key, None, math.floor(-c / s))

    def nonneg(self, x):
        """Record the fact x >= 0 (an invariant, not a branch)."""
        x = self.canon(x)
        if isinstance(x, Lin):
            lo, _ = self.bounds(x)
            if lo is None or lo < 0:
                self.assume_cmp("<", x, False)

    # ------------------------------------------------------------ booleans
    def fclass_term(self, t):
        """The class (NaN, infinite, finite) of a float; stored floats may share one."""
        if self.float_class is not None and isinstance(t, T) and t.op == "flt":
            return T("fclass", ("*",), "str")
        return T("fclass", (self.canon(t),), "str")

    def fclasses(self, t):
        ft = self.fclass_term(t)
        base = FCLASSES
        if ft.args == ("*",):
            base = frozenset([self.float_class]) if isinstance(self.float_class, str) else self.float_class
        m = self.dom.get(ft)
        if m is None:
            return base
        return m[1] if m[0] == "in" else base - m[1]

    def force(self, b):
        """Decide a boolean value, splitting the partition when the facts do not settle it."""
        if type(b) is bool:
            return b
        if not isinstance(b, T):
            raise Undecided("force %r" % (b,))
        op = b.op
        if op == "not":
            return not self.force(b.args[0])
        if op == "and":
            return all(self.force(a) for a in b.args)
        if op == "or":
            return any(self.force(a) for a in b.args)
        if op == "cmp":
            rel, diff = b.args
            r = self.cmp_decide(rel, diff)
            if r is not None:
                return r
            v = self.choose(2, "%s %s 0" % (diff, rel)) == 0
            self.assume_cmp(rel, diff, v)
            return v
        if op == "in":
            t, s = b.args
            return self.force_in(t, s)
        if op == "ite":
            return self.truth_const(self.force(b.args[0]) and b.args[1] or b.args[2])
        cb = self.canon(b)
        if type(cb) is bool:
            return cb
        if cb in self.bools:
            return self.bools[cb]
        base = str_fun_base(cb) if cb.op in STR_FUN else None
        if base is not None:
            m = self.dom.get(base)
            if m and m[0] == "in":
                vals = {c: str_fun(cb, base, c) for c in m[1]}
                if all(type(v) is bool for v in vals.values()):
                    return self.split_base(base, m[1], frozenset(c for c, v in vals.items() if v), repr(cb))
            self.dmap.setdefault(base, set()).add(cb)
        v = self.choose(2, repr(cb)) == 0
        self.bools[cb] = v
        return v

    def truth_const(self, v):
        if type(v) in (bool, int, str, bytes, float) or v is None:
            return bool(v)
        raise Undecided("truth of %r" % (v,))

    def dom_in(self, t, s):
        """True/False/None: is term t (canonical) in constant set s?"""
        m = self.dom.get(t)
        if m:
            if m[0] == "in":
                if m[1] <= s:
                    return True
                if not (m[1] & s):
                    return False
            elif s <= m[1]:
                return False
        if isinstance(t, T) and t.op == "lower" and not any(type(v) is str and v == v.lower() for v in s):
            return False
        return None

    def force_in(self, t, s):
        if isinstance(t, Lin):
            t = self.canon(t)
            a = lin_atom(t)
            if a is None:
                if not isinstance(t, Lin):
                    return t in s
                for v in sorted(v for v in s if type(v) is int):
                    if self.force(T("cmp", ("==", sub(t, v)), "bool")):
                        return True
                return False
            lo, hi = self.atom_range(a)
            s2 = frozenset(v for v in s if type(v) in (int, bool) and (lo is None or v >= lo) and (hi is None or v <= hi))
            f = self.iv.get(((a, 1),))
            if f:
                s2 = frozenset(v for v in s2 if v not in f[2])
            m = self.dom.get(a)
            if m:
                s2 = s2 & m[1] if m[0] == "in" else s2 - m[1]
                if m[0] == "in" and m[1] <= s2:
                    return True
            if not s2:
                return False
            if lo is not None and lo == hi:
                return lo in s2
            v = self.choose(2, "%r in %s" % (a, sorted(s2))) == 0
            if v:
                if len(s2) == 1:
                    self.assume_cmp("==", sub(atom(a), next(iter(s2))), True)
                else:
                    self.dom[a] = ("in", s2)
                    self._iv_add(((a, 1),), min(s2), max(s2))
            else:
                self._iv_add(((a, 1),), None, None, s2)
                if m and m[0] == "in":
                    self.dom[a] = ("in", m[1] - s2)
            return v
        t = self.canon(t)
        if not isinstance(t, T):
            return t in s
        if t.op == "fclass" and t not in self.dom:
            self.dom[t] = ("in", self.fclasses(T("flt", (), "float")) if t.args == ("*",) else FCLASSES)
        if t.op == "tail":
            return self.force_in(t.args[0], frozenset(t.args[1] + x for x in s if type(x) is str))
        r = self.dom_in(t, s)
        if r is not None:
            return r
        base = str_fun_base(t)
        if base is not None:
            m = self.dom.get(base)
            if m and m[0] == "in":
                vals = {c: str_fun(t, base, c) for c in m[1]}
                if all(v is not None for v in vals.values()):
                    yes = frozenset(c for c, v in vals.items() if v in s)
                    return self.split_base(base, m[1], yes, "%r in %s" % (t, short_set(s)))
            self.dmap.setdefault(base, set()).add(t)
        elif t in self.dmap:
            s = frozenset(c for c in s if self.derived_ok(t, c))
            if not s:
                return False
        if t.op == "cat":
            return self.cat_in(t, s)
        m = self.dom.get(t)
        s2 = frozenset(s)
        if t.op == "lower":
            s2 = frozenset(v for v in s2 if type(v) is str and v == v.lower())
        if m:
            s2 = s2 & m[1] if m[0] == "in" else s2 - m[1]
        v = self.choose(2, "%r in %s" % (t, short_set(s2))) == 0
        if v:
            self.assume_dom(t, "in", s2)
        else:
            self.assume_dom(t, "notin", s2)
        return v

    def split_base(self, base, dom, yes, text):
        if not yes:
            return False
        if yes == dom:
            return True
        v = self.choose(2, text) == 0
        self.assume_dom(base, "in", yes if v else dom - yes)
        return v

    def derived_ok(self, t, c):
        """Does t == c agree with what is already known about strings computed from t?"""
        for d in self.dmap.get(t, ()):
            v = str_fun(d, t, c)
            if v is None:
                continue
            if d in self.bools and self.bools[d] != v:
                return False
            m = self.dom.get(d)
            if m and (v in m[1]) != (m[0] == "in"):
                return False
        return True

    def assume_dom(self, t, kind, s):
        m = self.dom.get(t)
        if kind == "in":
            if m:
                s = s & m[1] if m[0] == "in" else s - m[1]
            if not s:
                raise Prune()
            self.dom[t] = ("in", frozenset(s))
        else:
            if m:
                if m[0] == "in":
                    r = m[1] - s
                    if not r:
                        raise Prune()
                    self.dom[t] = ("in", r)
                else:
                    self.dom[t] = ("notin", m[1] | s)
            else:
                self.dom[t] = ("notin", frozenset(s))
        self._canon = {}
        self._pin_len(t)

    def _pin_len(self, t):
        """A stored string pinned to a constant has a known stored length."""
        if t.op != "fstr":
            return
        m = self.dom.get(t)
        if m and m[0] == "in" and len(m[1]) == 1:
            v = next(iter(m[1]))
            if isinstance(v, str):
                from . import recon

                ln = T("fslen", t.args, "int")
                if ln not in self.subst:
                    self.assume_cmp("==", sub(atom(ln), len(recon.fstr_bytes(v))), True)

    def cat_in(self, t, s):
        """Membership of a concatenation with one unknown part."""
        parts = list(t.args)
        unk_i = [i for i, p in enumerate(parts) if isinstance(p, T)]
        if len(unk_i) != 1:
            pat = re.compile("".join(re.escape(p) if isinstance(p, str) else "[0-9a-f]{2}" if p.op == "hexb" else ".*" for p in parts), re.S)
            s = frozenset(v for v in s if type(v) is str and pat.fullmatch(v))
            if not s:
                return False
            cb = T("in", (t, frozenset(s)), "bool")
            if cb in self.bools:
                return self.bools[cb]
            v = self.choose(2, "%r in %s" % (t, short_set(s))) == 0
            self.bools[cb] = v
            return v
        i = unk_i[0]
        pre = "".join(parts[:i])
        suf = "".join(parts[i + 1 :])
        rest = frozenset(
            v[len(pre) : len(v) - len(suf)]
            for v in s
            if type(v) is str and v.startswith(pre) and v.endswith(suf) and len(v) >= len(pre) + len(suf)
        )
        if not rest:
            return False
        return self.force_in(parts[i], rest)

    def pick_value(self, t, mapping):
        """t is known to be a key of the constant mapping: split by distinct value."""
        t = self.res(self.canon(t))
        if not isinstance(t, (T, Lin)):
            return mapping[t]
        if isinstance(t, T) and t.op == "tail":
            return self.pick_value(t.args[0], {t.args[1] + k: v for k, v in mapping.items() if type(k) is str})
        m = self.dom.get(t if not isinstance(t, Lin) else lin_atom(t))
        keys = [k for k in mapping if (not m) or (k in m[1] if m[0] == "in" else k not in m[1])]
        groups = []
        for k in keys:
            v = mapping[k]
            for g in groups:
                if g[0] is v or (type(g[0]) is type(v) and type(v) in (str, int, bytes) and g[0] == v):
                    g[1].append(k)
                    break
            else:
                groups.append((v, [k]))
        if not groups:
            raise Prune()
        i = self.choose(len(groups), "value of table lookup by %r" % (t,))
        v, ks = groups[i]
        if isinstance(t, Lin):
            a = lin_atom(t)
            if a is None:
                return v
            if len(ks) == 1:
                self.assume_cmp("==", sub(t, ks[0]), True)
            else:
                self.dom[a] = ("in", frozenset(ks))
        elif isinstance(t, T) and t.op == "cat":
            if not self.cat_in(t, frozenset(ks)):
                raise Prune()
        else:
            self.assume_dom(t, "in", frozenset(ks))
        return v

    # ------------------------------------------------------------ bytes
    def seg_len(self, s):
        if isinstance(s, CB):
            return len(s.data)
        if isinstance(s, Sub):
            return sub(s.b, s.a)
        if isinstance(s, (IntSeg, FltSeg)):
            return s.size
        if isinstance(s, TB):
            if s.term.op == "prefix":
                return s.term.args[1]
            if s.term.op == "encode" and s.term.args[2] == "strict":
                x, enc, _ = s.term.args
                width = {"ascii": 1, "latin-1": 1, "iso8859-1": 1}.get(enc)
                if width is None and self.bools.get(T("isascii", (x,), "bool")) is True:
                    width = {"utf-8": 1, "utf-16-le": 2, "utf-16-be": 2}.get(enc)
                if width:
                    return mul(atom(T("strlen", (x,), "int")), width)
            return atom(T("blen", (s.term,), "int"))
        if isinstance(s, RepSeg):
            if self.canon(s.count) == 0:
                return 0
            n = self.canon(self.segs_len(s.body))
            if type(n) is int:
                return mul(s.count, n)
            return atom(T("blen", (T("rep", (s.loop, s.count, s.body)),), "int"))
        raise Undecided("len of %r" % (s,))

    def segs_len(self, segs):
        n = 0
        for s in segs:
            n = add(n, self.seg_len(s))
        return self.canon(n)

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, CB) and not s.data:
                continue
            if out and isinstance(s, Sub):
                p = out[-1]
                if isinstance(p, Sub) and p.blob == s.blob and self.canon(p.b) == self.canon(s.a):
                    out[-1] = Sub(p.blob, p.a, s.b, p.site)
                    continue
            if isinstance(s, Sub) and self.canon(s.a) == self.canon(s.b):
                continue
            if out and isinstance(s, CB) and isinstance(out[-1], CB):
                out[-1] = CB(out[-1].data + s.data, out[-1].site)
                continue
            out.append(s)
            if isinstance(s, IntSeg) and s.size == 1:
                # the separate bytes of one number, back in order
                t = self._byteof(s)
                if t is not None and t.args[4] == t.args[0] - 1 and len(out) >= t.args[0]:
                    n = t.args[0]
                    run = [self._byteof(x) for x in out[-n:]]
                    if all(r is not None and r.args[:4] == t.args[:4] and r.args[4] == k for k, r in enumerate(run)):
                        del out[-n:]
                        if t.args[1] is None:
                            out.append(FltSeg(n, t.args[2], t.args[3], s.site))
                        else:
                            out.append(IntSeg(n, t.args[1], t.args[2], t.args[3], s.site))
        return out

    @staticmethod
    def _byteof(s):
        if not isinstance(s, IntSeg) or s.size != 1:
            return None
        v = s.val
        if isinstance(v, Lin):
            v = lin_atom(v)
        return v if isinstance(v, T) and v.op == "byteof" else None

    def mkbytes(self, segs):
        segs = self.norm_segs(segs)
        if not segs:
            return b""
        if len(segs) == 1 and isinstance(segs[0], CB):
            return segs[0].data
        return BytesV(segs)

    @staticmethod
    def segs_of(b):
        if isinstance(b, (bytes, bytearray)):
            return [CB(bytes(b))] if len(b) else []
        if isinstance(b, BytesV):
            return list(b.segs)
        raise Undecided("bytes of %r" % (b,))

    def split(self, segs, at):
        """Split a segment list at byte offset `at`; None when not decidable."""
        at = self.canon(at)
        if at == 0 and type(at) is int:
            return [], list(segs)
        left = []
        pos = 0
        for i, s in enumerate(segs):
            p = self.canon(pos)
            if p == at:
                return left, list(segs[i:])
            n = self.seg_len(s)
            e = self.canon(add(pos, n))
            if e == at:
                left.append(s)
                return left, list(segs[i + 1 :])
            off = self.canon(sub(at, p))
            # does `at` fall inside s?
            lo, _ = self.bounds(sub(e, at))
            if isinstance(s, Sub):
                only = i == len(segs) - 1
                if only or (lo is not None and lo >= 0):
                    mid = self.canon(add(s.a, off))
                    return left + [Sub(s.blob, s.a, mid, s.site)], [Sub(s.blob, mid, s.b, s.site)] + list(segs[i + 1 :])
            elif isinstance(s, CB):
                if type(off) is int and 0 <= off <= len(s.data):
                    return left + [CB(s.data[:off])], [CB(s.data[off:])] + list(segs[i + 1 :])
            elif isinstance(s, (IntSeg, FltSeg)) and type(off) is int and 0 < off < s.size:
                bl = [IntSeg(1, False, "<", T("byteof", (s.size, getattr(s, "signed", None), s.endian, s.val, k), "int"), s.site) for k in range(s.size)]
                return left + bl[:off], bl[off:] + list(segs[i + 1 :])
            left.append(s)
            pos = e
        if self.canon(pos) == at:
            return left, []
        return None

    def slice_bytes(self, b, lo, hi):
        """b[lo:hi] for known 0 <= lo <= hi positions (Lin), or None when undecidable."""
        segs = self.segs_of(b)
        r = self.split(segs, lo)
        if r is None:
            return None
        r2 = self.split(r[1], sub(hi, lo))
        if r2 is None:
            return None
        return self.mkbytes(r2[0])

    def unpack_int(self, b, size, signed, endian):
        """Integer value of a bytes value of exactly `size` bytes."""
        if isinstance(b, (bytes, bytearray)):
            return int.from_bytes(b, "little" if endian == "<" else "big", signed=signed)
        segs = self.norm_segs(b.segs)
        if len(segs) == 1:
            s = segs[0]
            if isinstance(s, Sub):
                if size == 1:
                    endian = "<"
                return self.int_atom(s.blob, s.a, size, signed, endian)
            if isinstance(s, IntSeg) and s.size == size and (s.endian == endian or size == 1):
                if s.signed == signed:
                    return s.val
                lo, hi = self.bounds(s.val) if is_int(s.val) else (None, None)
                if lo is not None and lo >= 0 and hi is not None and hi < (1 << (8 * size - 1)):
                    return s.val
                return atom(T("reint", (s.val, size, signed), "int"))
        parts = []
        off = 0
        for s in segs:
            n = self.seg_len(s)
            if type(n) is not int:
                return atom(unk("int of %r" % (b,), "int"))
            for k in range(n):
                one = self.slice_bytes(BytesV([s]), k, k + 1)
                parts.append(self.unpack_int(one, 1, False, "<"))
            off += n
        if off != size:
            return atom(unk("int width", "int"))
        if endian != "<":
            parts.reverse()
        v = 0
        for i, p in enumerate(parts):
            v = add(v, mul(p, 1 << (8 * i)))
        if signed:
            return atom(T("sx", (v, size), "int")) if isinstance(v, Lin) else v
        return v

    def int_atom(self, blob, start, size, signed, endian="<"):
        start = self.canon(start)
        t = T("int", (blob, start, size, signed, endian), "int")
        if t not in self.order:
            self.order[t] = len(self.order)
            self.fields.setdefault((blob, start), []).append(("int", t, self.cur_site()))
        return self.canon(atom(t))

    def unpack_float(self, b, size, endian):
        if isinstance(b, (bytes, bytearray)):
            return _struct.unpack(endian + ("f" if size == 4 else "d" if size == 8 else "e"), bytes(b))[0]
        segs = self.norm_segs(b.segs)
        if len(segs) == 1:
            s = segs[0]
            if isinstance(s, Sub):
                t = T("flt", (s.blob, self.canon(s.a), size, endian), "float")
                self.fields.setdefault((s.blob, self.canon(s.a)), []).append(("flt", t, self.cur_site()))
                return t
            if isinstance(s, FltSeg) and s.size == size and s.endian == endian:
                return s.val
        return unk("float of %r" % (b,), "float")

    def pack_int(self, v, size, signed, endian):
        """Segment for packing integer v; raises the analysed program's struct.error as needed."""
        site = self.cur_site()
        v = self.res(v)
        if type(v) is bool:
            v = int(v)
        if type(v) is int:
            try:
                return CB(v.to_bytes(size, "little" if endian == "<" else "big", signed=signed), site)
            except OverflowError:
                raise AbsRaise(ExcV(ExcClassV("error", "Exception"), ["integer out of range"], site, True))
        if isinstance(v, T) and v.ty == "bool":
            v = T("ite", (v, 1, 0), "int")
        if size == 1:
            endian = "<"
        if isinstance(v, Lin) and self.edited:
            return IntSeg(size, signed, endian, self.canon(v), site)
        if isinstance(v, Lin):
            a = lin_atom(v)
            if a is not None:
                s = self._int_seg_of_atom(a, size, signed, endian, site)
                if s is not None:
                    return s
            if size == 1 or True:
                bs = self.bytes_of_lin(v, size) if not signed else None
                if bs is not None and endian == "<":
                    segs = self.norm_segs(bs)
                    if len(segs) == 1:
                        return segs[0]
            return IntSeg(size, signed, endian, v, site)
        if isinstance(v, T):
            return IntSeg(size, signed, endian, v, site)
        if isinstance(v, float) or v is None or isinstance(v, (str, bytes, Obj, BytesV)):
            raise AbsRaise(ExcV(ExcClassV("error", "Exception"), ["required argument is not an integer"], site, True))
        raise Undecided("pack of %r" % (v,))

    def _int_seg_of_atom(self, a, size, signed, endian, site):
        if a.op == "int" and a.args[2] == size and a.args[4] == endian:
            if a.args[3] == signed:
                return Sub(a.args[0], a.args[1], add(a.args[1], size), site)
            lo, hi = self.atom_range(a)
            if lo >= 0 and hi < (1 << (8 * size - 1)):
                return Sub(a.args[0], a.args[1], add(a.args[1], size), site)
        if a.op == "reint" and a.args[1] == size and signed != a.args[2]:
            return None
        return None

    def bytes_of_lin(self, v, size):
        """Little-endian byte segments of a linear form sum(256^k * byte), or None."""
        v = self.canon(v)
        if type(v) is int:
            if 0 <= v < (1 << (8 * size)):
                return [CB(bytes([b])) for b in v.to_bytes(size, "little")]
            return None
        slots = [None] * size
        c, d = as_lin(v)
        for a, k in d.items():
            if k > 0 and a.op in ("div", "mod") and type(a.args[1]) is int:
                # bytes cut from a wider number: n >> 8j, n & (256**j - 1)
                m, p = a.args[1].bit_length() - 1, k.bit_length() - 1
                if (1 << m) != a.args[1] or m % 8 or (1 << p) != k or p % 8:
                    return None
                inner = self.bytes_of_lin(a.args[0], 32)
                if inner is None:
                    return None
                part = inner[m // 8 :] if a.op == "div" else inner[: m // 8]
                while part and isinstance(part[-1], CB) and not any(part[-1].data):
                    part.pop()
                for j, seg in enumerate(part):
                    if p // 8 + j >= size or slots[p // 8 + j] is not None:
                        return None
                    slots[p // 8 + j] = seg
                continue
            if k <= 0 or a.op != "int":
                return None
            sz, signed = a.args[2], a.args[3]
            if signed:
                lo, _ = self.atom_range(a)
                if lo is None or lo < 0:
                    return None
            p = k.bit_length() - 1
            if (1 << p) != k or p % 8:
                return None
            p //= 8
            for j in range(sz):
                q = p + (j if a.args[4] == "<" else sz - 1 - j)
                if q >= size or slots[q] is not None:
                    return None
                st = add(a.args[1], j)
                slots[q] = Sub(a.args[0], st, add(st, 1))
        for i in range(size):
            if slots[i] is None:
                slots[i] = CB(bytes([(c >> (8 * i)) & 0xFF]))
                c &= ~(0xFF << (8 * i))
        if c:
            return None
        return slots

    # ------------------------------------------------------------ streams
    def _touch_stream(self, st):
        for fr in self.loops:
            if fr.id in st.owner or st in fr.streams or any(p in st.owner for p in fr.pairs):
                continue
            k = len(fr.streams)
            P = atom(T("lp", (fr.id, k), "int"))
            writer = getattr(st, "writer", False)
            at_end = self.canon(st.pos) == self.segs_len(st.segs)
            fr.streams[st] = dict(pos=st.pos, segs=list(st.segs), k=k, P=P, writer=writer)
            st.pos = P
            if writer:
                if not at_end:
                    raise Undecided("loop writes into the middle of a stream")
                st.segs = [TB(T("prefix", (fr.id, P)))]
            else:
                end = self.segs_len(st.segs)
                self.nonneg(sub(end, P))

    def loop_end_stream(self, fr, st, rec):
        site = self.cur_site()
        if rec["writer"]:
            if not st.segs or not isinstance(st.segs[0], TB) or st.segs[0].term.op != "prefix":
                raise Undecided("stream rewritten inside a loop")
            body = self.norm_segs(st.segs[1:])
            if self.canon(st.pos) != self.segs_len(st.segs):
                raise Undecided("stream position not at end after loop body")
            segs = rec["segs"]
            if body:
                segs = segs + self.norm_reps(RepSeg(fr.id, fr.count, body, frozenset(fr.pairs), body[0].site))
            st.segs = segs
            st.pos = self.segs_len(segs)
            return
        bend, P = self.canon(st.pos), self.canon(rec["P"])
        entry = rec["pos"]
        d = self.canon(sub(bend, P))
        if type(d) is int and d == 0:
            end = entry
        elif type(d) is int:
            end = add(entry, mul(fr.count, d))
        else:
            end = atom(T("le", (fr.id, rec["k"]), "int"))
        total = self.segs_len(rec["segs"])
        st.segs = rec["segs"]
        st.pos = self.canon(end)
        self.nonneg(sub(total, end))
        if len(rec["segs"]) == 1 and isinstance(rec["segs"][0], Sub) and d != 0:
            s = rec["segs"][0]
            self.looprec.setdefault(fr.id, []).append(
                LoopRec(fr.id, s.blob, fr.count, add(s.a, entry), add(s.a, P), add(s.a, bend), add(s.a, end))
            )

    def norm_reps(self, seg):
        """norm_rep, which may also be an element-wise copy of a list of bytes."""
        n = self.canon(seg.count)
        if len(seg.body) == 1 and isinstance(seg.body[0], IntSeg) and seg.body[0].size == 1:
            v = seg.body[0].val
            v = lin_atom(v) if isinstance(v, Lin) else v
            if isinstance(v, T) and v.op == "elt" and v.args[1] == T("idx", (seg.loop,), "int"):
                f = self.frozen[v.args[0]]
                if self.canon(self.segs_len(f)) == n:
                    return [type(s)(*[getattr(s, a) for a in s.__slots__]) for s in f]
        return [self.norm_rep(seg)]

    def norm_rep(self, seg):
        from . import recon

        body = seg.body
        n = self.canon(seg.count)
        # affine in the loop index:  blob[s0 + c*idx : s0 + c*idx + c]
        if len(body) == 1 and isinstance(body[0], Sub):
            s = body[0]
            idx = T("idx", (seg.loop,), "int")
            c, d = as_lin(self.canon(s.a))
            ln = self.canon(sub(s.b, s.a))
            for i in [idx] + [T("idx", (p,), "int") for p in seg.pair if not isinstance(p, tuple)]:
                if type(ln) is int and d.get(i) == ln and ln > 0:
                    dd = dict(d)
                    del dd[i]
                    a = mklin(c, dd)
                    return Sub(s.blob, a, self.canon(add(a, mul(n, ln))), seg.site)
        for p in seg.pair:
            for lr in self.looprec.get(p, ()):
                if self.canon(lr.count) != n:
                    continue
                r = recon.reconcile(self, body, lr.blob, lr.bstart, lr.bend)
                if r.ok:
                    self.fills.extend(r.fills)
                    return Sub(lr.blob, self.canon(lr.start), self.canon(lr.end), seg.site)
        return seg

    def stream_read(self, st, n):
        """Bytes read; n is an int/Lin (assumed available) or None for all."""
        self._touch_stream(st)
        total = self.segs_len(st.segs)
        pos = self.canon(st.pos)
        if n is None:
            n = sub(total, pos)
        n = self.canon(n)
        if type(n) is int and n < 0:
            n = self.canon(sub(total, pos))
        avail = self.canon(sub(total, pos))
        end = self.canon(add(pos, n))
        if type(n) is int and n == 0:
            return b""
        sp = self.split(st.segs, pos)
        if sp is not None and sp[1] and isinstance(sp[1][0], Sub):
            self.rorder.setdefault((sp[1][0].blob, self.canon(sp[1][0].a)), len(self.rorder))
        rem = self.canon(sub(total, end))
        lo, hi = self.bounds(rem)
        if hi is not None and hi < 0:
            # certainly fewer bytes than requested
            r = self.slice_bytes(BytesV(st.segs), pos, total) if st.segs else b""
            if r is None:
                raise Undecided("slice")
            st.pos = total
            return r
        if isinstance(n, Lin):
            lo_n, _ = self.bounds(n)
            if lo_n is None or lo_n < 0:
                self.event("maybe-negative-read", n=n)
        if getattr(st, "short", False) and n != avail:
            if self.choose(2, "input ends inside the %r bytes read at %r" % (n, pos)) == 1:
                # strictly fewer bytes than requested remain
                self.assume_cmp("<", rem, True)
                r = self.slice_bytes(BytesV(st.segs), pos, total)
                if r is None:
                    raise Undecided("slice")
                st.pos = total
                self.event("short-read", n=n, pos=pos)
                return r
        r = self.split(st.segs, pos)
        if r is None:
            raise Undecided("stream position %r" % (pos,))
        r2 = self.split(r[1], n)
        if r2 is None:
            raise Undecided("stream read of %r at %r in %r" % (n, pos, st.segs))
        st.pos = end
        self.nonneg(sub(total, end))
        return self.mkbytes(r2[0])

    def stream_write(self, st, b):
        self._touch_stream(st)
        if st.gen0 and not self.gen0:
            self.event("global-mutation", obj=st, what="write to a shared stream")
        segs = self.segs_of(b)
        site = self.cur_site()
        for s in segs:
            if s.site is None:
                s.site = site
        total = self.segs_len(st.segs)
        pos = self.canon(st.pos)
        n = self.segs_len(segs)
        if pos == total:
            st.segs.extend(segs)
            st.pos = self.canon(add(pos, n))
            return n
        r = self.split(st.segs, pos)
        if r is None:
            raise Undecided("stream write position")
        r2 = self.split(r[1], n)
        if r2 is None:
            lo, hi = self.bounds(sub(add(pos, n), total))
            if lo is not None and lo >= 0:
                r2 = ([], [])
            else:
                raise Undecided("stream overwrite extent")
        st.segs = r[0] + segs + r2[1]
        st.pos = self.canon(add(pos, n))
        return n

    def stream_seek(self, st, pos, whence=0):
        self._touch_stream(st)
        if whence == 0:
            st.pos = self.canon(pos)
        elif whence == 1:
            st.pos = self.canon(add(st.pos, pos))
        elif whence == 2:
            st.pos = self.canon(add(self.segs_len(st.segs), pos))
        else:
            raise Undecided("seek whence")
        return st.pos

    def havoc_stream(self, st):
        self._touch_stream(st)
        st.pos = atom(self.fresh("havoc", "int"))

    # ------------------------------------------------------------ loops
    def new_loop(self, count, key):
        self.lid += 1
        lid = "L%d" % self.lid
        if count is None:
            count = atom(T("cnt", (lid,), "int"))
        return LoopFrame(lid, count)

    def own(self, o):
        o.owner = tuple(f.id for f in self.loops)
        if self.gen0:
            o.gen0 = True
        return o

    def inside(self, o, fr):
        """Does heap object o belong to the iteration of frame fr?"""
        return fr.id in o.owner or any(p in o.owner for p in fr.pairs if not isinstance(p, tuple))


def occurs(a, t):
    """Does atom a occur in the arguments of term t?"""
    if isinstance(t, T):
        if t == a:
            return True
        return any(occurs(a, x) for x in t.args)
    if isinstance(t, Lin):
        return any(occurs(a, x) for x, _ in t.t)
    if isinstance(t, (tuple,)):
        return any(occurs(a, x) for x in t)
    if isinstance(t, Sub):
        return occurs(a, t.a) or occurs(a, t.b)
    if isinstance(t, BytesV):
        return occurs(a, t.segs)
    return False


def short_set(s):
    l = sorted(map(str, s))
    return "{%s}" % ", ".join(l[:3] + (["...%d" % len(l)] if len(l) > 3 else []))


def scat(*parts):
    """String concatenation, flattened; returns str when constant."""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "cat":
            out.extend(p.args)
        elif isinstance(p, str):
            if p:
                out.append(p)
        else:
            out.append(p)
    res = []
    for p in out:
        if res and isinstance(p, str) and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    if not res:
        return ""
    if len(res) == 1:
        return res[0]
    return T("cat", tuple(res), "str")
