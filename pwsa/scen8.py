"""Sizes and counts of written bytes, for documents that were edited after reading."""

from .values import *
from .engine import *
from . import models, recon, cuts
from .cuts import ARCH
from .runner import Finding
from .scen import *
from .models import SymKey


class Edit:
    """Copies a document with other list lengths, strings, byte strings and ids."""

    def __init__(self, I, eng):
        self.I, self.eng = I, eng
        self.n = 0
        self.counts = {}  # canonical original count -> new count
        self.loops = {}  # old loop id -> new loop id
        self.counted = {}  # new count or length -> was it stored as a number?
        self.done = {}

    def fresh(self, op, ty, *args):
        self.n += 1
        return T(op, (self.n,) + args, ty)

    def stored(self, n):
        a = lin_atom(n) if isinstance(n, Lin) else n
        return isinstance(a, T) and a.op == "int"

    def count(self, n):
        n = self.eng.canon(n)
        if type(n) is int:
            return n
        if n not in self.counts:
            t = self.fresh("ecount", "int")
            self.eng.order.setdefault(t, len(self.eng.order))
            c = atom(t)
            self.eng.nonneg(c)
            self.counts[n] = c
            self.counted[c] = self.stored(n)
        return self.counts[n]

    def blob(self, n):
        t = self.fresh("eblob", "bytes")
        ln = atom(T("blen", (t,), "int"))
        self.eng.nonneg(ln)
        self.counted[self.eng.canon(ln)] = self.stored(self.eng.canon(n))
        return BytesV([TB(t)])

    def edit(self, v, key=None):
        I, eng = self.I, self.eng
        if id(v) in self.done:
            return self.done[id(v)][1]
        r = self._edit(v, key)
        if isinstance(v, Obj):
            self.done[id(v)] = (v, r)
        return r

    def _edit(self, v, key):
        I, eng = self.I, self.eng
        if isinstance(v, LazyLoopVar):
            v = v.last
        if key == "id" and (v is None or isinstance(v, InstanceV)):
            if v is None:
                self.n += 1
                return I.call(attr(mod(I, ARCH), "UUID"), [self.guid16()], {})
            return None
        if isinstance(v, ListV):
            n = ListV([], v.kind)
            n.owner = v.owner
            for it in v.items:
                n.items.append(self.item(it))
            return n
        if isinstance(v, DictV):
            n = DictV()
            n.owner = v.owner
            n.poison = v.poison
            for o in v.order:
                if o[0] == "k":
                    k = o[1]
                    name = k.v if isinstance(k, SymKey) else k
                    n.set(k, self.edit(v.d[k], name if name != "id" or self.optional(v) else None))
                else:
                    lid, cnt, k, val = v.reps[o[1]]
                    n.reps.append((self.loop(lid), self.count(cnt), k, self.edit(val)))
                    n.order.append(("r", len(n.reps) - 1))
            return n
        if isinstance(v, OpNode):
            n = OpNode(v.root, v.path, v.info)
            n.owner = v.owner
            n.deleted = set(v.deleted)
            n.overlay = {k: self.edit(x, k) for k, x in v.overlay.items()}
            n.kids = {k: self.edit(x, k) for k, x in v.kids.items()}
            return n
        if isinstance(v, T) and v.ty == "str" and v.op == "fstr":
            c = eng.canon(v)
            if isinstance(c, T) and c not in eng.dom and v not in eng.dom and not (isinstance(key, str) and (key == "type" or key.endswith("_type"))):
                return self.fresh("estr", "str")
            return v
        return v

    def optional(self, d):
        """Is this a property, whose id may be present or absent?"""
        t = self.eng.res(d.d["type"]) if "type" in d.d else None
        return isinstance(t, str) and t.endswith("Property") and "value" in d.d

    def guid16(self):
        name = "EID%d" % self.n
        self.eng.assume_cmp("==", sub(atom(T("len", (name,), "int")), 16), True)
        return BytesV([Sub(name, 0, 16)])

    def loop(self, lid):
        return self.loops.setdefault(lid, "E" + lid)

    def item(self, it):
        if it[0] == "i":
            return ("i", self.edit(it[1]))
        if it[0] == "b":
            b = it[1]
            n = self.eng.canon(self.eng.segs_len(self.eng.segs_of(b)))
            if type(n) is int:
                return it
            return ("b", self.blob(n))
        return ("r", self.loop(it[1]), self.count(it[2]), [self.item(x) for x in it[3]])


def numbers_in(v):
    """The numbers a written value is computed from by addition and multiplication."""
    if isinstance(v, Lin):
        return {a for a, _ in v.t}
    return {v} if isinstance(v, T) else set()


class Walk:
    def __init__(self, I, eng, ed, stale):
        self.I, self.eng, self.ed, self.stale = I, eng, ed, stale
        self.out = []
        self.obl = 0
        self.proved = []  # numbers shown to be right by their place in a property

    def bad(self, site, msg):
        self.out.append(Finding("size", site, msg))

    # ---- rule over any layout
    def generic(self, segs):
        eng = self.eng
        vals = []
        for i, s in enumerate(segs):
            if isinstance(s, IntSeg):
                v = eng.canon(s.val)
                vals.append(v)
                self.obl += 1
                hit = [a for a in numbers_in(v) if a in self.stale]
                if hit and not any(s is p for p in self.proved) and not self.measures(v, segs[i + 1 :]):
                    self.bad(s.site, "the number written (%r) is %s of the data that was read, not of the data written" % (v, self.stale[hit[0]]))
            elif isinstance(s, RepSeg):
                c = eng.canon(s.count)
                if self.ed.counted.get(c) or type(c) is int and c in self.consts():
                    self.obl += 1
                    if c not in vals and not self.elsewhere(vals, c):
                        self.bad(s.site, "no number written before a list equals the number of its elements (%r)" % (vals[-1:] or ["no number"])[0])
                self.generic(s.body)
            elif isinstance(s, TB) and s.term.op == "eblob":
                n = eng.canon(eng.seg_len(s))
                if self.ed.counted.get(n):
                    self.obl += 1
                    if n not in vals:
                        self.bad(s.site, "no number written before raw bytes equals their length %r (%r)" % (n, (vals[-1:] or ["no number"])[0],))

    def measures(self, v, segs):
        """Is v the length of what follows, or of a first part of it?"""
        n = 0
        for s in segs:
            n = add(n, self.eng.seg_len(s))
            if self.eng.canon(sub(v, n)) == 0:
                return True
        return False

    def consts(self):
        """Counts stored as numbers that are fixed on this path."""
        cs = {self.eng.canon(k) for k, v in self.ed.counted.items() if v}
        return {c for c in cs if type(c) is int}

    def elsewhere(self, vals, c):
        return any(has_unk(v) for v in vals)

    # ---- the layout of properties
    def top(self, segs):
        eng = self.eng
        segs = list(segs)
        while segs and isinstance(segs[0], RepSeg):
            self.prop(Cur(eng, segs.pop(0).body))
        if not segs:
            return
        last = segs[-1]
        NONE = b"\x05\x00\x00\x00None\x00"
        if isinstance(last, CB) and last.data.endswith(NONE):
            segs = segs[:-1] + ([CB(last.data[: -len(NONE)], last.site)] if len(last.data) > len(NONE) else [])
        if segs:
            self.prop(Cur(eng, segs))

    def prop(self, c):
        eng = self.eng
        try:
            c.fstr()
            kind = c.fstr()
            site = c.site()
            size = c.int(8)
            head = c.last
            if not isinstance(kind, str):
                return
            elem = None
            if kind == "StructProperty":
                c.fstr()
                c.skip(16)
            elif kind in ("EnumProperty", "ArrayProperty"):
                elem = c.fstr()
            elif kind == "MapProperty":
                c.fstr()
                c.fstr()
            elif kind == "BoolProperty":
                c.skip(1)
            flag = c.int(1)
            if flag == 1:
                c.skip(16)
            elif flag != 0:
                raise Off("id flag %r" % (flag,))
            self.equal(size, 0 if kind == "BoolProperty" else c.len(), site, "the size of a %s" % kind, head)
            if kind == "ArrayProperty":
                site = c.site()
                n = c.int(4)
                if elem == "StructProperty":
                    c.fstr()
                    c.fstr()
                    s2 = c.site()
                    inner = c.int(8)
                    c.fstr()
                    c.skip(17)
                    self.equal(inner, c.len(), s2, "the inner size of a struct array")
                self.elements(n, c, site, "array", elem)
            elif kind == "MapProperty":
                site = c.site()
                if c.int(4) != 0:
                    self.bad(site, "a map does not start with a zero count of removed keys")
                site = c.site()
                self.elements(c.int(4), c, site, "map", None)
        except Off as e:
            self.out.append(Finding("?undecided", None, "layout of the written property: %s" % e))

    def elements(self, n, c, site, what, elem):
        eng = self.eng
        rest = c.segs
        if len(rest) == 1 and isinstance(rest[0], RepSeg):
            self.equal(n, rest[0].count, site, "the count of %s" % ("an array" if what == "array" else "a map"))
        elif elem == "ByteProperty":
            self.equal(n, c.len(), site, "the count of a byte array")
        elif not rest:
            self.equal(n, 0, site, "the count of %s" % what)

    def equal(self, got, want, site, what, seg=None):
        eng = self.eng
        self.obl += 1
        d = eng.canon(sub(got, want)) if is_int(got) or isinstance(got, Lin) else None
        if d is None:
            raise Off("%s is %r" % (what, got))
        if type(d) is int and d == 0:
            self.proved.append(seg)
            return
        if has_unk(d) or has_unk(got):
            raise Off("%s: %r against %r" % (what, got, want))
        r = eng.cmp_decide("==", d)
        if r is True:
            return
        self.bad(site, "%s is written as %r but what follows measures %r" % (what, got, eng.canon(want)))


class Off(Exception):
    pass


class Cur:
    """A position in a list of written segments."""

    def __init__(self, eng, segs):
        self.eng = eng
        self.segs = list(segs)
        self.last = None  # the number read last

    def len(self):
        return self.eng.segs_len(self.segs)

    def site(self):
        return self.segs[0].site if self.segs else None

    def need(self):
        if not self.segs:
            raise Off("the written bytes end early")
        return self.segs[0]

    def int(self, n):
        s = self.need()
        if isinstance(s, CB) and len(s.data) >= n:
            v = int.from_bytes(s.data[:n], "little")
            self.cut(s, n)
            return v
        if isinstance(s, IntSeg) and s.size == n:
            self.last = self.segs.pop(0)
            v = self.eng.canon(s.val)
            if isinstance(v, T):
                v = atom(v) if v.ty == "int" else v
            return v
        if isinstance(s, Sub) and n > 1:
            return None
        raise Off("a %d byte number is expected, not %r" % (n, s))

    def cut(self, s, n):
        if len(s.data) == n:
            self.segs.pop(0)
        else:
            self.segs[0] = CB(s.data[n:], s.site)

    def fstr(self):
        s = self.need()
        if isinstance(s, TB) and s.term.op == "fsenc":
            self.segs.pop(0)
            return s.term.args[0]
        if isinstance(s, CB) and len(s.data) >= 4:
            n = int.from_bytes(s.data[:4], "little", signed=True)
            k = 4 + (n if n >= 0 else -2 * n)
            if len(s.data) < k:
                raise Off("string header %r" % s.data[:8])
            d = s.data[4:k]
            self.cut(s, k)
            return d[:-1].decode("ascii", "replace") if n > 0 else "" if n == 0 else d[:-2].decode("utf-16-le", "replace")
        raise Off("a string is expected, not %r" % (s,))

    def skip(self, n):
        while n:
            s = self.need()
            k = self.eng.canon(self.eng.seg_len(s))
            if isinstance(s, CB):
                k = min(k, n)
                self.cut(s, k)
            elif type(k) is int and k <= n:
                self.segs.pop(0)
            elif isinstance(s, Sub):
                self.segs[0] = Sub(s.blob, self.eng.canon(add(s.a, n)), s.b, s.site)
                k = n
            else:
                raise Off("%d more bytes are expected, not %r" % (n, s))
            n -= k


def stale_atoms(I, eng, ed):
    """Numbers of the input that count or measure something in it."""
    out = {}

    def put(v, what):
        a = lin_atom(v) if isinstance(v, Lin) else v
        if isinstance(a, T) and a.op == "int":
            out.setdefault(a, what)

    for n in ed.counts:
        put(n, "a count of elements")
    for lrs in eng.looprec.values():
        for lr in lrs:
            put(eng.canon(lr.count), "a count of elements")
    for (b, p), e in list(eng.expected.items()):
        for k, t, s in eng.fields.get((b, p), []):
            if k == "int" and t.args[2] == e[0] and type(eng.canon(e[1])) is not int:
                put(eng.canon(atom(t)), "a size")
                out.setdefault(t, "a size")
    return out


def numeric(it):
    if it[0] == "r":
        return all(numeric(x) for x in it[3])
    return it[0] == "b" or type(it[1]) is int or isinstance(it[1], Lin) or isinstance(it[1], T) and it[1].ty == "int"


def blobs_of(I, eng, v, out, seen, inside=False):
    """Byte strings stored in nested documents after the write."""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, OpNode):
        for x in list(v.overlay.values()) + list(v.kids.values()):
            blobs_of(I, eng, x, out, seen, True)
    elif isinstance(v, DictV):
        for x in list(v.d.values()) + [r[3] for r in v.reps]:
            blobs_of(I, eng, x, out, seen, inside)
    elif inside and isinstance(v, ListV) and v.items and all(numeric(it) for it in v.items):
        out.append(eng.segs_of(models.to_bytes_value(I, v)))
    elif isinstance(v, ListV):
        for it in v.items:
            if it[0] == "b" and inside:
                out.append(eng.segs_of(it[1]))
            elif it[0] == "i":
                blobs_of(I, eng, it[1], out, seen, inside)
            elif it[0] == "r":
                for y in it[3]:
                    if y[0] == "i":
                        blobs_of(I, eng, y[1], out, seen, inside)
    elif inside and isinstance(v, BytesV):
        out.append(eng.segs_of(v))


def finish(I, eng, rep, ed, stale, segs, doc, props):
    w = Walk(I, eng, ed, stale)
    if props:
        w.top(segs)
    w.generic(segs)
    bl = []
    blobs_of(I, eng, doc, bl, set())
    for b in bl:
        w.generic(b)
    rep.obligations += w.obl
    return w.out


def edited(keys=(), prefix="", only=None):
    def run(I, eng, rep):
        cuts.install(I)
        mod(I, TYPES)
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only)
        expectations(eng, "B0")
        ed = Edit(I, eng)
        doc = ed.edit(doc)
        stale = stale_atoms(I, eng, ed)
        eng.edited = True
        rep.obligations += 1
        try:
            wr = writer(I, reg)
            method(I, wr, "properties", doc)
            b = method(I, wr, "bytes")
        except AbsRaise as e:
            rep.rejected += 1
            rep.notes.setdefault("edited-raises", []).append((repr(e.exc), e.exc.site))
            raise Prune()
        return finish(I, eng, rep, ed, stale, eng.segs_of(models.to_bytes_value(I, b)), doc, True)

    return run


def edited_file(I, eng, rep):
    cuts.install(I)
    f, doc = read_file(I, eng, rep)
    ed = Edit(I, eng)
    doc = ed.edit(doc)
    stale = stale_atoms(I, eng, ed)
    eng.edited = True
    try:
        g = I.call(I.getattr(file_class(I), "load"), [doc], {})
        b = method(I, g, "write")
    except AbsRaise as e:
        rep.rejected += 1
        raise Prune()
    rep.obligations += 1
    return finish(I, eng, rep, ed, stale, eng.segs_of(models.to_bytes_value(I, b)), doc, False)


def lists(I, eng, rep):
    """Lists of any length written with a count in front."""
    wr = writer(I)
    try:
        I.getattr(wr, "tarray")
    except AbsRaise:
        return []  # written in another way: the codecs are checked with what they use
    t = T("ecount", (0,), "int")
    n = atom(t)
    eng.order.setdefault(t, len(eng.order))
    eng.nonneg(n)
    if eng.choose(2, "empty / not empty") == 0:
        eng.assume_cmp("==", n, True)
    else:
        eng.nonneg(sub(n, 1))
    items = ListV([], "list")
    items.items.append(("r", "E0", n, [("i", T("eitem", (), "int"))]))
    fn = I.getattr(attr(mod(I, ARCH), "FArchiveWriter"), "i64")
    rep.obligations += 1
    try:
        method(I, wr, "tarray", fn, items)
        b = method(I, wr, "bytes")
    except AbsRaise as e:
        return [Finding("size", e.exc.site, "a list cannot be written: %r" % (e.exc,))]
    c = Cur(eng, eng.segs_of(models.to_bytes_value(I, b)))
    site = c.site() or (ARCH, "FArchiveWriter.tarray", 0)
    k = c.int(4)
    w = Walk(I, eng, Edit(I, eng), {})
    w.equal(k, n, site, "the count of a list")
    w.equal(c.len(), mul(n, 8), site, "the extent of a list")
    return w.out
