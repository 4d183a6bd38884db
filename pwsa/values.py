"""Abstract values of the wire-provenance domain.

Nothing in here executes code of the analysed repository.  Values are either
plain Python constants (int, float, str, bytes, bool, None) when the analysis
knows them exactly, or one of the classes below.
"""


class T:
    """An opaque term: an immutable operator application, compared structurally."""

    __slots__ = ("op", "args", "ty", "_h", "_k")

    def __init__(self, op, args=(), ty="any"):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self._h = None
        self._k = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.op, self.args))
        return h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, T):
            return False
        return hash(self) == hash(o) and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def key(self):
        k = self._k
        if k is None:
            k = self._k = repr(self)
        return k

    def __repr__(self):
        return "%s(%s)" % (self.op, ",".join(_r(a) for a in self.args))


def _r(a):
    return repr(a)


class Lin:
    """Linear integer form  const + sum(coef * atom)."""

    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (T, coef) sorted by key
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        parts = []
        for a, k in self.t:
            parts.append(("" if k == 1 else ("-" if k == -1 else "%d*" % k)) + repr(a))
        if self.c or not parts:
            parts.append(str(self.c))
        return "+".join(parts).replace("+-", "-")


def mklin(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return c
    if len(items) > 1:
        items.sort(key=lambda p: p[0].key())
    return Lin(c, tuple(items))


def atom(t):
    return Lin(0, ((t, 1),))


def is_int(x):
    return type(x) is int or isinstance(x, Lin) or type(x) is bool


def as_lin(x):
    """(const, dict) of an int-ish value."""
    if isinstance(x, Lin):
        return x.c, dict(x.t)
    if isinstance(x, T):
        return 0, {x: 1}
    return int(x), {}


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if type(a) is int and a == 0 and isinstance(b, Lin):
        return b
    if type(b) is int and b == 0 and isinstance(a, Lin):
        return a
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mklin(ca + cb, da)


def neg(a):
    return mul(a, -1)


def sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    return add(a, neg(b))


def mul(a, k):
    if type(a) is int:
        return a * k
    c, d = as_lin(a)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def lin_atom(x):
    """The single atom of a Lin that is exactly 1*atom, else None."""
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0]
    return None


# ---------------------------------------------------------------- byte segments


class CB:
    """Constant bytes."""

    __slots__ = ("data", "site")

    def __init__(self, data, site=None):
        self.data = data
        self.site = site

    def __eq__(self, o):
        return isinstance(o, CB) and self.data == o.data

    def __hash__(self):
        return hash(("CB", self.data))

    def __repr__(self):
        return repr(self.data)


class Sub:
    """Bytes [a, b) of an input blob."""

    __slots__ = ("blob", "a", "b", "site")

    def __init__(self, blob, a, b, site=None):
        self.blob = blob
        self.a = a
        self.b = b
        self.site = site

    def __eq__(self, o):
        return isinstance(o, Sub) and (self.blob, self.a, self.b) == (o.blob, o.a, o.b)

    def __hash__(self):
        return hash(("Sub", self.blob, self.a, self.b))

    def __repr__(self):
        return "%s[%r:%r]" % (self.blob, self.a, self.b)


class IntSeg:
    """The fixed-width integer encoding of a value."""

    __slots__ = ("size", "signed", "endian", "val", "site")

    def __init__(self, size, signed, endian, val, site=None):
        self.size = size
        self.signed = signed
        self.endian = endian
        self.val = val
        self.site = site

    def __eq__(self, o):
        return isinstance(o, IntSeg) and (
            self.size,
            self.signed,
            self.endian,
            self.val,
        ) == (o.size, o.signed, o.endian, o.val)

    def __hash__(self):
        return hash(("IntSeg", self.size, self.signed, self.endian, self.val))

    def __repr__(self):
        return "%s%d%s(%r)" % (
            "i" if self.signed else "u",
            self.size * 8,
            "" if self.endian == "<" else "be",
            self.val,
        )


class FltSeg:
    __slots__ = ("size", "endian", "val", "site")

    def __init__(self, size, endian, val, site=None):
        self.size = size
        self.endian = endian
        self.val = val
        self.site = site

    def __eq__(self, o):
        return isinstance(o, FltSeg) and (self.size, self.endian, self.val) == (
            o.size,
            o.endian,
            o.val,
        )

    def __hash__(self):
        return hash(("FltSeg", self.size, self.endian, self.val))

    def __repr__(self):
        return "f%d(%r)" % (self.size * 8, self.val)


class TB:
    """Bytes described by a term (e.g. the compression of something)."""

    __slots__ = ("term", "site")

    def __init__(self, term, site=None):
        self.term = term
        self.site = site

    def __eq__(self, o):
        return isinstance(o, TB) and self.term == o.term

    def __hash__(self):
        return hash(("TB", self.term))

    def __repr__(self):
        return "<%r>" % (self.term,)


class RepSeg:
    """count repetitions of body (generic iteration of loop `loop`)."""

    __slots__ = ("loop", "count", "body", "pair", "site")

    def __init__(self, loop, count, body, pair=frozenset(), site=None):
        self.loop = loop
        self.count = count
        self.body = tuple(body)
        self.pair = pair
        self.site = site

    def __eq__(self, o):
        return isinstance(o, RepSeg) and (self.loop, self.count, self.body) == (
            o.loop,
            o.count,
            o.body,
        )

    def __hash__(self):
        return hash(("RepSeg", self.loop, self.count, self.body))

    def __repr__(self):
        return "{%s}x%r" % (" ".join(map(repr, self.body)), self.count)


class BytesV:
    """A bytes value as a sequence of segments."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, BytesV) and self.segs == o.segs

    def __hash__(self):
        return hash(("BytesV", self.segs))

    def __repr__(self):
        return "b<%s>" % " ".join(map(repr, self.segs))


# ---------------------------------------------------------------- heap objects

_seq = [0]


class Obj:
    """Base of heap objects: identity matters."""

    gen0 = False
    owner = ()  # loop frames alive at creation


class ListV(Obj):
    """List or tuple.  items: each is ('i', v) | ('r', loop, count, [items]) | ('b', BytesV)."""

    def __init__(self, items=(), kind="list"):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        o, c = ("[", "]") if self.kind == "list" else ("(", ")")
        out = []
        for it in self.items:
            if it[0] == "i":
                out.append(repr(it[1]))
            elif it[0] == "r":
                out.append("*%s{%s}" % (it[1], ",".join(repr(t[1]) for t in it[3])))
            else:
                out.append("*%r" % (it[1],))
        return o + ",".join(out) + c

    def concrete(self):
        return all(it[0] == "i" for it in self.items)

    def values(self):
        return [it[1] for it in self.items]


def mklist(vals, kind="list"):
    return ListV([("i", v) for v in vals], kind)


class DictV(Obj):
    """Dict: const-keyed entries in order, plus generic loop entries ('r', loop, count, key, value)."""

    def __init__(self):
        self.d = {}  # const key (or ('term', T)) -> value
        self.reps = []  # (loop, count, key, value)
        self.order = []  # interleaving: ('k', key) | ('r', index)
        self.poison = None

    def __repr__(self):
        return "{%s%s}" % (
            ",".join("%r:%r" % kv for kv in self.d.items()),
            "".join(" *%s{%r:%r}" % (r[0], r[2], r[3]) for r in self.reps),
        )

    def set(self, k, v):
        if k not in self.d:
            self.order.append(("k", k))
        self.d[k] = v

    def delete(self, k):
        del self.d[k]
        self.order.remove(("k", k))


class SetV(Obj):
    def __init__(self, vals=()):
        self.vals = list(vals)

    def __repr__(self):
        return "set(%r)" % (self.vals,)


class OpNode(Obj):
    """A node of a document produced by the (separately proven) generic property
    reader and looked into by name only.  Children are created on demand."""

    def __init__(self, root, path, extra=None):
        self.root = root  # ('props', blob, start) or similar key
        self.path = path
        self.kids = {}
        self.overlay = {}
        self.deleted = set()
        self.info = extra  # only on root nodes: dict(blob,start,end,path,reader)

    def term(self, ty="any"):
        return T("op", (self.root, self.path), ty)

    def __repr__(self):
        return "doc<%s%s>" % (self.root, "".join("/" + str(p) for p in self.path))


class ByteArrV(Obj):
    """A bytearray."""

    def __init__(self, segs=()):
        self.segs = list(segs)


class StreamV(Obj):
    def __init__(self, segs=()):
        self.segs = list(segs)
        self.pos = 0
        self.closed = False


class FuncV(Obj):
    def __init__(self, name, node, module, closure, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = False

    @property
    def qual(self):
        return (self.cls + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<fn %s.%s>" % (self.module.name if self.module else "?", self.qual)


class ClassV(Obj):
    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.dataclass = None  # list of (field, default) when generated init

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.mro()
            else:
                out.append(b)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class InstanceV(Obj):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<%s %s>" % (
            self.cls.name,
            ",".join("%s=%r" % kv for kv in self.attrs.items() if not isinstance(kv[1], Obj)),
        )


class StaticV(Obj):
    def __init__(self, fn):
        self.fn = fn


class ClassMethodV(Obj):
    def __init__(self, fn):
        self.fn = fn


class PropertyV(Obj):
    def __init__(self, fn):
        self.fn = fn


class BoundV(Obj):
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class BuiltinV(Obj):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeV(Obj):
    """A builtin type object (int, str, ...)."""

    def __init__(self, name, fn, attrs=None):
        self.name = name
        self.fn = fn
        self.attrs = attrs or {}

    def __repr__(self):
        return "<type %s>" % self.name


class ExcClassV(Obj):
    """A builtin exception class."""

    def __init__(self, name, base):
        self.name = name
        self.base = base

    def __repr__(self):
        return "<exc %s>" % self.name


class ExcV(Obj):
    """An exception instance."""

    def __init__(self, cls, args, site=None, implicit=False):
        self.cls = cls
        self.args = args
        self.site = site
        self.implicit = implicit  # raised by a modelled primitive, not by a raise statement
        self.attrs = {}

    def __repr__(self):
        return "%s(%s)" % (
            getattr(self.cls, "name", self.cls),
            ",".join(map(repr, self.args)),
        )


class ModuleV(Obj):
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.external = False

    def __repr__(self):
        return "<module %s>" % self.name


class PyUuid(Obj):
    """A uuid.UUID value given by its 16 big-endian bytes."""

    def __init__(self, b):
        self.b = b  # BytesV or bytes

    def __repr__(self):
        return "uuid(%r)" % (self.b,)


class RangeV(Obj):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class IterV(Obj):
    """A composed iterable: kind in enumerate/zip/reversed/map/items/keys/values/filter."""

    def __init__(self, kind, src, extra=None):
        self.kind = kind
        self.src = src
        self.extra = extra

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.src)


class LazyGen(IterV):
    """A generator not yet run: src() runs it and gives the list of what it yields."""

    def __init__(self, src):
        IterV.__init__(self, "gen", src)
        self.done = False
        self.loops = ()

    def __repr__(self):
        return "<generator>"


class NTupleV(ListV):
    """An instance of a NamedTuple class."""

    def __init__(self, vals, cls):
        ListV.__init__(self, [("i", v) for v in vals], "tuple")
        self.cls = cls


class EnumV(Obj):
    """An enumeration class; members of int and str enumerations are their values."""

    def __init__(self, cls, members, plain):
        self.cls = cls
        self.name = cls.name
        self.members = members  # name -> member
        self.plain = plain  # members are constants

    def __repr__(self):
        return "<enum %s>" % self.name


class PathV(Obj):
    """A pathlib path given by its text."""

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "Path(%r)" % (self.p,)


class CtxGen(Obj):
    """A context manager made from a generator function."""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class LazyLoopVar:
    """Value of a variable after a loop: initial (zero iterations) or last."""

    def __init__(self, loop, init, last):
        self.loop, self.init, self.last = loop, init, last


class FileV(Obj):
    def __init__(self, path, mode, info):
        self.path = path
        self.mode = mode
        self.info = info

    def __repr__(self):
        return "<file %r %s>" % (self.path, self.mode)


class NS(Obj):
    """A simple attribute bag (argparse namespace, structured results)."""

    def __init__(self, name, attrs):
        self.name = name
        self.attrs = attrs

    def __repr__(self):
        return "<%s>" % self.name


MISSING = object()
