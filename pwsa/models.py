"""Models of Python's builtins and of the standard-library functions the analysed
code uses, over the abstract values.  These are the trusted base of the analysis."""

import functools

import codecs
import math
import struct as _struct

from .values import *
from .engine import *


class SymKey:
    """Symbolic dictionary key."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, SymKey) and self.v == o.v

    def __hash__(self):
        return hash(("SymKey", self.v))

    def __repr__(self):
        return "<%r>" % (self.v,)


CONST = (int, float, str, bytes, bool, type(None), type(Ellipsis))


def is_const(v):
    return type(v) in (int, float, str, bytes, bool) or v is None


# ------------------------------------------------------------------ exceptions

EXC_TREE = {
    "BaseException": None,
    "Exception": "BaseException",
    "SystemExit": "BaseException",
    "KeyboardInterrupt": "BaseException",
    "ArithmeticError": "Exception",
    "OverflowError": "ArithmeticError",
    "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception",
    "AttributeError": "Exception",
    "EOFError": "Exception",
    "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception",
    "IndexError": "LookupError",
    "KeyError": "LookupError",
    "NameError": "Exception",
    "UnboundLocalError": "NameError",
    "OSError": "Exception",
    "IOError": "OSError",
    "EnvironmentError": "OSError",
    "NotADirectoryError": "OSError",
    "IsADirectoryError": "OSError",
    "TimeoutError": "OSError",
    "InterruptedError": "OSError",
    "BlockingIOError": "OSError",
    "ConnectionError": "OSError",
    "BrokenPipeError": "ConnectionError",
    "ConnectionResetError": "ConnectionError",
    "BufferError": "Exception",
    "SyntaxError": "Exception",
    "SystemError": "Exception",
    "ReferenceError": "Exception",
    "StopAsyncIteration": "Exception",
    "FloatingPointError": "ArithmeticError",
    "UnicodeTranslateError": "UnicodeError",
    "GeneratorExit": "BaseException",
    "FileNotFoundError": "OSError",
    "FileExistsError": "OSError",
    "PermissionError": "OSError",
    "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError",
    "StopIteration": "Exception",
    "TypeError": "Exception",
    "ValueError": "Exception",
    "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError",
    "UnicodeEncodeError": "UnicodeError",
    "Warning": "Exception",
    "UserWarning": "Warning",
    "DeprecationWarning": "Warning",
    "RuntimeWarning": "Warning",
    "FutureWarning": "Warning",
    "UnicodeWarning": "Warning",
    "BytesWarning": "Warning",
    "ResourceWarning": "Warning",
    "PendingDeprecationWarning": "Warning",
    "SyntaxWarning": "Warning",
    "ImportWarning": "Warning",
    "error": "Exception",
    "JSONDecodeError": "ValueError",
    "MemoryError": "Exception",
}


def exc_chain(c):
    out = []
    if isinstance(c, ClassV):
        out.append(c.name)
        for b in c.bases:
            out += exc_chain(b)
        return out
    n = c.name if isinstance(c, ExcClassV) else c
    while n:
        out.append(n)
        if n in EXC_TREE:
            n = EXC_TREE[n]
        else:
            n = c.base if isinstance(c, ExcClassV) and n == c.name else None
    return out


def exc_isinstance(exc, cls):
    name = cls if isinstance(cls, str) else cls.name
    ch = exc_chain(exc.cls)
    if name in ch:
        return True
    if ch and ch[0] == "?":
        return None
    return False


# ------------------------------------------------------------------ type tests


def type_name(v):
    if type(v) is bool:
        return "bool"
    if type(v) is int or isinstance(v, Lin):
        return "int"
    if type(v) is float:
        return "float"
    if type(v) is str:
        return "str"
    if type(v) is bytes or isinstance(v, BytesV):
        return "bytes"
    if v is None:
        return "NoneType"
    if isinstance(v, ListV):
        return v.kind
    if isinstance(v, DictV):
        return "dict"
    if isinstance(v, SetV):
        return "set"
    if isinstance(v, ByteArrV):
        return "bytearray"
    if isinstance(v, PyUuid):
        return "uuid.UUID"
    if isinstance(v, StreamV):
        return "BytesIO"
    if isinstance(v, T):
        if v.op == "nf":
            return None
        if v.ty in ("int", "float", "str", "bool", "bytes"):
            return v.ty
        return None
    if isinstance(v, (FuncV, BoundV, BuiltinV)):
        return "function"
    if isinstance(v, (TypeV, ClassV, ExcClassV)):
        return "type"
    return None


TYPE_BASES = {"bool": ("bool", "int"), "tuple": ("tuple", "Sequence"), "list": ("list", "Sequence")}


def isinstance_(I, v, t):
    if isinstance(t, ListV):
        r = False
        for x in t.values():
            q = isinstance_(I, v, x)
            if q is True:
                return True
            if q is not False:
                r = q if r is False else T("or", (r, q), "bool")
        return r
    if isinstance(t, EnumV):
        t = t.cls
    if isinstance(v, (InstanceV, NTupleV)):
        if isinstance(t, ClassV):
            return t in v.cls.mro()
        return isinstance(v, NTupleV) and isinstance(t, TypeV) and t.name in ("tuple", "object")
    if isinstance(v, ExcV):
        if isinstance(t, (ExcClassV, ClassV)):
            r = exc_isinstance(v, t)
            return r if r is not None else T("excis", (id(v), t.name), "bool")
        return False
    if isinstance(t, ClassV):
        if isinstance(v, (OpNode,)):
            return T("isinst", (v.root, v.path, t.name), "bool")
        return False
    tn = t.name if isinstance(t, (TypeV, ExcClassV)) else None
    if tn is None:
        raise Undecided("isinstance against %r" % (t,))
    vn = type_name(v)
    if vn is None:
        if isinstance(v, OpNode):
            return T("isinst", (v.root, v.path, tn), "bool")
        if isinstance(v, T) and v.op != "nf":
            return T("isinst", (v, tn), "bool")
        if isinstance(v, T) and v.op == "nf":
            if tn == "float":
                return I.not_(is_(I, v, None))
            return False
        return False
    if tn == "object":
        return True
    if vn == "bool":
        return tn in ("bool", "int")
    return vn == tn


# ------------------------------------------------------------------ truth / equality


def boolval(I, v):
    eng = I.eng
    if type(v) is bool:
        return v
    if is_const(v):
        return bool(v)
    if isinstance(v, Lin):
        v = eng.canon(v)
        if type(v) is int:
            return bool(v)
        return cmp_t(I, "!=", v, 0)
    if isinstance(v, T):
        if v.ty == "bool":
            r = eng.res(v)
            return r
        if v.op == "ite":
            a, b = v.args[1], v.args[2]
            if bool(a) and not bool(b):
                return v.args[0]
            if not bool(a) and bool(b):
                return I.not_(v.args[0])
        if v.ty == "int":
            return boolval(I, atom(v))
        if v.ty == "str":
            return I.not_(eq(I, v, ""))
        if v.ty == "float":
            return T("not", (T("fzero", (v,), "bool"),), "bool")
        r = eng.res(v)
        if is_const(r):
            return bool(r)
        return T("truth", (v,), "bool")
    if isinstance(v, BytesV):
        return boolval(I, eng.segs_len(v.segs))
    if isinstance(v, ByteArrV):
        return boolval(I, eng.segs_len(v.segs))
    if isinstance(v, ListV):
        return boolval(I, list_len(I, v))
    if isinstance(v, DictV):
        if v.d:
            return True
        if not v.reps:
            return False
        return boolval(I, v.reps[0][1])
    if isinstance(v, SetV):
        return bool(v.vals)
    if isinstance(v, OpNode):
        if v.path and v.path[-1] == "values":
            return boolval(I, atom(T("oplen", (v.root, v.path), "int")))
        return T("truth", (v.term(),), "bool")
    if isinstance(v, InstanceV):
        f = v.cls.lookup("__bool__")
        if f is not None:
            return boolval(I, I.call(BoundV(f, v), [], {}))
        f = v.cls.lookup("__len__")
        if f is not None:
            return boolval(I, I.call(BoundV(f, v), [], {}))
        return True
    if isinstance(v, RangeV):
        return boolval(I, range_len(I, v))
    return True


def cmp_t(I, rel, a, b):
    """Comparison of ints as a bool or boolean term."""
    d = I.eng.canon(sub(a, b))
    if rel == "==":
        r = I.eng.cmp_decide("==", d)
        return r if r is not None else T("cmp", ("==", d), "bool")
    if rel == "!=":
        r = I.eng.cmp_decide("==", d)
        return (not r) if r is not None else T("not", (T("cmp", ("==", d), "bool"),), "bool")
    if rel == "<":
        r = I.eng.cmp_decide("<", d)
        return r if r is not None else T("cmp", ("<", d), "bool")
    if rel == ">":
        return cmp_t(I, "<", b, a)
    if rel == "<=":
        return I.not_(cmp_t(I, "<", b, a))
    if rel == ">=":
        return I.not_(cmp_t(I, "<", a, b))
    raise AssertionError


def order_cmp(I, op, a, b):
    rel = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
    a, b = I.eng.res(a), I.eng.res(b)
    if is_const(a) and is_const(b):
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[rel]()
        except TypeError:
            I.raise_("TypeError", "unorderable")
    a2, b2 = to_int(a), to_int(b)
    if a2 is not None and b2 is not None:
        return cmp_t(I, rel, a2, b2)
    if isinstance(a, OpNode):
        a = a.term()
    if isinstance(b, OpNode):
        b = b.term()
    one = lambda x: isinstance(x, T) and x.op == "chr" or isinstance(x, str) and len(x) == 1
    if one(a) and one(b):
        code = lambda x: ord(x) if isinstance(x, str) else x.args[0]
        return cmp_t(I, rel, code(a), code(b))
    if isinstance(a, (T, str)) and isinstance(b, (T, str)) and all(isinstance(x, str) or x.ty == "str" for x in (a, b)):
        return T("scmp", (rel, I.eng.canon(a), I.eng.canon(b)), "bool")
    if isinstance(a, (T, Lin, float, int)) and isinstance(b, (T, Lin, float, int)):
        return T("fcmp", (rel, a, b), "bool")
    if isinstance(a, (BytesV, ListV, DictV, str)) or a is None or b is None:
        I.raise_("TypeError", "unorderable")
    raise Undecided("comparison %s of %r and %r" % (op, a, b))


def to_int(v):
    """Integer view: int/Lin, or None."""
    if type(v) is bool:
        return int(v)
    if type(v) is int or isinstance(v, Lin):
        return v
    if isinstance(v, T) and v.ty == "int":
        return atom(v)
    return None


def fclass(I, x, names):
    return T("in", (I.eng.fclass_term(x), frozenset(names)), "bool")


def eq(I, a, b):
    eng = I.eng
    if a is b and not isinstance(a, (InstanceV, T)):
        return True
    a, b = eng.res(a), eng.res(b)
    if is_const(a) and is_const(b):
        return a == b
    if isinstance(a, InstanceV):
        f = a.cls.lookup("__eq__")
        if f is not None:
            return I.call(BoundV(f, a), [b], {})
        if a.cls.dataclass is not None and isinstance(b, InstanceV) and b.cls is a.cls:
            rs = [eq(I, a.attrs.get(n), b.attrs.get(n)) for n, _ in a.cls.dataclass]
            return conj(rs)
        return a is b
    if isinstance(b, InstanceV):
        return eq(I, b, a)
    # numbers
    ia, ib = to_int(a), to_int(b)
    if ia is not None and ib is not None:
        if isinstance(a, T) and a.op == "ite":
            return eq_ite(I, a, b)
        if isinstance(b, T) and b.op == "ite":
            return eq_ite(I, b, a)
        return cmp_t(I, "==", ia, ib)
    if (isinstance(a, T) and a.ty == "bool") or (isinstance(b, T) and b.ty == "bool"):
        if isinstance(b, T) and b.ty == "bool":
            a, b = b, a
        if b is True or (type(b) is int and b == 1):
            return a
        if b is False or (type(b) is int and b == 0):
            return I.not_(a)
        if isinstance(b, T) and a == b:
            return True
        if b is None or isinstance(b, (str, bytes)):
            return False
        return T("eq", (a, b), "bool")
    # floats
    if isinstance(a, T) and a.ty == "float" or isinstance(b, T) and b.ty == "float":
        if not (isinstance(a, T) and a.ty == "float"):
            a, b = b, a
        if type(b) is float:
            if b != b:
                return False
            if b == math.inf:
                return fclass(I, a, ["inf"])
            if b == -math.inf:
                return fclass(I, a, ["-inf"])
            return T("feq", (a, b), "bool")
        if b is None or isinstance(b, (str, bytes)):
            if b is None and a.op == "nf":
                return is_(I, a, None)
            return False
        if isinstance(b, T) and eng.same(a, b):
            return fclass(I, a, ["inf", "-inf", "finite"])
        if isinstance(b, (T, Lin, int)):
            return T("feq", (a, b), "bool")
        return False
    # bytes
    if isinstance(a, BytesV) or isinstance(b, BytesV):
        if isinstance(a, (ByteArrV,)):
            a = eng.mkbytes(a.segs)
        if isinstance(b, (ByteArrV,)):
            b = eng.mkbytes(b.segs)
        if not isinstance(a, (bytes, BytesV)) or not isinstance(b, (bytes, BytesV)):
            return False
        if eng.canon(a) == eng.canon(b):
            return True
        la, lb = eng.segs_len(eng.segs_of(a)), eng.segs_len(eng.segs_of(b))
        r = eng.cmp_decide("==", sub(la, lb))
        if r is False:
            return False
        # single integer field against a constant
        if isinstance(b, BytesV):
            a, b = b, a
        if isinstance(b, bytes) and len(a.segs) == 1 and isinstance(a.segs[0], Sub) and la == len(b):
            s = a.segs[0]
            v = eng.int_atom(s.blob, s.a, len(b), False, "<") if len(b) in (1, 2, 4, 8) else None
            if v is not None:
                return cmp_t(I, "==", v, int.from_bytes(b, "little"))
            return T("in", (T("bts", (s.blob, eng.canon(s.a), len(b)), "bytes"), frozenset([b])), "bool")
        return T("eqb", (eng.canon(a), eng.canon(b)), "bool")
    # strings / general terms
    if isinstance(a, ListV) and not a.items and isinstance(b, OpNode):
        a, b = b, a
    if isinstance(a, OpNode) and isinstance(b, ListV) and not b.items and a.path and a.path[-1] == "values":
        return I.not_(boolval(I, a)) if b.kind == "list" else False
    if isinstance(a, OpNode):
        a = eng.res(a.term())
    if isinstance(b, OpNode):
        b = eng.res(b.term())
    if is_const(a) and is_const(b):
        return a == b
    if isinstance(b, T) and not isinstance(a, T):
        a, b = b, a
    if isinstance(a, T):
        if isinstance(b, T):
            if eng.same(a, b):
                return True
            return T("eq", tuple(sorted((a, b), key=lambda t: t.key())), "bool")
        if isinstance(b, str) or type(b) in (int, float) or b is None:
            if a.ty == "str" and not isinstance(b, str):
                return False
            if a.ty == "bytes":
                return False
            return T("in", (a, frozenset([b])), "bool")
        if isinstance(b, Lin):
            return T("eq", (a, b), "bool")
        if isinstance(b, (ListV, DictV)):
            return T("eqobj", (a, id(b)), "bool")
        return False
    if isinstance(a, PyUuid) and isinstance(b, PyUuid):
        return eq(I, a.b, b.b)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if a.kind != b.kind:
            return False
        if a.concrete() and b.concrete():
            if len(a.items) != len(b.items):
                return False
            return conj([eq(I, x, y) for x, y in zip(a.values(), b.values())])
        return T("eqobj", (id(a), id(b)), "bool")
    if isinstance(a, DictV) and isinstance(b, DictV):
        if not a.reps and not b.reps:
            if set(a.d) != set(b.d):
                return False
            return conj([eq(I, a.d[k], b.d[k]) for k in a.d])
        return T("eqobj", (id(a), id(b)), "bool")
    if isinstance(a, SetV) and isinstance(b, SetV) and all(is_const(v) for v in a.vals + b.vals):
        return set(a.vals) == set(b.vals)
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    return False


def eq_ite(I, a, b):
    c, x, y = a.args
    b = I.eng.res(b)
    if type(b) in (int, bool):
        if x == b and y == b:
            return True
        if x == b:
            return c
        if y == b:
            return I.not_(c)
        return False
    if isinstance(b, T) and I.eng.same(a, b):
        return True
    return T("eq", (a, b), "bool")


def conj(rs):
    if any(r is False for r in rs):
        return False
    rs = [r for r in rs if r is not True]
    if not rs:
        return True
    if len(rs) == 1:
        return rs[0]
    return T("and", tuple(rs), "bool")


def is_(I, a, b):
    eng = I.eng
    if a is b:
        return True
    if b is None or a is None:
        x = a if b is None else b
        if x is None:
            return True
        if isinstance(x, T):
            if x.op == "nf":
                return T("in", (eng.fclass_term(T("flt", x.args, "float")), frozenset(["nan", "inf", "-inf"])), "bool")
            if x.ty in ("int", "float", "str", "bytes", "bool"):
                return False
            r = eng.res(x)
            if not isinstance(r, T):
                return r is None
            return T("in", (r, frozenset([None])), "bool")
        if isinstance(x, OpNode):
            return T("in", (x.term(), frozenset([None])), "bool")
        return False
    for x, y in ((a, b), (b, a)):
        if type(x) is bool:
            if type(y) is bool:
                return x == y
            if isinstance(y, T) and y.ty == "bool":
                return y if x else I.not_(y)
            if isinstance(y, T) and y.ty == "any":
                return T("in", (y, frozenset([x])), "bool")
            return False
    if type(a) is int and type(b) is int:
        return a == b if -5 <= a <= 256 else T("isid", (a, b), "bool")
    if type(a) is str and type(b) is str:
        # equal constants written once are interned; anything else is a new object
        if a != b:
            return False
        return len(a) < 2 or (a.isidentifier())
    if isinstance(a, (ClassV, TypeV, ExcClassV, FuncV)) or isinstance(b, (ClassV, TypeV, ExcClassV, FuncV)):
        return a is b
    return False


# ------------------------------------------------------------------ containers


def list_len(I, v):
    n = 0
    for it in v.items:
        n = add(n, item_len(I, it))
    return I.eng.canon(n)


def item_len(I, it):
    if it[0] == "i":
        return 1
    if it[0] == "b":
        return I.eng.segs_len(I.eng.segs_of(it[1]))
    k = 0
    for x in it[3]:
        k = add(k, item_len(I, x))
    k = I.eng.canon(k)
    if type(k) is int:
        return mul(it[2], k)
    return atom(T("blen", (T("replist", (it[1], it[2])),), "int"))


def length(I, v):
    eng = I.eng
    if type(v) in (str, bytes):
        return len(v)
    if isinstance(v, BytesV):
        return eng.segs_len(v.segs)
    if isinstance(v, ByteArrV):
        return eng.segs_len(v.segs)
    if isinstance(v, ListV):
        return list_len(I, v)
    if isinstance(v, DictV):
        n = len(v.d)
        for r in v.reps:
            n = add(n, r[1])
        return eng.canon(n)
    if isinstance(v, SetV):
        return len(v.vals)
    if isinstance(v, OpNode):
        return eng.canon(atom(T("oplen", (v.root, v.path), "int")))
    if isinstance(v, RangeV):
        return range_len(I, v)
    if isinstance(v, T):
        if v.op == "cat":
            return eng.canon(functools.reduce(add, [length(I, eng.res(x)) for x in v.args], 0))
        if v.op == "decode" and v.args[0] in ("ascii", "latin-1", "iso8859-1") and v.args[1] in ("strict", "surrogatepass"):
            return eng.segs_len(eng.segs_of(v.args[2]))
        if v.op == "decode":
            return atom(T("strlen", (eng.canon(v),), "int"))
        if v.ty in ("str", "any", "bytes"):
            return atom(T("strlen", (eng.canon(v),), "int"))
    if isinstance(v, IterV) and v.kind in ("keys", "values", "items"):
        return length(I, v.src)
    if isinstance(v, InstanceV):
        f = v.cls.lookup("__len__")
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    if v is None or isinstance(v, (int, float, Lin)):
        I.raise_("TypeError", "object has no len()")
    raise Undecided("len of %r" % (v,))


def range_len(I, r):
    if type(r.step) is int and r.step == 1:
        n = I.eng.canon(sub(r.stop, r.start))
        if type(n) is int:
            return max(n, 0)
        return n
    if all(type(x) is int for x in (r.start, r.stop, r.step)):
        return len(range(r.start, r.stop, r.step))
    if type(r.step) is int and r.step == -1:
        return I.eng.canon(sub(r.start, r.stop))
    raise Undecided("range with step")


def no_attr(I, real, name, what):
    """AttributeError if the real type has no such attribute; otherwise it is not modelled."""
    if hasattr(real, name):
        raise Undecided("attribute %s of %s" % (name, what))
    I.raise_("AttributeError", "%s has no attribute %r" % (what, name))


def set_order(I, s):
    """Elements of a set; their order is arbitrary."""
    l = list(s.vals)
    if len(l) > 1:
        I.eng.event("set-order")
        if I.config.get("set_order"):
            l.reverse()
    return l


def mutate(I, o, what):
    if o.gen0 and not I.eng.gen0:
        I.eng.event("global-mutation", obj=o, what=what)
    ro = getattr(o, "readonly", None)
    if ro:
        I.eng.event("input-mutation", obj=o, what=what, label=ro)


def list_append(I, l, v):
    mutate(I, l, "append")
    touch_list(I, l)
    l.items.append(("i", v))


def touch_list(I, l):
    for lf in I.eng.loops:
        if not I.eng.inside(l, lf) and l not in lf.lists:
            lf.lists[l] = len(l.items)


def list_extend(I, l, v):
    mutate(I, l, "extend")
    touch_list(I, l)
    l.items.extend(seq_items(I, v))


def force_gen(I, g, stop=None):
    """Run a generator; what is left of it afterwards is empty."""
    eng = I.eng
    if g.loops != tuple(lf.id for lf in eng.loops):
        raise Undecided("generator made outside the loop that runs it")
    if g.done:
        if g.partial:
            raise Undecided("generator used again after a partial run")
        return ListV()
    g.done = True
    g.partial = stop is not None
    n = I.stream_ops
    r = g.src(stop)
    g.moved = I.stream_ops != n
    return r


def enum_call(I, e, args):
    x = I.eng.res(args[0])
    for m in e.members.values():
        v = m if e.plain else m.attrs["value"]
        if I.truth(eq(I, x, v)):
            return m
    I.raise_("ValueError", "not a valid %s" % e.name)


def path_text(I, v):
    """The text of a path given as a string or a path object."""
    return v.p if isinstance(v, PathV) else v


def seq_items(I, v):
    """Items of any iterable as list items (copying structure)."""
    if isinstance(v, LazyGen):
        v = force_gen(I, v)
    if isinstance(v, ListV):
        return list(v.items)
    if isinstance(v, BytesV):
        return [("b", v)]
    if isinstance(v, ByteArrV):
        return [("b", I.eng.mkbytes(v.segs))] if v.segs else []
    out = ListV()
    out.owner = tuple(f.id for f in I.eng.loops)
    for c in I.plan(v):
        if c[0] == "one":
            out.items.append(("i", c[1]))
        elif c[0] == "lazyone":
            out.items.append(("i", c[1]()))
        else:

            def body(lf, c=c):
                list_append(I, out, c[2](lf))

            class F:
                pass

            fr = I.stack[-1]
            I.generic_loop(("seq", fr.module.name, fr.line, fr.qual), fr, c[1], c[3], set(), body)
    return out.items


def norm_rep_items(I, lf, tail):
    eng = I.eng
    eng.__dict__.setdefault("loop_pairs", {})[lf.id] = set(lf.pairs)
    if len(tail) == 1 and tail[0][0] == "i":
        v = tail[0][1]
        a = lin_atom(eng.canon(v)) if isinstance(v, Lin) else None
        if a is not None and a.op == "int" and a.args[2] == 1 and a.args[3] is False:
            c, d = as_lin(a.args[1])
            idx = T("idx", (lf.id,), "int")
            if d.get(idx) == 1:
                d = dict(d)
                del d[idx]
                st = mklin(c, d)
                return [("b", BytesV([Sub(a.args[0], st, eng.canon(add(st, lf.count)))]))]
    return [("r", lf.id, lf.count, tail)]


def to_list(I, v):
    """Concrete python list of the elements, or None."""
    if isinstance(v, LazyGen):
        v = force_gen(I, v)
    if isinstance(v, EnumV):
        return list(v.members.values())
    if isinstance(v, ListV):
        out = []
        for it in v.items:
            if it[0] == "i":
                out.append(it[1])
            elif it[0] == "b":
                n = item_len(I, it)
                if type(n) is not int or n > 4096:
                    return None
                out.extend(byte_at(I, it[1], j) for j in range(n))
            else:
                n = I.eng.canon(it[2])
                return None
        return out
    if isinstance(v, (str, bytes)):
        return list(v)
    if isinstance(v, BytesV):
        n = I.eng.segs_len(v.segs)
        if type(n) is int and n <= 4096:
            return [byte_at(I, v, j) for j in range(n)]
        return None
    if isinstance(v, DictV):
        if v.reps:
            return None
        return [k.v if isinstance(k, SymKey) else k for k in v.d]
    if isinstance(v, SetV):
        return list(v.vals)
    if isinstance(v, (IterV, RangeV)):
        out = []
        for c in I.plan(v):
            if c[0] == "one":
                out.append(c[1])
            elif c[0] == "lazyone":
                out.append(c[1]())
            else:
                return None
        return out
    return None


def byte_at(I, b, i):
    eng = I.eng
    if type(b) is bytes:
        if type(i) is int:
            try:
                return b[i]
            except IndexError:
                I.raise_("IndexError", "index out of range")
        raise Undecided("symbolic index into constant bytes")
    i = eng.canon(i)
    n = eng.segs_len(b.segs)
    if type(i) is int and i < 0:
        i = eng.canon(add(n, i))
    r = eng.cmp_decide("<", sub(i, n))
    if r is False:
        I.raise_("IndexError", "index out of range")
    if len(b.segs) == 1 and isinstance(b.segs[0], Sub):
        s = b.segs[0]
        if getattr(I.eng, "short_check", False) and r is None:
            if not eng.force(T("cmp", ("<", eng.canon(sub(i, n))), "bool")):
                I.raise_("IndexError", "index out of range")
        return eng.int_atom(s.blob, add(s.a, i), 1, False)
    one = eng.slice_bytes(b, i, add(i, 1))
    if one is None:
        a = lin_atom(i) if isinstance(i, Lin) else None
        if a is not None and a.op == "idx":
            fz = eng.__dict__.setdefault("frozen", {})
            fz[len(fz)] = eng.segs_of(b)
            return atom(T("elt", (len(fz) - 1, a), "int"))
        return atom(eng.fresh("unk", "int", "byte of %r" % (b,)))
    return eng.unpack_int(one, 1, False, "<")


def bytes_from_iter(I, v):
    """bytes(v) for an iterable of ints."""
    eng = I.eng
    segs = []
    site = eng.cur_site()

    def item(it, segs):
        if it[0] == "i":
            x = it[1]
            if isinstance(x, OpNode):
                x = atom(x.term("int"))
            if isinstance(x, (str, bytes, BytesV, ListV, DictV, float)) or x is None or (isinstance(x, T) and x.ty in ("str", "float")):
                I.raise_("TypeError", "object cannot be interpreted as an integer")
            try:
                segs.append(eng.pack_int(x, 1, False, "<"))
            except AbsRaise:
                I.raise_("ValueError", "bytes must be in range(0, 256)")
        elif it[0] == "b":
            segs.extend(eng.segs_of(it[1]))
        else:
            body = []
            for x in it[3]:
                item(x, body)
            pairs = {it[1]} | eng.__dict__.get("loop_pairs", {}).get(it[1], set())
            segs.extend(eng.norm_reps(RepSeg(it[1], it[2], eng.norm_segs(body), frozenset(pairs), site)))

    for it in seq_items(I, v):
        item(it, segs)
    return eng.mkbytes(segs)


def to_bytes_value(I, v):
    eng = I.eng
    if isinstance(v, (bytes, BytesV)):
        return v
    if isinstance(v, ByteArrV):
        return eng.mkbytes(v.segs)
    if isinstance(v, OpNode):
        return raw_blob(I, v)
    if isinstance(v, ListV) or isinstance(v, (IterV, RangeV)):
        return bytes_from_iter(I, v)
    if isinstance(v, T) and v.ty in ("any", "bytes"):
        return BytesV([TB(v)])
    if type(v) is str or (isinstance(v, T) and v.ty == "str"):
        I.raise_("TypeError", "string argument without an encoding")
    if v is None or isinstance(v, (float, DictV, InstanceV)):
        I.raise_("TypeError", "cannot convert to bytes")
    raise Undecided("bytes of %r" % (v,))


def raw_blob(I, node):
    n = atom(T("oplen", (node.root, node.path), "int"))
    blob = "raw:%s%s" % (node.root, "".join("/" + str(p) for p in node.path))
    a = T("oplen", (node.root, node.path), "int")
    if a not in I.eng.order:
        I.eng.order[a] = len(I.eng.order)
    I.eng.__dict__.setdefault("raw_nodes", {})[blob] = node
    if I.eng.canon(n) == 0:
        return b""
    return BytesV([Sub(blob, 0, n)])


def dict_set(I, d, k, v):
    eng = I.eng
    mutate(I, d, "set item")
    if isinstance(k, OpNode):
        k = k.term()
    raw = k
    k = eng.res(k)
    if isinstance(raw, T) and is_const(k) and eng.loops:
        fr = None
        for lf in eng.loops:
            if not eng.inside(d, lf):
                fr = lf
        if fr is not None:
            fr.dictreps.append((d, raw, v))
            return
    if is_const(k):
        d.set(k, v)
        return
    if isinstance(k, (ListV, DictV)) and not (isinstance(k, ListV) and k.kind == "tuple"):
        I.raise_("TypeError", "unhashable type")
    if isinstance(k, (T, Lin, InstanceV, ListV, BytesV, PyUuid)):
        fr = None
        for lf in eng.loops:
            if not eng.inside(d, lf):
                fr = lf
        if fr is not None:
            fr.dictreps.append((d, k, v))
            return
        d.set(SymKey(k), v)
        return
    d.set(k, v)


def dict_update(I, d, o):
    mutate(I, d, "update")
    if isinstance(o, DictV):
        for x in o.order:
            if x[0] == "k":
                d.set(x[1], o.d[x[1]])
            else:
                d.reps.append(o.reps[x[1]])
                d.order.append(("r", len(d.reps) - 1))
        return
    if isinstance(o, OpNode):
        for k, v in o.overlay.items():
            d.set(k, v)
        raise Undecided("update from opaque document")
    l = to_list(I, o)
    if l is None:
        if o is None or isinstance(o, (int, float, Lin)):
            I.raise_("TypeError", "object is not iterable")

        if isinstance(o, ListV) and all(it[0] in ("i", "r") for it in o.items):
            # (key, value) pairs collected by a loop: the same entries, keyed
            flat = []
            for it in o.items:
                inner = [("i", it[1])] if it[0] == "i" else it[3]
                ps = [to_list(I, x[1]) for x in inner if x[0] == "i"]
                if len(ps) != len(inner) or len(ps) > 1 and it[0] == "r" or any(q is None or len(q) != 2 for q in ps):
                    flat = None
                    break
                if it[0] == "r" and (not isinstance(ps[0][0], T) or I.eng.loops and any(not I.eng.inside(d, lf) for lf in I.eng.loops)):
                    flat = None
                    break
                flat.append((it, ps[0]))
            if flat is not None:
                for it, q in flat:
                    if it[0] == "i":
                        dict_set(I, d, q[0], q[1])
                    else:
                        d.reps.append((it[1], it[2], q[0], q[1]))
                        d.order.append(("r", len(d.reps) - 1))
                return

        def emit(p):
            q = to_list(I, p)
            if q is None or len(q) != 2:
                raise Undecided("dict update from %r" % (o,))
            dict_set(I, d, q[0], q[1])

        I.each(o, emit, "update")
        return
    for p in l:
        q = to_list(I, p)
        if q is None:
            raise Undecided("dict update from %r" % (o,))
        if len(q) != 2:
            I.raise_("ValueError", "dictionary update sequence element has the wrong length")
        dict_set(I, d, q[0], q[1])


def dict_get(I, d, k, default=MISSING):
    eng = I.eng
    if isinstance(k, OpNode):
        k = k.term()
    for r in d.reps:
        if r[2] is k or (isinstance(k, T) and r[2] == k):
            return r[3]
    k = eng.res(k)
    if is_const(k) and k not in d.d:
        for r in d.reps:
            if isinstance(r[2], T) and eng.res(r[2]) == k:
                return r[3]
    if is_const(k) or isinstance(k, (FuncV, ClassV, TypeV)):
        if k in d.d:
            v = d.d[k]
            if isinstance(v, LazyLoopVar):
                v = I.force_lazy(v, d.d, k)
            return v
        if d.poison:
            raise Undecided("lookup in a dict with unknown contents")
        if d.reps:
            if getattr(d, "props_like", False):
                pass
            raise Undecided("constant lookup among loop-built keys")
        if any(isinstance(x, SymKey) for x in d.d):
            for x in d.d:
                if isinstance(x, SymKey) and I.truth(eq(I, x.v, k)):
                    return d.d[x]
        if default is MISSING:
            I.raise_("KeyError", k)
        return default
    if isinstance(k, (T, Lin)):
        if SymKey(k) in d.d:
            return d.d[SymKey(k)]
        for r in d.reps:
            if r[2] == k:
                lf = loop_with_pair(I, r[0])
                return r[3]
        keys = frozenset(x for x in d.d if is_const(x))
        if not d.reps and not d.poison:
            if not keys:
                inn = False
            else:
                inn = eng.force_in(k, keys)
            if inn:
                return eng.pick_value(k, {x: d.d[x] for x in d.d if is_const(x)})
            if default is MISSING:
                I.raise_("KeyError", k)
            return default
        raise Undecided("symbolic lookup")
    if isinstance(k, InstanceV):
        for x in d.d:
            kk = x.v if isinstance(x, SymKey) else x
            if kk is k:
                return d.d[x]
        for x in d.d:
            kk = x.v if isinstance(x, SymKey) else x
            if I.truth(eq(I, kk, k)):
                return d.d[x]
        if default is MISSING:
            I.raise_("KeyError", k)
        return default
    if isinstance(k, ListV) and k.kind == "tuple":
        for x in d.d:
            kk = x.v if isinstance(x, SymKey) else x
            if isinstance(kk, ListV) and I.truth(eq(I, kk, k)):
                return d.d[x]
        if default is MISSING:
            I.raise_("KeyError", k)
        return default
    raise Undecided("dict key %r" % (k,))


def loop_with_pair(I, lid):
    return None


# opaque documents -----------------------------------------------------------


def op_has(I, node, k):
    if k in node.overlay:
        return True
    if k in node.deleted:
        return False
    return T("has", (node.root, node.path, k), "bool")


def op_get(I, node, k):
    eng = I.eng
    if isinstance(k, OpNode):
        k = k.term()
    k = eng.res(k)
    if k in node.overlay:
        return node.overlay[k]
    if k in node.deleted:
        I.raise_("KeyError", k)
    if isinstance(k, (Lin, T)):
        a = lin_atom(k) if isinstance(k, Lin) else None
        if a is not None and a.op == "idx":
            for lf in eng.loops:
                if lf.id == a.args[0] and eng.canon(lf.count) == eng.canon(atom(T("oplen", (node.root, node.path), "int"))):
                    lf.pairs.add(("op", node.root, node.path))
                    return op_elem(I, node)
        return T("opx", (node.root, node.path, k), "any")
    h = T("has", (node.root, node.path, k), "bool")
    if eng.bools.get(eng.canon(h)) is False:
        I.raise_("KeyError", k)
    eng.bools.setdefault(eng.canon(h), True)
    if k not in node.kids:
        c = OpNode(node.root, node.path + (k,))
        c.owner = node.owner
        node.kids[k] = c
    return node.kids[k]


def op_elem(I, node):
    if "*" in node.overlay:
        return node.overlay["*"]
    if "*" not in node.kids:
        c = OpNode(node.root, node.path + ("*",))
        c.owner = node.owner
        node.kids["*"] = c
    return node.kids["*"]


# ------------------------------------------------------------------ subscripts


def norm_index(I, i, n):
    i = I.eng.res(i)
    if type(i) is bool:
        i = int(i)
    if type(i) is int and i < 0:
        return I.eng.canon(add(n, i))
    return i


def getitem(I, o, k):
    eng = I.eng
    if isinstance(o, DictV):
        return dict_get(I, o, k)
    if isinstance(o, OpNode):
        if isinstance(k, slice):
            if o.path and o.path[-1] == "values":
                return getitem(I, I.eng.own(ListV([("b", I.eng.mkbytes(I.eng.segs_of(raw_blob(I, o))))])), k)
            return str_slice(I, o.term("str"), k)
        return op_get(I, o, k)
    if isinstance(o, ListV):
        return list_get(I, o, k)
    if isinstance(o, (bytes, BytesV, ByteArrV)):
        if isinstance(o, ByteArrV):
            o = eng.mkbytes(o.segs)
        if isinstance(k, slice):
            return bytes_slice(I, o, k)
        return byte_at(I, o, eng.res(k))
    if isinstance(o, str):
        if isinstance(k, slice):
            if all(x is None or type(x) is int for x in (k.start, k.stop, k.step)):
                return o[k]
            return eng.fresh("unk", "str", "slice")
        k = eng.res(k)
        if type(k) is int:
            try:
                return o[k]
            except IndexError:
                I.raise_("IndexError", "string index out of range")
        raise Undecided("string index")
    if isinstance(o, T):
        if isinstance(k, slice):
            if o.ty == "str":
                return str_slice(I, o, k)
            return T("slice", (o, k.start, k.stop, k.step), o.ty)
        if o.ty in ("int", "float", "bool"):
            I.raise_("TypeError", "object is not subscriptable")
        k2 = eng.res(k)
        if o.ty == "str" and isinstance(k2, str):
            I.raise_("TypeError", "string indices must be integers")
        return T("item", (o, k2 if not isinstance(k2, Obj) else id(k2)), "any" if o.ty != "str" else "str")
    if isinstance(o, (TypeV, NS, ClassV, ModuleV)):
        if isinstance(o, NS) and "__getitem__" in o.attrs:
            return I.call(o.attrs["__getitem__"], [k], {})
        return o
    if isinstance(o, InstanceV):
        f = o.cls.lookup("__getitem__")
        if f is not None:
            return I.call(BoundV(f, o), [k], {})
        I.raise_("TypeError", "object is not subscriptable")
    if o is None or isinstance(o, (int, float, Lin)):
        I.raise_("TypeError", "object is not subscriptable")
    if isinstance(o, RangeV):
        return add(o.start, mul(eng.res(k), o.step))
    raise Undecided("subscript of %r" % (o,))


def cat_slice(parts, st, en):
    """Slice of a concatenation of pieces of known length, cut between pieces."""
    lens = [len(p) if isinstance(p, str) else 2 if isinstance(p, T) and p.op == "hexb" else None for p in parts]
    if None in lens or not all(x is None or type(x) is int for x in (st, en)):
        return None
    total = sum(lens)
    st, en, _ = slice(st, en).indices(total)
    out = []
    pos = 0
    for p, n in zip(parts, lens):
        a, b = max(st - pos, 0), min(en - pos, n)
        pos += n
        if a >= b:
            continue
        if a == 0 and b == n:
            out.append(p)
        elif isinstance(p, str):
            out.append(p[a:b])
        else:
            return None
    return scat(*out)


def str_slice(I, o, k):
    """Slices of symbolic strings: keep structure for suffix/prefix removal."""
    eng = I.eng
    if o.op == "cat" and k.step is None:
        a = list(o.args)
        st, en = eng.res(k.start) if k.start is not None else None, eng.res(k.stop) if k.stop is not None else None
        if st in (None, 0) and type(en) is int and en < 0 and isinstance(a[-1], str) and len(a[-1]) >= -en:
            return scat(*(a[:-1] + [a[-1][:en]]))
        if en is None and type(st) is int and st >= 0 and isinstance(a[0], str) and len(a[0]) >= st:
            return scat(*([a[0][st:]] + a[1:]))
        r = cat_slice(a, st, en)
        if r is not None:
            return r
    st, en = k.start, k.stop
    if en is None and k.step is None and type(st) is int and st > 0:
        for b, v in eng.bools.items():
            if v and b.op == "startswith" and b.args[0] == eng.canon(o) and isinstance(b.args[1], str) and len(b.args[1]) == st:
                return T("tail", (eng.canon(o), b.args[1]), "str")
    if st in (None, 0) and k.step is None and type(en) is int and en < 0:
        return T("chop", (eng.canon(o), -en), "str")
    if st in (None, 0) and k.step is None and isinstance(en, Lin):
        d = eng.canon(sub(en, atom(T("strlen", (eng.canon(o),), "int"))))
        if type(d) is int and d < 0:
            return T("chop", (eng.canon(o), -d), "str")
    return T("slice", (eng.canon(o), st, en, k.step), "str")


def list_get(I, o, k):
    eng = I.eng
    if isinstance(k, slice):
        return list_slice(I, o, k)
    if isinstance(k, OpNode):
        k = k.term("int")
    k = eng.res(k)
    if isinstance(k, str) or (isinstance(k, T) and k.ty == "str"):
        I.raise_("TypeError", "list indices must be integers or slices, not str")
    if isinstance(k, T) and k.ty in ("int", "bool"):
        if k.op == "ite" and o.concrete():
            return o.values()[k.args[1] if I.truth(k.args[0]) else k.args[2]]
        if k.ty == "bool" and o.concrete():
            return o.values()[1 if I.truth(k) else 0]
        k = atom(k)
    if o.concrete():
        vals = o.values()
        if type(k) in (int, bool):
            if -len(vals) <= k < len(vals):
                return vals[k]
            I.raise_("IndexError", "list index out of range")
        if isinstance(k, Lin):
            keys = frozenset(range(len(vals)))
            if eng.force_in(k, keys):
                return eng.pick_value(k, dict(enumerate(vals)))
            I.raise_("IndexError", "list index out of range")
        raise Undecided("list index %r" % (k,))
    if len(o.items) == 1:
        it = o.items[0]
        if it[0] == "b":
            return byte_at(I, it[1], norm_index(I, k, item_len(I, it)))
        if it[0] == "r" and len(it[3]) == 1 and it[3][0][0] == "i":
            if isinstance(k, Lin):
                a = lin_atom(k)
                if a is not None and a.op == "idx":
                    for lf in eng.loops:
                        if lf.id == a.args[0]:
                            if eng.canon(lf.count) == eng.canon(it[2]):
                                lf.pairs.add(it[1])
                                lf.pairs |= eng.__dict__.get("loop_pairs", {}).get(it[1], set())
                                return it[3][0][1]
                            if it[1] in lf.pairs:
                                return it[3][0][1]
                            # a loop of a different length: still element-wise from 0
                            lf.pairs.add(it[1])
                            return it[3][0][1]
            return shifted(I, it[3][0][1], k)
    if type(k) is int and k >= 0:
        n = 0
        for it in o.items:
            if it[0] != "i":
                break
            if n == k:
                return it[1]
            n += 1
    a = lin_atom(k) if isinstance(k, Lin) else None
    if a is not None and a.op == "idx":
        # an element-wise walk over a list put together from several pieces of bytes
        try:
            b = bytes_from_iter(I, o)
        except AbsRaise:
            b = None
        if b is not None:
            fz = eng.__dict__.setdefault("frozen", {})
            fz[len(fz)] = eng.segs_of(b)
            return atom(T("elt", (len(fz) - 1, a), "int"))
    if type(k) is int and all(it[0] in ("i", "b") for it in o.items):
        n = 0
        for it in o.items:
            ln = 1 if it[0] == "i" else eng.canon(item_len(I, it))
            if type(ln) is not int:
                break
            if n <= k < n + ln:
                return it[1] if it[0] == "i" else byte_at(I, it[1], k - n)
            n += ln
    return eng.fresh("unk", "any", "element %r" % (k,))


def shifted(I, v, k):
    """An element at an index other than the current generic one."""
    if isinstance(v, Lin):
        return atom(T("shifted", (lin_atom(v) or v, k), "int"))
    if isinstance(v, T):
        return T("shifted", (v, k), v.ty)
    return T("shifted", (repr(type(v)), k), "any")


def list_slice(I, o, k):
    eng = I.eng
    st, en, step = k.start, k.stop, k.step
    if step is not None and step != 1:
        if o.concrete() and all(x is None or type(x) is int for x in (st, en, step)):
            return eng.own(mklist(o.values()[slice(st, en, step)], o.kind))
        raise Undecided("list slice step")
    if o.concrete() and all(x is None or type(x) is int for x in (st, en)):
        return eng.own(mklist(o.values()[slice(st, en)], o.kind))
    if st in (None, 0) and en is None:
        return eng.own(ListV(o.items, o.kind))
    n = list_len(I, o)
    if st in (None, 0) and en is not None and eng.canon(sub(en, n)) == 0:
        return eng.own(ListV(o.items, o.kind))
    if len(o.items) == 1 and o.items[0][0] == "b":
        b = bytes_slice(I, o.items[0][1], k)
        return eng.own(ListV([("b", b)] if isinstance(b, BytesV) else [("i", x) for x in b], o.kind))
    return eng.own(ListV([("i", T("shifted", ("slice", repr(k)), "any"))], o.kind))


def bytes_slice(I, o, k):
    eng = I.eng
    st, en, step = k.start, k.stop, k.step
    st = eng.res(st) if st is not None else 0
    if isinstance(o, bytes) and all(x is None or type(x) is int for x in (k.start, k.stop, step)):
        return o[k]
    if step is not None and step != 1:
        n = length(I, o)
        if type(n) is int and all(x is None or type(x) is int for x in (k.start, k.stop)):
            idx = range(n)[slice(k.start, k.stop, step)]
            segs = []
            for j in idx:
                segs.append(eng.pack_int(byte_at(I, o, j), 1, False, "<"))
            return eng.mkbytes(segs)
        return BytesV([TB(eng.fresh("strided", "bytes"))])
    n = eng.segs_len(eng.segs_of(o))
    en = eng.res(en) if en is not None else n
    if isinstance(st, T) or isinstance(en, T):
        return BytesV([TB(eng.fresh("unk", "bytes", "slice"))])
    if type(st) is int and st < 0:
        st = add(n, st)
    if type(en) is int and en < 0:
        en = eng.canon(add(n, en))
        if type(en) is int and en < 0:
            en = 0
    st, en = eng.canon(st), eng.canon(en)
    # clamp
    r = eng.cmp_decide("<", sub(n, en))
    if r is True:
        en = n
    elif r is None:
        eng.event("assume-length", n=n, at_least=en)
        if getattr(eng, "short_check", False):
            if eng.force(T("cmp", ("<", eng.canon(sub(n, en))), "bool")):
                en = n
        else:
            eng.nonneg(sub(n, en))
    if eng.cmp_decide("<", sub(en, st)) is True or eng.canon(sub(en, st)) == 0:
        return b""
    r = eng.slice_bytes(o, st, en)
    if r is None:
        return BytesV([TB(T("unk", ("slice of %r" % (o,),), "bytes"))])
    return r


def setitem(I, o, k, v):
    eng = I.eng
    if isinstance(o, DictV):
        dict_set(I, o, k, v)
    elif isinstance(o, OpNode):
        k = eng.res(k)
        ro = getattr(o, "readonly", None)
        if isinstance(k, (Lin,)):
            a = lin_atom(k)
            if a is not None and a.op == "idx":
                o.overlay["*"] = v
                return
        o.overlay[k] = v
        o.deleted.discard(k)
    elif isinstance(o, ListV):
        mutate(I, o, "set item")
        if o.kind == "tuple":
            I.raise_("TypeError", "'tuple' object does not support item assignment")
        k = eng.res(k)
        if type(k) is int and o.concrete():
            if not -len(o.items) <= k < len(o.items):
                I.raise_("IndexError", "list assignment index out of range")
            o.items[k] = ("i", v)
            return
        if len(o.items) == 1 and o.items[0][0] == "r" and isinstance(k, Lin):
            a = lin_atom(k)
            it = o.items[0]
            if a is not None and a.op == "idx" and len(it[3]) == 1:
                for lf in eng.loops:
                    if lf.id == a.args[0] and eng.canon(lf.count) == eng.canon(it[2]):
                        lf.pairs.add(it[1])
                        o.items[0] = ("r", it[1], it[2], [("i", v)])
                        return
        raise Undecided("list item assignment")
    elif isinstance(o, ByteArrV):
        mutate(I, o, "set item")
        k = norm_index(I, k, eng.segs_len(o.segs))
        sp = eng.split(o.segs, k)
        if sp is None:
            raise Undecided("bytearray assignment")
        sp2 = eng.split(sp[1], 1)
        o.segs = sp[0] + [eng.pack_int(v, 1, False, "<")] + sp2[1]
    elif isinstance(o, InstanceV):
        f = o.cls.lookup("__setitem__")
        if f is None:
            I.raise_("TypeError", "object does not support item assignment")
        I.call(BoundV(f, o), [k, v], {})
    elif o is None or isinstance(o, (int, str, bytes, float, Lin, BytesV)):
        I.raise_("TypeError", "object does not support item assignment")
    elif isinstance(o, NS) and "__setitem__" in o.attrs:
        I.call(o.attrs["__setitem__"], [k, v], {})
    else:
        raise Undecided("item assignment on %r" % (o,))


def delitem(I, o, k):
    k = I.eng.res(k)
    if isinstance(o, DictV):
        mutate(I, o, "delete item")
        if k in o.d:
            o.delete(k)
        else:
            I.raise_("KeyError", k)
    elif isinstance(o, OpNode):
        o.overlay.pop(k, None)
        o.deleted.add(k)
    elif isinstance(o, ListV):
        mutate(I, o, "delete item")
        if isinstance(k, slice) and k.start is None and k.stop is None:
            o.items = []
        elif type(k) is int and o.concrete():
            del o.items[k]
        else:
            raise Undecided("del list item")
    else:
        raise Undecided("del item of %r" % (o,))


def contains(I, c, x):
    eng = I.eng
    if isinstance(c, LazyGen):
        c = force_gen(I, c)
    if isinstance(c, EnumV):
        c = mklist(list(c.members.values()) + [] if c.plain else list(c.members.values()), "tuple")
    if isinstance(x, OpNode):
        x = x.term()
    x = eng.res(x)
    if isinstance(c, DictV):
        if is_const(x):
            if x in c.d:
                return True
            if c.poison:
                return T("indict", (x, c.poison), "bool")
            if c.reps:
                return T("inreps", (x, id(c)), "bool")
            return False
        if isinstance(x, (T, Lin)):
            if SymKey(x) in c.d or any(r[2] == x for r in c.reps):
                return True
            keys = frozenset(k for k in c.d if is_const(k))
            if c.poison:
                return T("indict", (x, c.poison), "bool")
            if c.reps:
                return T("inreps", (x, id(c)), "bool")
            if not keys:
                return False
            return in_set(I, x, keys)
        if isinstance(x, InstanceV):
            return any(I.truth(eq(I, k.v if isinstance(k, SymKey) else k, x)) for k in c.d)
    if isinstance(c, OpNode):
        if is_const(x):
            return op_has(I, c, x)
        return T("opin", (c.root, c.path, x if not isinstance(x, Obj) else id(x)), "bool")
    if isinstance(c, (ListV, SetV)) or isinstance(c, IterV):
        l = to_list(I, c)
        if l is None:
            return T("inlist", (id(c), x if not isinstance(x, Obj) else id(x)), "bool")
        if is_const(x) and all(is_const(v) for v in l):
            return x in l
        if all(is_const(v) for v in l) and isinstance(x, (T, Lin)):
            return in_set(I, x, frozenset(l))
        for v in l:
            if I.truth(eq(I, v, x)):
                return True
        return False
    if isinstance(c, RangeV):
        if all(type(v) is int for v in (c.start, c.stop, c.step)) and is_int(x):
            if c.step == 1:
                return conj([cmp_t(I, ">=", x, c.start), cmp_t(I, "<", x, c.stop)])
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return T("substr", (x, c), "bool")
    if isinstance(c, T):
        c2 = eng.canon(c)
        if isinstance(c2, T) and c2.op == "cat" and isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in c2.args):
                return True
        return T("substr", (x if not isinstance(x, Obj) else id(x), c2), "bool")
    if isinstance(c, (bytes, BytesV)):
        if isinstance(c, bytes) and type(x) in (int, bytes):
            return x in c
        return T("inbytes", (eng.canon(c), x), "bool")
    if isinstance(c, NS) and "__contains__" in c.attrs:
        return I.call(c.attrs["__contains__"], [x], {})
    if isinstance(c, InstanceV):
        f = c.cls.lookup("__contains__")
        if f is not None:
            return I.call(BoundV(f, c), [x], {})
    if c is None or isinstance(c, (int, float, Lin)):
        I.raise_("TypeError", "argument is not iterable")
    raise Undecided("membership in %r" % (c,))


def in_set(I, x, s):
    eng = I.eng
    if isinstance(x, T) and x.op == "ite":
        return T("or", tuple(eq(I, x, v) if isinstance(eq(I, x, v), T) else T("constb", (eq(I, x, v),), "bool") for v in s), "bool")
    if isinstance(x, T):
        r = eng.dom_in(x, s)
        if r is not None:
            return r
    if isinstance(x, T) and x.ty == "float":
        return T("infl", (x, s), "bool")
    return T("in", (x, s), "bool")


# ------------------------------------------------------------------ arithmetic


def binop(I, op, a, b):
    eng = I.eng
    a, b = eng.res(a), eng.res(b)
    if isinstance(a, OpNode):
        a = a.term()
    if isinstance(b, OpNode):
        b = b.term()
    if op == "Mod" and (isinstance(a, str) or (isinstance(a, T) and a.ty == "str")):
        return percent(I, a, b)
    if is_const(a) and is_const(b):
        import operator as O

        f = {"Add": O.add, "Sub": O.sub, "Mult": O.mul, "Div": O.truediv, "FloorDiv": O.floordiv, "Mod": O.mod, "Pow": O.pow, "LShift": O.lshift, "RShift": O.rshift, "BitOr": O.or_, "BitAnd": O.and_, "BitXor": O.xor}.get(op)
        if f is None:
            raise Undecided("operator " + op)
        try:
            if op in ("Mult", "LShift", "Pow") and type(a) is int and type(b) is int and (abs(b) > 4096):
                raise Undecided("huge arithmetic")
            return f(a, b)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
    # strings
    sa = isinstance(a, str) or (isinstance(a, T) and a.ty == "str")
    sb = isinstance(b, str) or (isinstance(b, T) and b.ty == "str")
    if op == "Add" and (sa or sb):
        if (sa or (isinstance(a, T) and a.ty == "any")) and (sb or (isinstance(b, T) and b.ty == "any")):
            return scat(a, b)
        I.raise_("TypeError", "can only concatenate str")
    # bytes
    ba = isinstance(a, (bytes, BytesV, ByteArrV))
    bb = isinstance(b, (bytes, BytesV, ByteArrV))
    if op == "Add" and (ba or bb):
        if ba and bb:
            r = eng.mkbytes(eng.segs_of(to_bytes_value(I, a)) + eng.segs_of(to_bytes_value(I, b)))
            if isinstance(a, ByteArrV):
                return eng.own(ByteArrV(eng.segs_of(r)))
            return r
        I.raise_("TypeError", "can't concat to bytes")
    if op == "Mult" and (ba or bb):
        x, n = (a, b) if ba else (b, a)
        n = eng.res(n)
        if type(n) is int and type(x) is bytes:
            return x * n
        raise Undecided("bytes repetition")
    # lists
    if op == "Add" and isinstance(a, ListV) and isinstance(b, ListV):
        if a.kind != b.kind:
            I.raise_("TypeError", "can only concatenate %s" % a.kind)
        return eng.own(ListV(a.items + b.items, a.kind))
    if op == "Mult" and isinstance(a, ListV) and type(b) is int:
        return eng.own(ListV(a.items * b, a.kind))
    if op == "Mult" and isinstance(a, ListV) and isinstance(b, Lin) and a.concrete() and len(a.items) == 1:
        return eng.own(ListV([("r", "const", b, list(a.items))], a.kind))
    # dicts / sets
    if op == "BitOr" and isinstance(a, DictV):
        d = eng.own(DictV())
        dict_update(I, d, a)
        if not isinstance(b, DictV):
            I.raise_("TypeError", "unsupported operand for |")
        dict_update(I, d, b)
        return d
    if isinstance(a, SetV) and isinstance(b, SetV) and all(is_const(v) for v in a.vals + b.vals):
        x, y = set(a.vals), set(b.vals)
        r = {"BitOr": x | y, "BitAnd": x & y, "Sub": x - y, "BitXor": x ^ y}.get(op)
        return eng.own(SetV(sorted(r, key=repr)))
    if isinstance(a, (TypeV, NS, ClassV)) or isinstance(b, (TypeV, NS, ClassV)):
        return a if a is not None else b
    # numbers
    fa = type(a) is float or (isinstance(a, T) and a.ty == "float")
    fb = type(b) is float or (isinstance(b, T) and b.ty == "float")
    if a is None or b is None or isinstance(a, (DictV, InstanceV, ListV)) or isinstance(b, (DictV, InstanceV, ListV)):
        f = None
        if isinstance(a, InstanceV):
            f = a.cls.lookup({"Add": "__add__", "Sub": "__sub__"}.get(op, "?"))
        if f is not None:
            return I.call(BoundV(f, a), [b], {})
        I.raise_("TypeError", "unsupported operand type(s) for %s" % op)
    if fa or fb or op == "Div":
        if (isinstance(a, T) and a.op == "nf") or (isinstance(b, T) and b.op == "nf"):
            for x in (a, b):
                if isinstance(x, T) and x.op == "nf" and I.truth(is_(I, x, None)):
                    I.raise_("TypeError", "unsupported operand type(s) for %s: NoneType" % op)
        return T("fop", (op, a, b), "float")
    ia, ib = to_int(a), to_int(b)
    if ia is None or ib is None:
        if isinstance(a, T) and a.ty == "bool":
            a = T("ite", (a, 1, 0), "int")
            ia = atom(a)
        if isinstance(b, T) and b.ty == "bool":
            b = T("ite", (b, 1, 0), "int")
            ib = atom(b)
        if ia is None or ib is None:
            if isinstance(a, T) or isinstance(b, T):
                return T("aop", (op, a if not isinstance(a, Obj) else id(a), b if not isinstance(b, Obj) else id(b)), "any")
            if isinstance(a, (str, bytes, BytesV)) or isinstance(b, (str, bytes, BytesV)):
                I.raise_("TypeError", "unsupported operand type(s) for %s" % op)
            raise Undecided("%s of %r and %r" % (op, a, b))
    return int_op(I, op, eng.canon(ia), eng.canon(ib))


def pow2(n):
    return n > 0 and n & (n - 1) == 0


_TAB = {}


class _NoTab(Exception):
    pass


def _small_atom(x, found):
    """Collect the small input integers a numeric term depends on."""
    if isinstance(x, Lin):
        for t, _ in x.t:
            _small_atom(t, found)
    elif isinstance(x, T):
        if x.op == "int" and len(x.args) == 5 and x.args[2] <= 2:
            found.add(x)
        elif x.op in ("fop", "round", "toint", "mod", "div") or x.op.startswith("math."):
            for a in x.args:
                if isinstance(a, (T, Lin)):
                    _small_atom(a, found)
        else:
            raise _NoTab()


def _tab_code(x, var):
    """The term as a Python arithmetic expression of one variable v."""
    if isinstance(x, bool) or type(x) in (int, float):
        return repr(x) if x == x and x not in (math.inf, -math.inf) else "float(%r)" % str(x)
    if isinstance(x, Lin):
        return "(" + "+".join([str(x.c)] + ["%d*%s" % (k, _tab_code(t, var)) for t, k in x.t]) + ")"
    if x == var:
        return "v"
    if x.op == "fop":
        if x.args[0] == "neg":
            return "(-%s)" % _tab_code(x.args[1], var)
        sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}.get(x.args[0])
        if sym is None:
            raise _NoTab()
        return "(%s%s%s)" % (_tab_code(x.args[1], var), sym, _tab_code(x.args[2], var))
    if x.op in ("round", "toint") and len(x.args) == 1:
        return "%s(%s)" % ({"round": "round", "toint": "int"}[x.op], _tab_code(x.args[0], var))
    if x.op in ("mod", "div"):
        return "(%s%s%d)" % (_tab_code(x.args[0], var), "%" if x.op == "mod" else "//", x.args[1])
    if x.op in ("math.floor", "math.ceil", "math.trunc"):
        return "math.%s(%s)" % (x.op[5:], _tab_code(x.args[0], var))
    raise _NoTab()


def fold_small(I, v):
    """A numeric term over one 8/16-bit field that equals the field for every value it
    can hold is replaced by the field (decided by tabulating the arithmetic)."""
    v = I.eng.canon(v)
    t = lin_atom(v) if isinstance(v, Lin) else None
    if t is None or t.op not in ("mod", "round", "toint") and not t.op.startswith("math."):
        return v
    found = set()
    try:
        _small_atom(t, found)
        if len(found) != 1:
            return v
        var = found.pop()
        code = _tab_code(t, var)
    except _NoTab:
        return v
    size, signed = var.args[2], var.args[3]
    key = (code, size, signed)
    if key not in _TAB:
        n = 1 << (8 * size)
        dom = range(-n // 2, n // 2) if signed else range(n)
        f = eval("lambda v: " + code, {"math": math, "__builtins__": {"round": round, "int": int, "float": float}})
        try:
            _TAB[key] = all(f(x) == x for x in dom)
        except (ArithmeticError, ValueError):
            _TAB[key] = False
    return atom(var) if _TAB[key] else v


def int_op(I, op, a, b):
    return fold_small(I, int_op0(I, op, a, b))


def int_op0(I, op, a, b):
    eng = I.eng
    if op == "Add":
        return eng.canon(add(a, b))
    if op == "Sub":
        return eng.canon(sub(a, b))
    if op == "Mult":
        if type(b) is int:
            return eng.canon(mul(a, b))
        if type(a) is int:
            return eng.canon(mul(b, a))
        return atom(T("mul", (a, b), "int"))
    if op == "LShift":
        if type(b) is int and 0 <= b < 4096:
            return eng.canon(mul(a, 1 << b))
        return atom(T("shl", (a, b), "int"))
    if op in ("FloorDiv", "Mod", "RShift") and type(b) is int:
        k = (1 << b) if op == "RShift" and b >= 0 else b
        if k == 0:
            I.raise_("ZeroDivisionError", "division by zero")
        c, d = as_lin(a)
        q, r = {}, {}
        for t, co in d.items():
            if co % k == 0:
                q[t] = co // k
            else:
                r[t] = co
        rest = mklin(c, r)
        lo, hi = eng.bounds(rest)
        if k > 0 and lo is not None and hi is not None and lo // k == hi // k:
            m = lo // k
            return eng.canon(add(mklin(m, q), 0)) if op != "Mod" else eng.canon(sub(rest, m * k))
        if op == "Mod":
            return atom(T("mod", (eng.canon(rest), k), "int"))
        return eng.canon(add(mklin(0, q), atom(T("div", (eng.canon(rest), k), "int"))))
    if op == "BitOr":
        for x, y in ((a, b), (b, a)):
            if type(x) is int and x == 0:
                return y
            lo, hi = eng.bounds(y)
            if lo is None or hi is None or lo < 0:
                continue
            k = 1 << hi.bit_length()
            c, d = as_lin(x)
            if c % k == 0 and all(v % k == 0 for v in d.values()):
                lx, _ = eng.bounds(x)
                if lx is not None and lx >= 0:
                    return eng.canon(add(x, y))
        return atom(T("or_", tuple(sorted((a, b), key=repr)), "int"))
    if op == "BitAnd":
        for x, y in ((a, b), (b, a)):
            if type(x) is int and x >= 0 and pow2(x + 1):
                lo, hi = eng.bounds(y)
                if lo is not None and hi is not None and 0 <= lo and hi <= x:
                    return y
                return int_op(I, "Mod", y, x + 1)
        return atom(T("and_", tuple(sorted((a, b), key=repr)), "int"))
    if op == "BitXor":
        return atom(T("xor_", tuple(sorted((a, b), key=repr)), "int"))
    if op == "Pow":
        return atom(T("pow", (a, b), "int"))
    if op in ("FloorDiv", "Mod", "RShift"):
        return atom(T(op.lower(), (a, b), "int"))
    raise Undecided("operator %s" % op)


def unop(I, op, v):
    v = I.eng.res(v)
    if is_const(v) and v is not None and not isinstance(v, (str, bytes)):
        return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
    if isinstance(v, T) and v.ty == "float":
        return T("fop", ("neg", v), "float") if op == "USub" else v
    i = to_int(v)
    if i is None:
        if isinstance(v, T):
            return T("aop", (op, v), "any")
        I.raise_("TypeError", "bad operand type for unary " + op)
    if op == "USub":
        return neg(i)
    if op == "UAdd":
        return i
    return sub(neg(i), 1)


# ------------------------------------------------------------------ strings


def hex_part(s):
    """Text of one byte segment in two lower-case hex digits."""
    if isinstance(s, CB):
        return s.data.hex()
    if isinstance(s, Sub):
        return T("hexb", (s.blob, s.a), "str")
    return None


def hex_of_lin(I, v, digits):
    if digits % 2:
        return None
    segs = I.eng.bytes_of_lin(v, digits // 2)
    if segs is None:
        return None
    return scat(*[hex_part(s) for s in reversed(segs)])


def percent(I, fmt, arg):
    """'%' formatting."""
    if not isinstance(fmt, str):
        return I.eng.fresh("unk", "str", "format")
    import re

    if isinstance(arg, ListV) and arg.kind == "tuple":
        args = to_list(I, arg)
    elif isinstance(arg, DictV):
        args = None
    else:
        args = [arg]
    parts = []
    pos = 0
    ai = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])", fmt):
        parts.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(5) == "%":
            parts.append("%")
            continue
        if m.group(1):
            a = dict_get(I, arg, m.group(1))
        else:
            if args is None or ai >= len(args):
                I.raise_("TypeError", "not enough arguments for format string")
            a = args[ai]
            ai += 1
        a = I.eng.res(a)
        conv = m.group(5)
        if is_const(a):
            try:
                parts.append(("%" + m.group(2) + m.group(3) + ("." + m.group(4) if m.group(4) else "") + conv) % (a,))
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
            continue
        if conv == "s" and not m.group(3):
            parts.append(str_of(I, a))
        elif conv == "r":
            parts.append(repr_of(I, a))
        elif conv == "x" and m.group(2) == "0" and m.group(3):
            h = hex_of_lin(I, a, int(m.group(3))) if is_int(a) else None
            parts.append(h if h is not None else T("fmt", (a if not isinstance(a, Obj) else id(a), m.group(0)), "str"))
        elif conv == "d" and not m.group(2) and not m.group(3) and is_int(a):
            parts.append(T("strof", (a,), "str"))
        else:
            parts.append(T("fmt", (a if not isinstance(a, Obj) else id(a), m.group(0)), "str"))
    parts.append(fmt[pos:])
    return scat(*parts)


def format_value(I, x, spec):
    x = I.eng.res(x)
    if isinstance(x, OpNode):
        x = x.term()
    if is_const(x) and isinstance(spec, str):
        try:
            return format(x, spec)
        except (TypeError, ValueError) as e:
            I.raise_(type(e).__name__, str(e))
    if spec == "":
        return str_of(I, x)
    if isinstance(spec, str) and is_int(x) and len(spec) > 2 and spec[0] == "0" and spec[-1] == "x" and spec[1:-1].isdigit():
        h = hex_of_lin(I, x, int(spec[1:-1]))
        if h is not None:
            return h
    return T("fmt", (x if not isinstance(x, Obj) else id(x), spec), "str")


def str_of(I, x):
    eng = I.eng
    x = eng.res(x)
    if is_const(x):
        return str(x)
    if isinstance(x, T) and x.ty == "str":
        return x
    if isinstance(x, OpNode):
        return x.term()
    if isinstance(x, T) and x.ty == "any":
        return x
    if is_int(x):
        return T("strof", (x,), "str")
    if isinstance(x, T):
        return T("strof", (x,), "str")
    if isinstance(x, InstanceV):
        f = x.cls.lookup("__str__")
        if f is not None:
            return I.call(BoundV(f, x), [], {})
        f = x.cls.lookup("__repr__")
        if f is not None:
            return I.call(BoundV(f, x), [], {})
        return T("objstr", (id(x),), "str")
    if isinstance(x, PathV):
        return x.p
    if isinstance(x, PyUuid):
        return uuid_str(I, x)
    if isinstance(x, ExcV):
        if len(x.args) == 1:
            return str_of(I, x.args[0])
        return T("excstr", (id(x),), "str")
    return T("objstr", (id(x),), "str")


def repr_of(I, x):
    x = I.eng.res(x)
    if is_const(x):
        return repr(x)
    if isinstance(x, InstanceV):
        f = x.cls.lookup("__repr__")
        if f is not None:
            return I.call(BoundV(f, x), [], {})
    if isinstance(x, (T, Lin)):
        return T("repr", (x,), "str")
    return T("objrepr", (id(x),), "str")


def norm_enc(e):
    if isinstance(e, str):
        try:
            return codecs.lookup(e).name
        except LookupError:
            return None
    return e


UNSAFE = "strict"


ASCII_SUPERSETS = {"ascii", "utf-8", "iso8859-1", "cp1252", "latin-1", "iso8859-15"}


def decode_bytes(I, b, enc, errors):
    eng = I.eng
    e = norm_enc(enc)
    if e is None and isinstance(enc, str):
        I.raise_("LookupError", "unknown encoding")
    if not isinstance(e, str) or not isinstance(errors, str):
        return eng.fresh("unk", "str", "decode")
    if isinstance(b, bytes):
        try:
            return b.decode(enc, errors)
        except UnicodeDecodeError:
            I.raise_("UnicodeDecodeError", e)
    if len(b.segs) == 1 and isinstance(b.segs[0], TB) and b.segs[0].term.op == "b64":
        return T("b64s", b.segs[0].term.args, "str")
    if len(b.segs) == 1 and isinstance(b.segs[0], TB) and b.segs[0].term.op == "encode":
        s, e2, er2 = b.segs[0].term.args
        if e2 == e:
            return s
    cb = eng.canon(b)
    if e in ASCII_SUPERSETS and eng.bools.get(T("decodable", ("ascii", "strict", cb), "bool")) is True:
        return T("decode", ("ascii", "strict", cb), "str")
    if errors != "strict" and eng.bools.get(T("decodable", (e, "strict", cb), "bool")) is True:
        return T("decode", (e, "strict", cb), "str")
    if eng.try_depth > 0 or getattr(eng, "decode_forks", False):
        key = T("decodable", (e, errors, cb), "bool")
        strict = T("decodable", (e, "strict", cb), "bool")
        if errors != "strict" and eng.bools.get(strict) is False and e == "ascii" and errors == "surrogatepass":
            I.raise_("UnicodeDecodeError", e)
        if errors in ("replace", "ignore", "backslashreplace", "surrogateescape"):
            pass
        elif not eng.force(key):
            I.raise_("UnicodeDecodeError", e)
    return T("decode", (e, errors, cb), "str")


def cat_separable(s, e):
    """Encoding a concatenation piece by piece is the same, piece borders included:
    a surrogate pair is never split between two symbolic pieces."""
    if not e.startswith("utf"):
        return True
    open_end = [isinstance(x, T) for x in s.args]
    return not any(a and b for a, b in zip(open_end, open_end[1:])) and all(not isinstance(x, str) or (x and not any(0xD800 <= ord(c) < 0xE000 for c in (x[0], x[-1]))) for x in s.args)


def encode_str(I, s, enc, errors):
    eng = I.eng
    e = norm_enc(enc)
    s = eng.res(s)
    if isinstance(s, str) and isinstance(e, str):
        try:
            return s.encode(enc, errors)
        except UnicodeEncodeError:
            I.raise_("UnicodeEncodeError", e)
    if not isinstance(e, str):
        return BytesV([TB(eng.fresh("unk", "bytes", "encode"))])
    if isinstance(s, T) and s.op == "cat" and e in ("ascii", "utf-8", "utf-16-le", "utf-16-be", "latin-1", "iso8859-1") and cat_separable(s, e):
        out = []
        for x in s.args:
            out.extend(eng.segs_of(encode_str(I, x, enc, errors)))
        return BytesV(eng.norm_segs(out))
    if isinstance(s, T) and s.op == "decode":
        e1, er1, b = s.args
        if e1 == "ascii" and er1 in ("strict", "surrogatepass") and e in ASCII_SUPERSETS:
            return b
        if e1 == e:
            if er1 == "strict":
                strict = True
            else:
                strict = er1 == errors and errors in ("surrogatepass", "surrogateescape")
                if not strict and errors == "strict" and eng.bools.get(T("decodable", (e1, "strict", eng.canon(b)), "bool")) is False:
                    I.raise_("UnicodeEncodeError", e)
            if strict:
                return b
        elif e == "ascii":
            # only legal when the text is ascii
            isa = T("isascii", (eng.canon(s),), "bool")
            if eng.bools.get(isa) is not True and errors == "strict":
                I.raise_("UnicodeEncodeError", e)
    if isinstance(s, T) and s.op == "b64s" and e in ("ascii", "utf-8"):
        return BytesV([TB(T("b64", s.args, "bytes"))])
    return BytesV([TB(T("encode", (eng.canon(s), e, errors), "bytes"))])


STR_CONST_METHODS = {
    "lower", "upper", "casefold", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "split", "rsplit",
    "isascii", "removesuffix", "removeprefix", "title", "capitalize", "zfill", "ljust", "rjust", "isdigit", "isidentifier",
    "find", "rfind", "index", "count", "partition", "rpartition", "splitlines", "isspace", "isupper", "islower", "expandtabs", "swapcase", "isalnum", "isalpha", "isnumeric",
}


def str_method(I, s, name, args, kw):
    eng = I.eng
    s = eng.res(s)
    args = [eng.res(a) for a in args]
    if name == "encode":
        enc = args[0] if args else kw.get("encoding", "utf-8")
        er = args[1] if len(args) > 1 else kw.get("errors", "strict")
        return encode_str(I, s, enc, er)
    if name == "join":
        l = args[0]
        vals = set_order(I, l) if isinstance(l, SetV) else to_list(I, l)
        if vals is None:
            return eng.fresh("unk", "str", "join")
        out = []
        for i, v in enumerate(vals):
            if i:
                out.append(s)
            if isinstance(v, OpNode):
                v = v.term()
            if v is None or is_int(v) or isinstance(v, (bytes, BytesV, float)):
                I.raise_("TypeError", "sequence item: expected str instance")
            out.append(v)
        return scat(*out)
    if name == "format":
        return str_format(I, s, args, kw)
    if isinstance(s, str) and name in STR_CONST_METHODS:
        a2 = []
        for a in args:
            if isinstance(a, ListV) and a.kind == "tuple" and a.concrete():
                a = tuple(a.values())
            a2.append(a)
        if all(is_const(a) or isinstance(a, tuple) for a in a2):
            try:
                r = getattr(s, name)(*a2, **kw)
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
            if isinstance(r, list):
                return eng.own(mklist(r))
            if isinstance(r, tuple):
                return eng.own(mklist(list(r), "tuple"))
            return r
    s = eng.canon(s)
    if name in ("lower", "casefold", "upper", "strip", "lstrip", "rstrip"):
        if isinstance(s, T) and s.op == name and not args:
            return s
        if name == "lower" and isinstance(s, T) and s.op == "hexs":
            return s
        return T(name, (s,) + tuple(args), "str")
    if name == "isascii":
        if isinstance(s, T):
            if s.op == "decode":
                if s.args[0] == "ascii":
                    if s.args[1] == "strict" or eng.bools.get(T("decodable", ("ascii", "strict", s.args[2]), "bool")) is True:
                        return True
                    return T("isascii", (s,), "bool")
            if s.op == "cat" and any(isinstance(p, str) and not p.isascii() for p in s.args):
                return False
        return T("isascii", (s,), "bool")
    if name in ("endswith", "startswith"):
        a = args[0]
        if isinstance(a, ListV) and a.kind == "tuple":
            vals = a.values()
        else:
            vals = [a]
        rs = []
        for x in vals:
            r = affix(I, s, x, name)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        if not rs:
            return False
        return rs[0] if len(rs) == 1 else T("or", tuple(rs), "bool")
    if name in ("removesuffix", "removeprefix"):
        r = affix(I, s, args[0], "endswith" if name == "removesuffix" else "startswith")
        if not I.truth(r):
            return s
        if isinstance(args[0], str):
            if name == "removesuffix":
                return str_slice(I, s, slice(None, -len(args[0]), None)) if args[0] else s
            if isinstance(s, T) and s.op == "cat" and isinstance(s.args[0], str):
                return scat(*([s.args[0][len(args[0]) :]] + list(s.args[1:])))
            if isinstance(s, T) and name == "removeprefix" and args[0]:
                return T("tail", (s, args[0]), "str")
        return T(name, (s,) + tuple(args), "str")
    if name == "replace":
        if isinstance(s, T) and s.op == "cat" and s.args and any(isinstance(p, T) and p.op == "hexb" for p in s.args) and isinstance(args[0], str) and args[0] == "-":
            return scat(*[p.replace("-", args[1]) if isinstance(p, str) else p for p in s.args])
        return T("replace", (s,) + tuple(args), "str")
    if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
        return T(name, (s,) + tuple(args), "any")
    if name in STR_CONST_METHODS:
        ty = "bool" if name.startswith("is") else "int" if name in ("find", "rfind", "index", "count") else "str"
        t = T(name, (s,) + tuple(a if not isinstance(a, Obj) else id(a) for a in args), ty)
        return atom(t) if ty == "int" else t
    raise Undecided("str.%s" % name)


def affix(I, s, x, name):
    """endswith/startswith of a symbolic string."""
    if isinstance(s, str) and isinstance(x, str):
        return s.endswith(x) if name == "endswith" else s.startswith(x)
    if isinstance(s, T) and s.op == "cat" and isinstance(x, str):
        p = s.args[-1] if name == "endswith" else s.args[0]
        if isinstance(p, str):
            if len(p) >= len(x):
                return p.endswith(x) if name == "endswith" else p.startswith(x)
            if name == "endswith" and not x.endswith(p):
                return False
            if name == "startswith" and not x.startswith(p):
                return False
    # at most one of several incompatible suffixes can hold
    if isinstance(x, str):
        for k, v in list(I.eng.bools.items()):
            if k.op == name and v and k.args[0] == s and isinstance(k.args[1], str):
                y = k.args[1]
                if name == "endswith":
                    if not (x.endswith(y) or y.endswith(x)):
                        return False
                    if y.endswith(x):
                        return True
                else:
                    if not (x.startswith(y) or y.startswith(x)):
                        return False
                    if y.startswith(x):
                        return True
    return T(name, (s, x), "bool")


def str_format(I, s, args, kw):
    import string

    if not isinstance(s, str):
        return I.eng.fresh("unk", "str", "format")
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == "":
            a = args[auto]
            auto += 1
        elif field.isdigit():
            a = args[int(field)]
        elif field in kw:
            a = kw[field]
        else:
            return I.eng.fresh("unk", "str", "format")
        if conv == "r":
            a = repr_of(I, a)
        parts.append(format_value(I, a, spec or ""))
    return scat(*parts)


# ------------------------------------------------------------------ uuid


def uuid_from_text(I, s):
    eng = I.eng
    s = eng.canon(eng.res(s)) if isinstance(s, T) else eng.res(s)
    if isinstance(s, str):
        import uuid

        try:
            return eng.own(PyUuid(uuid.UUID(s).bytes))
        except ValueError:
            I.raise_("ValueError", "badly formed hexadecimal UUID string")
    if isinstance(s, T) and s.op in ("cat", "hexb"):
        parts = s.args if s.op == "cat" else (s,)
        segs = []
        buf = ""
        ok = True
        for p in parts:
            if isinstance(p, str):
                buf += p.replace("urn:", "").replace("uuid:", "").replace("-", "").replace("{", "").replace("}", "")
            elif p.op == "hexb" and len(buf) % 2 == 0:
                try:
                    if buf:
                        segs.append(CB(bytes.fromhex(buf)))
                except ValueError:
                    ok = False
                buf = ""
                segs.append(Sub(p.args[0], p.args[1], add(p.args[1], 1)))
            else:
                ok = False
        try:
            if buf:
                segs.append(CB(bytes.fromhex(buf)))
        except ValueError:
            ok = False
        if ok:
            n = eng.segs_len(segs)
            if n == 16:
                return eng.own(PyUuid(eng.mkbytes(segs)))
            I.raise_("ValueError", "badly formed hexadecimal UUID string")
    if isinstance(s, T):
        if s.op == "uuids":
            return eng.own(PyUuid(s.args[0]))
        return eng.own(PyUuid(BytesV([Sub("uuidtext:%r" % (s,), 0, 16)])))
    I.raise_("AttributeError", "not a string")


def uuid_bytes(I, u):
    return u.b


def split16(I, b):
    eng = I.eng
    if isinstance(b, bytes):
        return [CB(b[i : i + 1]) for i in range(16)]
    n = eng.segs_len(b.segs)
    if n != 16:
        raise Undecided("uuid of %r bytes" % (n,))
    out = []
    for i in range(16):
        one = eng.slice_bytes(b, i, i + 1)
        if one is None:
            raise Undecided("uuid bytes")
        out.append(eng.segs_of(one)[0])
    return out


def uuid_str(I, u):
    bs = split16(I, u.b)
    parts = []
    for i, s in enumerate(bs):
        h = hex_part(s)
        if h is None:
            return T("uuids", (u.b,), "str")
        parts.append(h)
        if i in (3, 5, 7, 9):
            parts.append("-")
    return scat(*parts)


def uuid_ctor(I, args, kw):
    eng = I.eng
    names = ["hex", "bytes", "bytes_le", "fields", "int", "version"]
    kw = dict(kw)
    for n, a in zip(names, args):
        kw[n] = a
    kw = {k: v for k, v in kw.items() if v is not None}
    if "hex" in kw:
        v = kw["hex"]
        if isinstance(v, OpNode):
            v = v.term()
        return uuid_from_text(I, v)
    if "bytes" in kw:
        b = to_bytes_value(I, kw["bytes"])
        n = length(I, b)
        if I.truth(cmp_t(I, "!=", n, 16)):
            I.raise_("ValueError", "bytes is not a 16-char string")
        return eng.own(PyUuid(b))
    if "bytes_le" in kw:
        bs = split16(I, to_bytes_value(I, kw["bytes_le"]))
        o = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))
        return eng.own(PyUuid(eng.mkbytes([bs[i] for i in o])))
    if "int" in kw:
        v = eng.res(kw["int"])
        if is_int(v):
            segs = eng.bytes_of_lin(v, 16)
            if segs is not None:
                return eng.own(PyUuid(eng.mkbytes(segs[::-1])))
            c, d = as_lin(eng.canon(v))
            if any(a.op in ("mod", "and_", "rshift", "floordiv") for a in d) and not has_unk(v):
                # bits of the stored value are cut off before they are put together
                return eng.own(PyUuid(BytesV([TB(T("partof", (eng.canon(v),), "bytes"))])))
        return eng.own(PyUuid(BytesV([TB(T("unk", ("uuid int",), "bytes"))])))
    I.raise_("TypeError", "one of the hex, bytes, bytes_le, fields, or int arguments must be given")


# ------------------------------------------------------------------ struct

CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (8, True), "L": (8, False), "q": (8, True), "Q": (8, False), "n": (8, True), "N": (8, False)}


def parse_fmt(I, fmt):
    """List of (code, count, offset, size, endian) and total size; symbolic count allowed for one B/s."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, str):
        endian = "<"
        native = True
        f = fmt
        if f[:1] in "@=<>!":
            if f[0] in ">!":
                endian = ">"
            native = f[0] == "@"
            f = f[1:]
        out = []
        import re

        pre = "@" if native else "<"
        done = ""
        for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", f):
            cnt = int(m.group(1)) if m.group(1) else 1
            code = m.group(2)
            if code in "sp":
                done += "%d%s" % (cnt, code)
                total = _struct.calcsize(pre + done)
                out.append((code, cnt, total - cnt, cnt, endian))
                continue
            for _ in range(cnt):
                done += code
                total = _struct.calcsize(pre + done)
                sz = _struct.calcsize("<" + code) if code not in "nNlL" or not native else _struct.calcsize("@" + code)
                if not native and code in "lL":
                    sz = 4
                out.append((code, 1, total - sz, sz, endian))
        return out, _struct.calcsize(pre + done) if done else 0
    if isinstance(fmt, T) and fmt.op == "cat":
        a = list(fmt.args)
        if a and isinstance(a[0], str) and a[0] in ("<", "=", "@", ">", "!"):
            a = a[1:]
        if len(a) == 2 and isinstance(a[0], T) and a[0].op == "strof" and a[1] in ("B", "s", "b"):
            n = a[0].args[0]
            return [(a[1] + "*", n, 0, n, "<")], n
    return None, None


def struct_error(I, msg):
    I.raise_("error", msg)


def struct_unpack(I, fmt, data, exact=True):
    eng = I.eng
    fields, total = parse_fmt(I, eng.res(fmt))
    if fields is None:
        raise Undecided("struct format %r" % (fmt,))
    b = to_bytes_value(I, data)
    n = eng.segs_len(eng.segs_of(b))
    if exact:
        r = eng.cmp_decide("==", sub(n, total))
        if r is False:
            struct_error(I, "unpack requires a buffer of %s bytes" % (total,))
        if r is None:
            if not eng.force(T("cmp", ("==", eng.canon(sub(n, total))), "bool")):
                struct_error(I, "unpack requires a buffer of %s bytes" % (total,))
    may_raise(I, "struct.error on short input")
    out = []
    for code, cnt, off, size, endian in fields:
        if code == "x":
            continue
        if code in ("B*", "b*"):
            if code == "b*":
                return eng.own(ListV([("i", T("unk", ("signed bytes",)))], "tuple"))
            if isinstance(b, bytes):
                return eng.own(mklist(list(b), "tuple"))
            return eng.own(ListV([("b", b)], "tuple"))
        if code == "s*":
            return eng.own(mklist([b], "tuple"))
        part = eng.slice_bytes(b, off, off + size)
        if part is None:
            raise Undecided("struct field slice")
        if code in ("s", "p"):
            out.append(part)
        elif code == "c":
            out.append(part)
        elif code == "?":
            v = eng.unpack_int(part, 1, False, "<")
            out.append(cmp_t(I, "!=", v, 0))
        elif code in "efd":
            out.append(eng.unpack_float(part, size, endian))
        elif code in CODES:
            out.append(eng.unpack_int(part, size, CODES[code][1], endian))
        else:
            raise Undecided("struct code %s" % code)
    # a run of single bytes is a byte sequence
    if len(fields) > 64 and all(f[0] == "B" for f in fields) and isinstance(b, BytesV):
        return eng.own(ListV([("b", b)], "tuple"))
    return eng.own(mklist(out, "tuple"))


def may_raise(I, why):
    """Inside a try: the read may fail, leaving the stream anywhere."""
    eng = I.eng
    if eng.try_depth > 0 and getattr(eng, "raise_forks", True):
        if eng.choose(2, why + " at %s" % (I.site(),)) == 1:
            st = getattr(eng, "last_stream", None)
            if st is not None:
                eng.havoc_stream(st)
            raise AbsRaise(ExcV(ExcClassV("?", "Exception"), [eng.fresh("excmsg", "str")], I.site(), True))


def struct_pack(I, fmt, vals):
    eng = I.eng
    fields, total = parse_fmt(I, eng.res(fmt))
    if fields is None:
        raise Undecided("struct format %r" % (fmt,))
    segs = []
    pos = 0
    vi = 0
    if len(fields) == 1 and fields[0][0] in ("B*",):
        return bytes_from_iter(I, mklist(vals))
    for code, cnt, off, size, endian in fields:
        if type(off) is int and off > pos:
            segs.append(CB(b"\0" * (off - pos)))
        pos = off + size if type(off) is int else pos
        if code == "x":
            segs.append(CB(b"\0"))
            continue
        if vi >= len(vals):
            struct_error(I, "pack expected more items")
        v = eng.res(vals[vi])
        vi += 1
        if isinstance(v, OpNode):
            v = v.term()
        if code == "s":
            b = to_bytes_value(I, v)
            n = length(I, b)
            if n != cnt:
                raise Undecided("struct s length")
            segs.extend(eng.segs_of(b))
        elif code == "?":
            c = boolval(I, v)
            if type(c) is bool:
                segs.append(CB(b"\1" if c else b"\0", eng.cur_site()))
            else:
                segs.append(IntSeg(1, False, "<", T("ite", (c, 1, 0), "int"), eng.cur_site()))
        elif code in "efd":
            segs.append(pack_float(I, v, size, endian))
        elif code in CODES:
            segs.append(pack_any_int(I, v, size, CODES[code][1], endian))
        else:
            raise Undecided("struct code %s" % code)
    if vi != len(vals):
        struct_error(I, "pack expected %d items" % vi)
    return eng.mkbytes(segs)


def pack_any_int(I, v, size, signed, endian):
    eng = I.eng
    if isinstance(v, T) and v.ty in ("float", "str"):
        struct_error(I, "required argument is not an integer")
    if isinstance(v, T) and v.ty == "int" and v.op != "ite":
        v = atom(v)
    if isinstance(v, T) and v.ty == "any":
        v = atom(v)
    return eng.pack_int(v, size, signed, endian)


def pack_float(I, v, size, endian):
    eng = I.eng
    site = eng.cur_site()
    if type(v) in (int, float, bool):
        try:
            return CB(_struct.pack(endian + {2: "e", 4: "f", 8: "d"}[size], v), site)
        except OverflowError:
            I.raise_("OverflowError", "float too large to pack")
    if isinstance(v, T) and v.op == "flt":
        blob, start, sz, en = v.args
        if sz == size and en == endian:
            return Sub(blob, start, add(start, size), site)
        return FltSeg(size, endian, v, site)
    if isinstance(v, T) and v.op == "nf":
        if I.truth(is_(I, v, None)):
            struct_error(I, "required argument is not a float")
        blob, start, sz, en = v.args
        if sz == size and en == endian:
            return Sub(blob, start, add(start, size), site)
        return FltSeg(size, endian, v, site)
    if v is None or isinstance(v, (str, bytes, BytesV, Obj)) or (isinstance(v, T) and v.ty == "str"):
        struct_error(I, "required argument is not a float")
    return FltSeg(size, endian, v, site)


# ------------------------------------------------------------------ attributes


def bm(name, fn):
    return BuiltinV(name, fn)


def get_attr(I, o, name):
    eng = I.eng
    if isinstance(o, ModuleV):
        if name in o.attrs:
            v = o.attrs[name]
            if type(v).__name__ == "UnknownV":
                raise Undecided(v.why)
            return v
        v = external_attr(I, o, name)
        if v is not None:
            return v
        sub_ = I.src.path(o.name + "." + name) if not o.external else None
        if sub_ is not None:
            return I.load(o.name + "." + name)
        I.raise_("AttributeError", "module %r has no attribute %r" % (o.name, name))
    if isinstance(o, InstanceV):
        if name in o.attrs:
            return o.attrs[name]
        v = o.cls.lookup(name)
        if v is not None:
            return bind_attr(I, v, o)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            d = DictV()
            d.d = o.attrs
            d.order = [("k", k) for k in o.attrs]
            d.owner, d.gen0 = o.owner, o.gen0
            return d
        if name == "__module__":
            return o.cls.module.name
        for b in o.cls.mro():
            if isinstance(b, (TypeV, NS)) and name in b.attrs:
                f = b.attrs[name]
                return BoundV(f, o) if isinstance(f, BuiltinV) else f
        for b in o.cls.mro():
            if isinstance(b, (TypeV, NS)) and b.name != "object":
                raise Undecided("attribute %s of %s" % (name, b.name))
        no_attr(I, object, name, "%r object" % o.cls.name)
    if isinstance(o, ClassV):
        v = o.lookup(name)
        if v is not None:
            if isinstance(v, StaticV):
                return v.fn
            if isinstance(v, ClassMethodV):
                return BoundV(v.fn, o)
            return v
        if name == "__name__":
            return o.name
        if name == "__module__":
            return o.module.name
        if name == "__qualname__":
            return o.name
        no_attr(I, type, name, "type object %r" % o.name)
    if isinstance(o, NS):
        if name in o.attrs:
            return o.attrs[name]
        if "__getattr__" in o.attrs:
            return o.attrs["__getattr__"].fn(I, [name], {})
        if isinstance(o, TypeV) and isinstance(getattr(__import__("builtins"), o.name, None), type):
            no_attr(I, getattr(__import__("builtins"), o.name), name, o.name)
        raise Undecided("attribute %s of %s" % (name, o.name))
    if isinstance(o, StreamV):
        return stream_attr(I, o, name)
    if isinstance(o, NTupleV):
        return ntuple_attr(I, o, name)
    if isinstance(o, EnumV):
        if name in o.members:
            return o.members[name]
        if name == "__members__":
            d = DictV()
            for k, x in o.members.items():
                d.set(k, x)
            return d
        return get_attr(I, o.cls, name)
    if isinstance(o, PathV):
        return path_attr(I, o, name)
    if isinstance(o, ListV):
        return list_attr(I, o, name)
    if isinstance(o, DictV):
        return dict_attr(I, o, name)
    if isinstance(o, OpNode):
        return op_attr(I, o, name)
    if isinstance(o, SetV):
        return set_attr(I, o, name)
    if isinstance(o, PyUuid):
        if name == "bytes":
            return o.b
        if name == "bytes_le":
            bs = split16(I, o.b)
            p = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))
            return eng.mkbytes([bs[i] for i in p])
        if name == "int":
            bs = split16(I, o.b)
            v = 0
            for i, s in enumerate(bs):
                v = add(v, mul(eng.unpack_int(eng.mkbytes([s]), 1, False, "<"), 1 << (8 * (15 - i))))
            return v
        if name == "hex":
            s = uuid_str(I, o)
            return scat(*[p.replace("-", "") if isinstance(p, str) else p for p in (s.args if isinstance(s, T) and s.op == "cat" else (s,))])
        raise Undecided("uuid.%s" % name)
    if isinstance(o, str) or (isinstance(o, T) and o.ty in ("str", "any")):
        if isinstance(o, T) and o.ty == "any" and name in ("append", "keys", "items", "values", "get", "update", "value", "attrs"):
            raise Undecided("attribute %s of %r" % (name, o))
        return bm("str." + name, lambda I2, a, k: str_method(I, o, name, a, k))
    if isinstance(o, (bytes, BytesV, ByteArrV)):
        return bytes_attr(I, o, name)
    if type(o) in (int, bool) or isinstance(o, Lin) or (isinstance(o, T) and o.ty in ("int", "bool")):
        if name == "to_bytes":
            return bm("int.to_bytes", lambda I2, a, k: int_to_bytes(I, o, a, k))
        if name == "bit_length":
            return bm("int.bit_length", lambda I2, a, k: o.bit_length() if type(o) is int else atom(T("bitlen", (o,), "int")))
        no_attr(I, int, name, "'int' object")
    if isinstance(o, float) or (isinstance(o, T) and o.ty == "float"):
        if name == "is_integer":
            return bm("is_integer", lambda I2, a, k: o.is_integer() if isinstance(o, float) else T("isinteger", (o,), "bool"))
        raise Undecided("float.%s" % name)
    if isinstance(o, TypeV):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if o.name in ("str", "bytes", "list", "dict", "int"):
            return bm("%s.%s" % (o.name, name), lambda I2, a, k: I.call(get_attr(I, a[0], name), a[1:], k))
        raise Undecided("%s.%s" % (o.name, name))
    if isinstance(o, ExcV):
        if name == "args":
            return eng.own(mklist(o.args, "tuple"))
        if name in o.attrs:
            return o.attrs[name]
        if name == "with_traceback":
            return bm(name, lambda I2, a, k: o)
        if name in ("start", "end", "reason", "object", "encoding"):
            return T("excattr", (id(o), name))
        no_attr(I, OSError, name, "exception")
    if isinstance(o, FileV):
        return file_attr(I, o, name)
    if isinstance(o, (FuncV, BoundV, BuiltinV)):
        if name in ("__name__", "__qualname__"):
            f = o.fn if isinstance(o, BoundV) else o
            return getattr(f, "name", "?")
        if name == "__self__" and isinstance(o, BoundV):
            return o.self_
        if isinstance(o, BuiltinV) and hasattr(o, "attrs") and name in o.attrs:
            return o.attrs[name]
        if name == "__module__":
            return o.module.name
        if isinstance(o, BuiltinV):
            raise Undecided("attribute %s of %s" % (name, o.name))
        no_attr(I, type(lambda: 0), name, "function")
    if isinstance(o, ExcClassV):
        if name == "__name__":
            return o.name
        raise Undecided("attr of exception class")
    if o is None:
        I.raise_("AttributeError", "'NoneType' object has no attribute %r" % name)
    raise Undecided("attribute %s of %r" % (name, o))


def bind_attr(I, v, o):
    if isinstance(v, FuncV):
        return BoundV(v, o)
    if isinstance(v, StaticV):
        return v.fn
    if isinstance(v, ClassMethodV):
        return BoundV(v.fn, o.cls)
    if isinstance(v, PropertyV):
        return I.call(v.fn, [o], {})
    if isinstance(v, BuiltinV) and getattr(v, "binds", False):
        return BoundV(v, o)
    return v


def ntuple_attr(I, o, name):
    eng = I.eng
    fields = next(b.namedtuple for b in o.cls.mro() if getattr(b, "namedtuple", None) is not None)
    names = [f for f, _ in fields]
    vals = o.values()
    if name in names:
        return vals[names.index(name)]
    if name == "_fields":
        return mklist(names, "tuple")
    if name == "_asdict":
        def asdict(I2, a, k):
            d = eng.own(DictV())
            for f, v in zip(names, vals):
                d.set(f, v)
            return d

        return bm(name, asdict)
    if name == "_replace":
        return bm(name, lambda I2, a, k: eng.own(NTupleV([k.get(f, v) for f, v in zip(names, vals)], o.cls)))
    v = o.cls.lookup(name)
    if v is not None:
        return bind_attr(I, v, o)
    return list_attr(I, o, name)


def path_attr(I, o, name):
    """pathlib.Path in terms of open and os.path."""
    eng = I.eng
    osp = external_module(I, "os.path")
    op = lambda *a, **k: I.call(I.builtins["open"], [o.p] + list(a), k)

    def whole(mode, meth, takes=False):
        def f(I2, a, k):
            a = list(a)
            k = dict(k)
            data = [a.pop(0) if a else k.pop("data")] if takes else []
            if a and "b" not in mode:
                k["encoding"] = a.pop(0)
            fh = op(mode, **k)
            r = I.call(I.getattr(fh, meth), data, {})
            eng.event("close", file=fh)
            return r

        return bm("Path." + name, f)

    if name == "read_bytes":
        return whole("rb", "read")
    if name == "read_text":
        return whole("r", "read")
    if name == "write_bytes":
        return whole("wb", "write", True)
    if name == "write_text":
        return whole("w", "write", True)
    if name == "open":
        return bm("Path.open", lambda I2, a, k: op(*a, **k))
    if name in ("exists", "is_file", "is_dir", "is_symlink"):
        real = {"exists": "exists", "is_file": "isfile", "is_dir": "isdir", "is_symlink": "islink"}[name]
        return bm("Path." + name, lambda I2, a, k: I.call(osp.attrs[real], [o.p], {}))
    if name == "name":
        return I.call(osp.attrs["basename"], [o.p], {})
    if name in ("suffix", "stem"):
        if isinstance(o.p, T) and o.p.op != "cat":
            raise Undecided("Path.%s" % name)
        l = I.call(osp.attrs["splitext"], [o.p], {}).values()
        return l[1] if name == "suffix" else I.call(osp.attrs["basename"], [l[0]], {})
    if name in ("__fspath__", "__str__", "as_posix"):
        return bm(name, lambda I2, a, k: o.p)
    if name in ("unlink", "rename", "replace", "mkdir", "touch", "rmdir", "chmod"):
        return bm(name, lambda I2, a, k: eng.event("fs-effect", name="Path." + name, args=[eng.canon(eng.res(x)) for x in [o.p] + [path_text(I, y) for y in a]]) and None)
    raise Undecided("Path.%s" % name)


def stream_attr(I, o, name):
    eng = I.eng
    I.stream_ops += 1

    def need_int(x):
        x = eng.res(x)
        if isinstance(x, OpNode):
            x = x.term("int")
        i = to_int(x) if not (isinstance(x, T) and x.ty == "any") else atom(x)
        if i is None:
            I.raise_("TypeError", "integer argument expected")
        return i

    def read(I2, a, k):
        eng.last_stream = o
        n = a[0] if a else k.get("size")
        if n is not None:
            n = need_int(n)
        return eng.stream_read(o, n)

    def write(I2, a, k):
        v = a[0]
        if isinstance(v, (str, ListV, DictV, int, float, Lin)) or v is None or isinstance(v, OpNode) or (isinstance(v, T) and v.ty != "bytes"):
            I.raise_("TypeError", "a bytes-like object is required")
        return eng.stream_write(o, to_bytes_value(I, v))

    fns = {
        "read": read,
        "write": write,
        "tell": lambda I2, a, k: (eng._touch_stream(o), eng.canon(o.pos))[1],
        "seek": lambda I2, a, k: eng.stream_seek(o, need_int(a[0]), a[1] if len(a) > 1 else 0),
        "getvalue": lambda I2, a, k: (eng._touch_stream(o), eng.mkbytes(o.segs))[1],
        "getbuffer": lambda I2, a, k: (eng._touch_stream(o), eng.mkbytes(o.segs))[1],
        "close": lambda I2, a, k: setattr(o, "closed", True),
        "flush": lambda I2, a, k: None,
        "readable": lambda I2, a, k: True,
        "truncate": lambda I2, a, k: stream_truncate(I, o, a),
        "writelines": lambda I2, a, k: [eng.stream_write(o, to_bytes_value(I, x)) for x in to_list(I, a[0])] and None,
    }
    if name == "closed":
        return o.closed
    if name in fns:
        return bm("BytesIO." + name, fns[name])
    raise Undecided("BytesIO.%s" % name)


def stream_truncate(I, o, a):
    eng = I.eng
    eng._touch_stream(o)
    at = a[0] if a else o.pos
    r = eng.split(o.segs, at)
    if r is None:
        raise Undecided("truncate")
    o.segs = r[0]


def list_attr(I, o, name):
    eng = I.eng

    def append(I2, a, k):
        list_append(I, o, a[0])

    def extend(I2, a, k):
        list_extend(I, o, a[0])

    def pop(I2, a, k):
        mutate(I, o, "pop")
        i = a[0] if a else -1
        if o.concrete() and type(i) is int:
            if not o.items:
                I.raise_("IndexError", "pop from empty list")
            return o.items.pop(i)[1]
        raise Undecided("list.pop")

    def insert(I2, a, k):
        mutate(I, o, "insert")
        if type(a[0]) is int and (o.concrete() or a[0] == 0) and not eng.loops:
            o.items.insert(a[0], ("i", a[1]))
            return
        raise Undecided("list.insert")

    def sort(I2, a, k):
        mutate(I, o, "sort")
        if o.concrete() and all(is_const(v) for v in o.values()) and not k:
            o.items = [("i", v) for v in sorted(o.values())]
            return
        o.items = [("i", T("shifted", ("sorted", id(o))))] if not o.concrete() else o.items

    def reverse(I2, a, k):
        mutate(I, o, "reverse")
        if o.concrete():
            o.items.reverse()
        else:
            o.items = [("i", T("shifted", ("reversed", id(o))))]

    def index(I2, a, k):
        l = to_list(I, o)
        if l is not None and all(is_const(v) for v in l) and is_const(a[0]):
            if a[0] in l:
                return l.index(a[0])
            I.raise_("ValueError", "not in list")
        return atom(eng.fresh("unk", "int", "index"))

    def clear(I2, a, k):
        mutate(I, o, "clear")
        o.items = []

    fns = {"append": append, "extend": extend, "pop": pop, "insert": insert, "sort": sort, "reverse": reverse, "index": index, "clear": clear}
    if name == "copy":
        return bm("list.copy", lambda I2, a, k: eng.own(ListV(o.items, o.kind)))
    if name == "count":
        return bm("list.count", lambda I2, a, k: to_list(I, o).count(a[0]))
    if name in fns:
        if o.kind == "tuple" and name != "index":
            I.raise_("AttributeError", "'tuple' object has no attribute %r" % name)
        return bm("list." + name, fns[name])
    if hasattr(o, "fields") and name in o.fields:
        return o.values()[o.fields.index(name)]
    no_attr(I, tuple if o.kind == "tuple" else list, name, "'%s' object" % o.kind)


def dict_attr(I, o, name):
    eng = I.eng

    def get(I2, a, k):
        return dict_get(I, o, a[0], a[1] if len(a) > 1 else k.get("default"))

    def pop(I2, a, k):
        mutate(I, o, "pop")
        key = eng.res(a[0])
        v = dict_get(I, o, key, a[1] if len(a) > 1 else MISSING)
        if key in o.d:
            o.delete(key)
        return v

    def setdefault(I2, a, k):
        key = eng.res(a[0])
        if I.truth(contains(I, o, key)):
            return dict_get(I, o, key)
        dict_set(I, o, key, a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None

    def update(I2, a, k):
        for x in a:
            dict_update(I, o, x)
        for kk, v in k.items():
            dict_set(I, o, kk, v)

    def copy(I2, a, k):
        d = eng.own(DictV())
        dict_update(I, d, o)
        d.poison = o.poison
        return d

    def clear(I2, a, k):
        mutate(I, o, "clear")
        o.d.clear()
        o.reps = []
        o.order = []

    def popitem(I2, a, k):
        raise Undecided("popitem")

    fns = {"get": get, "pop": pop, "setdefault": setdefault, "update": update, "copy": copy, "clear": clear, "popitem": popitem}
    if name in ("keys", "values", "items"):
        return bm("dict." + name, lambda I2, a, k: IterV(name, o))
    if name in fns:
        return bm("dict." + name, fns[name])
    no_attr(I, dict, name, "'dict' object")


def op_attr(I, o, name):
    eng = I.eng

    def get(I2, a, k):
        h = op_has(I, o, eng.res(a[0]))
        if I.truth(h):
            return op_get(I, o, a[0])
        return a[1] if len(a) > 1 else None

    def pop(I2, a, k):
        key = eng.res(a[0])
        h = op_has(I, o, key)
        if len(a) > 1 and not I.truth(h):
            return a[1]
        v = op_get(I, o, key)
        o.overlay.pop(key, None)
        o.deleted.add(key)
        return v

    def update(I2, a, k):
        for x in a:
            if isinstance(x, DictV) and not x.reps:
                for kk, v in x.d.items():
                    o.overlay[kk] = v
            else:
                raise Undecided("update of opaque document")

    def setdefault(I2, a, k):
        if I.truth(op_has(I, o, a[0])):
            return op_get(I, o, a[0])
        o.overlay[a[0]] = a[1]
        return a[1]

    if name in ("keys", "values", "items"):
        return bm("doc." + name, lambda I2, a, k: IterV(name, o))
    fns = {"get": get, "pop": pop, "update": update, "setdefault": setdefault}
    if name in fns:
        return bm("doc." + name, fns[name])
    if name in STR_CONST_METHODS or name in ("encode", "join", "format"):
        t = T("op", (o.root, o.path), "str")
        return bm("str." + name, lambda I2, a, k: str_method(I, t, name, a, k))
    if name == "copy":
        return bm("doc.copy", lambda I2, a, k: copy_value(I, o, False, {}))
    raise Undecided("attribute %s of an opaque document" % name)


def set_attr(I, o, name):
    def add_(I2, a, k):
        mutate(I, o, "add")
        v = I.eng.res(a[0])
        if not is_const(v) or v not in o.vals:
            o.vals.append(v)

    def union(I2, a, k):
        vals = list(o.vals)
        for x in a:
            l = to_list(I, x)
            if l is None:
                raise Undecided("set union")
            vals += [v for v in l if v not in vals]
        return I.eng.own(SetV(vals))

    if name == "add":
        return bm("set.add", add_)
    if name in ("union",):
        return bm("set.union", union)
    if name == "update":
        return bm("set.update", lambda I2, a, k: (mutate(I, o, "update"), setattr(o, "vals", union(I, a, k).vals))[1])
    raise Undecided("set.%s" % name)


def bytes_attr(I, o, name):
    eng = I.eng

    def val():
        return eng.mkbytes(o.segs) if isinstance(o, ByteArrV) else o

    if isinstance(o, ByteArrV):
        if name in ("extend", "append", "clear", "pop", "insert", "remove"):
            mutate(I, o, name)

        def extend(I2, a, k):
            o.segs.extend(eng.segs_of(to_bytes_value(I, a[0])))

        def append(I2, a, k):
            o.segs.append(eng.pack_int(a[0], 1, False, "<"))

        if name == "extend":
            if eng.loops and not all(eng.inside(o, lf) for lf in eng.loops):
                raise Undecided("bytearray grown in a loop")
            return bm("bytearray.extend", extend)
        if name == "append":
            if eng.loops and not all(eng.inside(o, lf) for lf in eng.loops):
                raise Undecided("bytearray grown in a loop")
            return bm("bytearray.append", append)
    if name == "decode":
        return bm("bytes.decode", lambda I2, a, k: decode_bytes(I, val(), eng.res(a[0]) if a else k.get("encoding", "utf-8"), eng.res(a[1]) if len(a) > 1 else k.get("errors", "strict")))
    if name == "hex":

        def hx(I2, a, k):
            b = val()
            if isinstance(b, bytes):
                return b.hex(*a)
            n = eng.segs_len(b.segs)
            if type(n) is int and n <= 64 and not a:
                ps = []
                for i in range(n):
                    one = eng.slice_bytes(b, i, i + 1)
                    p = hex_part(eng.segs_of(one)[0]) if one is not None else None
                    if p is None:
                        return T("hexof", (eng.canon(b),), "str")
                    ps.append(p)
                return scat(*ps)
            return T("hexof", (eng.canon(b),), "str")

        return bm("bytes.hex", hx)
    if name == "join":

        def join(I2, a, k):
            sep = val()
            items = seq_items(I, a[0])
            segs = []
            first = True
            for it in items:
                if it[0] == "i":
                    if not first:
                        segs += eng.segs_of(sep)
                    x = it[1]
                    if isinstance(x, (str, int, Lin)) or x is None:
                        I.raise_("TypeError", "sequence item: expected a bytes-like object")
                    segs += eng.segs_of(to_bytes_value(I, x))
                    first = False
                elif it[0] == "r":
                    if sep != b"":
                        raise Undecided("bytes.join separator")
                    body = []
                    for x in it[3]:
                        if x[0] != "i":
                            raise Undecided("bytes.join")
                        body += eng.segs_of(to_bytes_value(I, x[1]))
                    pairs = {it[1]} | eng.__dict__.get("loop_pairs", {}).get(it[1], set())
                    segs.extend(eng.norm_reps(RepSeg(it[1], it[2], eng.norm_segs(body), frozenset(pairs), eng.cur_site())))
                else:
                    I.raise_("TypeError", "sequence item: expected a bytes-like object")
            return eng.mkbytes(segs)

        return bm("bytes.join", join)
    if name in ("startswith", "endswith", "strip", "rstrip", "lstrip", "find", "count", "replace", "split", "ljust", "rjust"):

        def gen(I2, a, k):
            b = val()
            if isinstance(b, bytes) and all(is_const(x) for x in a):
                r = getattr(b, name)(*a)
                return eng.own(mklist(r)) if isinstance(r, list) else r
            if name in ("startswith", "endswith"):
                x = a[0]
                if isinstance(x, bytes):
                    n = len(x)
                    L = eng.segs_len(eng.segs_of(b))
                    if eng.cmp_decide("<", sub(L, n)) is True:
                        return False
                    if name == "startswith":
                        p = eng.slice_bytes(b, 0, n)
                    else:
                        p = eng.slice_bytes(b, sub(L, n), L)
                    if p is not None:
                        return eq(I, p, x)
                return T("b" + name, (eng.canon(b), x if not isinstance(x, Obj) else id(x)), "bool")
            if name in ("find", "count"):
                return atom(T("b" + name, (eng.canon(b),) + tuple(a), "int"))
            return BytesV([TB(T("b" + name, (eng.canon(b),) + tuple(x if not isinstance(x, Obj) else id(x) for x in a), "bytes"))])

        return bm("bytes." + name, gen)
    if name == "append" or name == "write":
        I.raise_("AttributeError", "'bytes' object has no attribute %r" % name)
    raise Undecided("bytes.%s" % name)


def int_to_bytes(I, v, a, k):
    eng = I.eng
    names = ["length", "byteorder"]
    kk = dict(k)
    for n, x in zip(names, a):
        kk[n] = x
    ln = eng.res(kk.get("length", 1))
    bo = eng.res(kk.get("byteorder", "big"))
    sg = eng.res(kk.get("signed", False))
    if type(ln) is not int or not isinstance(bo, str) or type(sg) is not bool:
        return BytesV([TB(T("tobytes", (v, ln, bo, sg), "bytes"))])
    try:
        s = eng.pack_int(v, ln, sg, "<" if bo == "little" else ">")
    except AbsRaise:
        I.raise_("OverflowError", "int too big to convert")
    return eng.mkbytes([s])


# ------------------------------------------------------------------ copying / JSON


def copy_value(I, v, json, memo, on=None, path=()):
    """Deep copy (json=False) or JSON round trip (json=True) of a value.
    `on(path, value)` is called for json leaves that JSON cannot carry."""
    eng = I.eng
    if isinstance(v, LazyLoopVar):
        v = v.last
    if is_const(v) or isinstance(v, (Lin, T)):
        if json:
            if isinstance(v, bytes):
                return json_default(I, v, memo, on, path)
            if isinstance(v, T) and v.ty == "bytes":
                return json_default(I, v, memo, on, path)
            if (isinstance(v, float) and (v != v or v in (math.inf, -math.inf))) or (isinstance(v, T) and v.ty == "float"):
                on and on("float", path, v)
        return v
    if isinstance(v, BytesV):
        return json_default(I, v, memo, on, path) if json else v
    if id(v) in memo and not json:
        return memo[id(v)]
    if isinstance(v, ListV):
        n = ListV([], "list" if json else v.kind)
        n.owner = v.owner
        memo[id(v)] = n

        def cp(it, i):
            if it[0] == "i":
                return ("i", copy_value(I, it[1], json, memo, on, path + ("[]",)))
            if it[0] == "b":
                return it
            return ("r", it[1], it[2], [cp(x, i) for x in it[3]])

        n.items = [cp(it, i) for i, it in enumerate(v.items)]
        return n
    if isinstance(v, DictV):
        n = DictV()
        n.owner = v.owner
        n.poison = v.poison
        memo[id(v)] = n
        for o in v.order:
            if o[0] == "k":
                k = o[1]
                val = v.d[k]
                if json:
                    kk = k.v if isinstance(k, SymKey) else k
                    if isinstance(kk, str) or (isinstance(kk, T) and kk.ty in ("str", "any")):
                        nk = k
                    elif kk is None or type(kk) in (int, bool, float):
                        on and on("key", path, kk)
                        nk = {None: "null", True: "true", False: "false"}.get(kk, str(kk)) if type(kk) in (bool, type(None)) else str(kk)
                    elif is_int(kk):
                        on and on("key", path, kk)
                        nk = SymKey(T("strof", (kk,), "str"))
                    else:
                        on and on("badkey", path, kk)
                        I.raise_("TypeError", "keys must be str, int, float, bool or None")
                else:
                    nk = k
                n.set(nk, copy_value(I, val, json, memo, on, path + (nk if isinstance(nk, str) else "*",)))
            else:
                lid, cnt, k, val = v.reps[o[1]]
                if json and not (isinstance(k, str) or (isinstance(k, T) and k.ty in ("str", "any"))):
                    if isinstance(k, (InstanceV, PyUuid, ListV)):
                        on and on("badkey", path, k)
                        I.raise_("TypeError", "keys must be str, int, float, bool or None")
                    on and on("key", path, k)
                    k = T("strof", (k,), "str")
                n.reps.append((lid, cnt, k, copy_value(I, val, json, memo, on, path + ("*",))))
                n.order.append(("r", len(n.reps) - 1))
        return n
    if isinstance(v, OpNode):
        n = OpNode(v.root, v.path, v.info)
        n.owner = v.owner
        n.deleted = set(v.deleted)
        n.overlay = {k: copy_value(I, x, json, memo, on, path + (str(k),)) for k, x in v.overlay.items()}
        n.kids = {k: copy_value(I, x, json, memo, on, path + (str(k),)) for k, x in v.kids.items()}
        return n
    if json:
        return json_default(I, v, memo, on, path)
    if isinstance(v, InstanceV):
        n = InstanceV(v.cls)
        n.owner = v.owner
        memo[id(v)] = n
        n.attrs = {k: copy_value(I, x, json, memo, on, path) for k, x in v.attrs.items()}
        return n
    if isinstance(v, PyUuid):
        return v
    if isinstance(v, ByteArrV):
        n = ByteArrV(v.segs)
        n.owner = v.owner
        return n
    if isinstance(v, (FuncV, ClassV, BuiltinV, TypeV, ModuleV)):
        return v
    if isinstance(v, SetV):
        n = SetV(v.vals)
        n.owner = v.owner
        return n
    raise Undecided("copy of %r" % (v,))


def json_default(I, v, memo, on, path):
    enc = memo.get("encoder")
    on and on("default", path, v)
    if enc is None:
        I.raise_("TypeError", "Object of type %s is not JSON serializable" % (type_name(v) or type(v).__name__))
    r = I.call(BoundV(enc[0], enc[1]) if enc[1] is not None else enc[0], [v], {})
    if isinstance(r, InstanceV) or isinstance(r, (BytesV, bytes, PyUuid, SetV)):
        d = memo.get("depth", 0)
        if d > 4:
            I.raise_("ValueError", "Circular reference detected")
        memo["depth"] = d + 1
        r = copy_value(I, r, True, memo, on, path)
        memo["depth"] = d
        return r
    return copy_value(I, r, True, memo, on, path)


def json_roundtrip(I, v, encoder_cls=None, on=None, default=None):
    memo = {}
    if default is not None:
        memo["encoder"] = (default, None)
    if encoder_cls is not None:
        f = encoder_cls.lookup("default") if isinstance(encoder_cls, ClassV) else None
        if f is not None:
            inst = I.eng.own(InstanceV(encoder_cls))
            if default is None:  # a function given as `default` takes the place of the method
                memo["encoder"] = (f, inst)
    return copy_value(I, v, True, memo, on)


# ------------------------------------------------------------------ files


def file_attr(I, o, name):
    eng = I.eng

    def read(I2, a, k):
        eng.event("file-read", file=o)
        if "b" in o.mode:
            c = o.info.get("content")
            if c is not None:
                return c
            blob = "file:%r" % (o.path,)
            a_ = T("len", (blob,), "int")
            if a_ not in eng.order:
                eng.order[a_] = len(eng.order)
            return BytesV([Sub(blob, 0, atom(a_))])
        return T("filetext", (o.path if not isinstance(o.path, Obj) else id(o.path),), "str")

    def write(I2, a, k):
        eng.event("file-write", file=o, value=a[0])
        h = I.config.get("file_write")
        if h is not None:
            h(I, o, a[0])
        return None

    def close(I2, a, k):
        eng.event("close", file=o)

    fns = {"read": read, "write": write, "close": close, "flush": lambda I2, a, k: None}
    if name in fns:
        return bm("file." + name, fns[name])
    if name == "name":
        return o.path
    raise Undecided("file.%s" % name)


# ------------------------------------------------------------------ super


def make_super(I, fr):
    f = fr
    while f is not None and (f.func is None or getattr(f.func, "cls", None) is None):
        f = f.parent
    if f is None:
        raise Undecided("super()")
    selfv = next(iter(f.vars.values()))
    cls = selfv.cls if isinstance(selfv, InstanceV) else selfv
    return super_proxy(I, cls, selfv, f.func.cls)


def super_proxy(I, cls, selfv, clsname):
    def ga(I2, a, k):
        name = a[0]
        m = cls.mro()
        i = next((j for j, c in enumerate(m) if isinstance(c, ClassV) and c.name == clsname), 0)
        for c in m[i + 1 :]:
            if isinstance(c, ClassV) and name in c.attrs:
                return bind_attr(I, c.attrs[name], selfv)
            if isinstance(c, (TypeV, NS)) and name in c.attrs:
                return BoundV(c.attrs[name], selfv)
        if name == "__init__":
            return bm("object.__init__", lambda I3, a, k: None)
        I.raise_("AttributeError", "super object has no attribute %r" % name)

    return NS("super", {"__getattr__": bm("super", ga)})


from .stdlib import make_builtins, make_external, external_module, external_attr  # noqa: E402,F401
