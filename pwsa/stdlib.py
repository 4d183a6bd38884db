"""Models of builtins and standard-library modules (trusted base, continued)."""

import base64 as _b64
import math as _math
import zlib as _zlib

from .values import *
from .engine import *


def M():
    from . import models

    return models


def B(name, fn):
    return BuiltinV(name, fn)


# ------------------------------------------------------------------ builtins


def make_builtins(I):
    m = M()
    eng = I.eng
    b = {}

    def R(*vals):
        return [eng.res(v) for v in vals]

    def fn(name):
        def deco(f):
            b[name] = BuiltinV(name, f)
            return f

        return deco

    for name, base in m.EXC_TREE.items():
        if name not in ("error", "JSONDecodeError"):
            b[name] = ExcClassV(name, base)
    b["EnvironmentError"] = b["IOError"] = b["OSError"]
    b["NotImplemented"] = T("NotImplemented", ())
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True
    b["__name__"] = "?"

    # ---- types
    def t_int(I2, a, k):
        if not a:
            return 0
        x = eng.res(a[0])
        if isinstance(x, OpNode):
            x = x.term()
        base = eng.res(a[1]) if len(a) > 1 else eng.res(k.get("base", 10))
        if type(x) in (int, bool):
            return int(x)
        if isinstance(x, Lin):
            return x
        if type(x) is float:
            try:
                return int(x)
            except (ValueError, OverflowError) as e:
                I.raise_(type(e).__name__, str(e))
        if type(x) is str and type(base) is int:
            try:
                return int(x, base)
            except ValueError as e:
                I.raise_("ValueError", str(e))
        if x is None or isinstance(x, (ListV, DictV)):
            I.raise_("TypeError", "int() argument")
        if isinstance(x, T):
            if x.op == "ite":
                return x
            if x.ty == "bool":
                return T("ite", (x, 1, 0), "int")
            if x.ty == "int":
                return atom(x)
            if x.ty == "str" and x.op == "cat" and base == 16:
                return atom(T("hexint", (eng.canon(x),), "int"))
            return m.fold_small(I, atom(T("toint", (eng.canon(x),), "int")))
        if isinstance(x, PyUuid):
            return m.get_attr(I, x, "int")
        raise Undecided("int(%r)" % (x,))

    def int_from_bytes(I2, a, k):
        names = ["bytes", "byteorder"]
        kk = dict(k)
        for n, x in zip(names, a):
            kk[n] = x
        v = m.to_bytes_value(I, kk["bytes"])
        bo = eng.res(kk.get("byteorder", "big"))
        sg = eng.res(kk.get("signed", False))
        if isinstance(v, bytes):
            return int.from_bytes(v, bo, signed=sg)
        n = eng.segs_len(v.segs)
        if type(n) is not int or not isinstance(bo, str):
            return atom(T("ifb", (eng.canon(v), bo, sg), "int"))
        return eng.unpack_int(v, n, sg, "<" if bo == "little" else ">")

    b["int"] = TypeV("int", t_int, {"from_bytes": B("int.from_bytes", int_from_bytes), "to_bytes": B("int.to_bytes", lambda I2, a, k: m.int_to_bytes(I, a[0], a[1:], k))})

    def t_str(I2, a, k):
        if not a:
            return ""
        if len(a) > 1 or "encoding" in k:
            enc = eng.res(a[1]) if len(a) > 1 else eng.res(k["encoding"])
            er = eng.res(a[2]) if len(a) > 2 else eng.res(k.get("errors", "strict"))
            return m.decode_bytes(I, m.to_bytes_value(I, a[0]), enc, er)
        return m.str_of(I, a[0])

    b["str"] = TypeV("str", t_str, {"maketrans": B("maketrans", lambda I2, a, k: T("unk", ("maketrans",)))})

    def t_bytes(I2, a, k):
        if not a:
            return b""
        x = eng.res(a[0])
        if len(a) > 1 or "encoding" in k:
            return m.encode_str(I, x, eng.res(a[1]) if len(a) > 1 else eng.res(k["encoding"]), eng.res(a[2]) if len(a) > 2 else k.get("errors", "strict"))
        if type(x) is int:
            if x < 0:
                I.raise_("ValueError", "negative count")
            if x > 1 << 20:
                raise Undecided("bytes(%d)" % x)
            return bytes(x)
        if isinstance(x, Lin):
            return BytesV([TB(T("zeros", (x,), "bytes"))])
        if isinstance(x, T) and x.ty == "int":
            return BytesV([TB(T("zeros", (atom(x),), "bytes"))])
        if isinstance(x, InstanceV):
            f = x.cls.lookup("__bytes__")
            if f is not None:
                return I.call(BoundV(f, x), [], {})
        return m.to_bytes_value(I, x)

    def bytes_fromhex(I2, a, k):
        s = eng.res(a[0])
        s = eng.canon(s)
        if isinstance(s, str):
            try:
                return bytes.fromhex(s)
            except ValueError as e:
                I.raise_("ValueError", str(e))
        u = None
        if isinstance(s, T) and s.op in ("cat", "hexb"):
            parts = s.args if s.op == "cat" else (s,)
            segs, buf, ok = [], "", True
            for p in parts:
                if isinstance(p, str):
                    buf += p
                elif p.op == "hexb" and len(buf) % 2 == 0:
                    try:
                        segs.append(CB(bytes.fromhex(buf))) if buf else None
                    except ValueError:
                        I.raise_("ValueError", "non-hexadecimal number")
                    buf = ""
                    segs.append(Sub(p.args[0], p.args[1], add(p.args[1], 1)))
                else:
                    ok = False
            if ok:
                try:
                    segs.append(CB(bytes.fromhex(buf))) if buf else None
                except ValueError:
                    I.raise_("ValueError", "non-hexadecimal number")
                return eng.mkbytes(segs)
        if isinstance(s, T) and s.op == "hexof":
            return s.args[0]
        return BytesV([TB(T("fromhex", (s,), "bytes"))])

    b["bytes"] = TypeV("bytes", t_bytes, {"fromhex": B("bytes.fromhex", bytes_fromhex)})

    def t_bytearray(I2, a, k):
        v = t_bytes(I2, a, k)
        return eng.own(ByteArrV(eng.segs_of(v)))

    b["bytearray"] = TypeV("bytearray", t_bytearray)

    def imp(I2, a, k):
        if len(a) != 1 or not isinstance(a[0], str) or "." in a[0]:
            raise Undecided("__import__")
        return I.import_module(a[0])

    b["__import__"] = B("__import__", imp)

    def delattr_(I2, a, k):
        m.delattr(I, a[0], a[1]) if hasattr(m, "delattr") else (_ for _ in ()).throw(Undecided("delattr"))

    b["delattr"] = B("delattr", delattr_)

    def t_list(kind):
        def f(I2, a, k):
            if not a:
                return eng.own(ListV([], kind))
            x = eng.res(a[0])
            if isinstance(x, OpNode):
                return x  # a copy of an opaque sequence keeps its content
            if isinstance(x, SetV):
                return eng.own(mklist(m.set_order(I, x), kind))
            return eng.own(ListV(m.seq_items(I, x), kind))

        return f

    b["list"] = TypeV("list", t_list("list"))
    b["tuple"] = TypeV("tuple", t_list("tuple"))

    def t_dict(I2, a, k):
        d = eng.own(DictV())
        if a:
            m.dict_update(I, d, a[0])
        for kk, v in k.items():
            m.dict_set(I, d, kk, v)
        return d

    def fromkeys(I2, a, k):
        d = eng.own(DictV())
        x = eng.res(a[0])
        l = m.set_order(I, x) if isinstance(x, SetV) else m.to_list(I, x)
        if l is None:
            raise Undecided("fromkeys")
        for x in l:
            m.dict_set(I, d, x, a[1] if len(a) > 1 else None)
        return d

    b["dict"] = TypeV("dict", t_dict, {"fromkeys": B("fromkeys", fromkeys)})

    def t_set(I2, a, k):
        if not a:
            return eng.own(SetV())
        x = a[0]
        l = m.to_list(I, x)
        if l is None:
            raise Undecided("set of symbolic iterable")
        out = []
        for v in l:
            if not any(type(v) is type(w) and m.is_const(v) and v == w for w in out):
                out.append(v)
        return eng.own(SetV(out))

    b["set"] = TypeV("set", t_set)
    b["frozenset"] = TypeV("frozenset", t_set)

    def t_float(I2, a, k):
        if not a:
            return 0.0
        x = eng.res(a[0])
        if isinstance(x, OpNode):
            x = x.term()
        if type(x) in (int, float, bool, str):
            try:
                return float(x)
            except ValueError as e:
                I.raise_("ValueError", str(e))
        if isinstance(x, T) and x.ty == "float" and x.op != "nf":
            return x
        if x is None or isinstance(x, Obj):
            I.raise_("TypeError", "float() argument")
        return T("tofloat", (eng.canon(x),), "float")

    b["float"] = TypeV("float", t_float)
    b["bool"] = TypeV("bool", lambda I2, a, k: m.boolval(I, a[0]) if a else False)
    b["object"] = TypeV("object", lambda I2, a, k: eng.own(NS("object", {})))

    def t_type(I2, a, k):
        v = a[0]
        if isinstance(v, InstanceV):
            return v.cls
        if isinstance(v, ExcV):
            return v.cls
        n = m.type_name(v)
        if n in b:
            return b[n]
        if n == "NoneType":
            return b["NoneType_"]
        return NS("type", {"__name__": T("typename", (eng.canon(v) if isinstance(v, (T, Lin)) else id(v),), "str")})

    b["type"] = TypeV("type", t_type)
    b["NoneType_"] = TypeV("NoneType", lambda I2, a, k: None)
    b["memoryview"] = TypeV("memoryview", lambda I2, a, k: m.to_bytes_value(I, a[0]))
    b["slice"] = TypeV("slice", lambda I2, a, k: slice(*((a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None) if len(a) > 1 else (None, a[0], None))))

    # ---- functions
    @fn("len")
    def _(I2, a, k):
        return m.length(I, eng.res(a[0]))

    def as_int(x):
        x = eng.res(x)
        if isinstance(x, OpNode):
            x = x.term("int")
        i = m.to_int(x)
        if i is None and isinstance(x, T) and x.ty == "any":
            i = atom(x)
        if i is None:
            I.raise_("TypeError", "integer required")
        return i

    @fn("range")
    def _(I2, a, k):
        a = [as_int(x) for x in a]
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)

    @fn("enumerate")
    def _(I2, a, k):
        return IterV("enumerate", a[0], eng.res(a[1]) if len(a) > 1 else eng.res(k.get("start", 0)))

    @fn("zip")
    def _(I2, a, k):
        return IterV("zip", list(a))

    @fn("reversed")
    def _(I2, a, k):
        return IterV("reversed", a[0])

    @fn("map")
    def _(I2, a, k):
        return IterV("map", list(a[1:]), a[0])

    @fn("filter")
    def _(I2, a, k):
        l = m.to_list(I, a[1])
        if l is None:
            raise Undecided("filter")
        out = [x for x in l if I.truth(x if a[0] is None else I.call(a[0], [x], {}))]
        return eng.own(mklist(out))

    @fn("sorted")
    def _(I2, a, k):
        l = m.to_list(I, a[0])
        if l is None:
            if isinstance(a[0], ListV) or isinstance(a[0], (IterV, DictV)):
                return eng.own(ListV([("r", "sorted", atom(eng.fresh("cnt", "int")), [("i", eng.fresh("unk", "any", "sorted element"))])]))
            raise Undecided("sorted")
        key = k.get("key")
        ks = [I.call(key, [x], {}) if key is not None else x for x in l]
        if all(m.is_const(x) for x in ks):
            z = sorted(range(len(l)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
            return eng.own(mklist([l[i] for i in z]))
        if len(l) <= 1:
            return eng.own(mklist(l))
        raise Undecided("sorted with symbolic keys")

    def minmax(name, f):
        def g(I2, a, k):
            l = a if len(a) > 1 else m.to_list(I, a[0])
            if l is None:
                t = ords_of(I, a[0])
                if t is not None and name == "max":
                    if I.truth(I.compare("Eq", t, "")):
                        if "default" in k:
                            return k["default"]
                        I.raise_("ValueError", "max() of an empty sequence")
                    isa = eng.force(I.call(I.getattr(t, "isascii"), [], {}))
                    x = atom(eng.fresh("maxord", "int"))
                    lo, hi = (0, 127) if isa else (128, 0x10FFFF)
                    eng.assume_cmp("<", sub(x, hi + 1), True)
                    eng.assume_cmp("<", sub(x, lo), False)
                    return x
                s = char_list(I, a[0])
                if s is not None and name == "max":
                    if I.truth(I.compare("Eq", s, "")):
                        if "default" in k:
                            return k["default"]
                        I.raise_("ValueError", "max() of an empty sequence")
                    isa = eng.force(I.call(I.getattr(s, "isascii"), [], {}))
                    x = atom(T("maxord", (eng.canon(s),), "int"))
                    lo, hi = (0, 127) if isa else (128, 0x10FFFF)
                    eng.assume_cmp("<", sub(x, hi + 1), True)
                    eng.assume_cmp("<", sub(x, lo), False)
                    return T("chr", (eng.canon(x),), "str")
                raise Undecided(name)
            l = [eng.res(x) for x in l]
            if all(m.is_const(x) for x in l):
                return f(l)
            if len(l) == 2:
                x, y = as_int(l[0]), as_int(l[1])
                c = I.truth(m.cmp_t(I, "<=" if name == "min" else ">=", x, y))
                return x if c else y
            raise Undecided(name)

        b[name] = BuiltinV(name, g)

    minmax("min", min)
    minmax("max", max)

    @fn("abs")
    def _(I2, a, k):
        x = eng.res(a[0])
        if type(x) in (int, float, bool):
            return abs(x)
        i = m.to_int(x)
        if i is not None:
            if I.truth(m.cmp_t(I, "<", i, 0)):
                return neg(i)
            return i
        return T("fabs", (eng.canon(x),), "float")

    @fn("round")
    def _(I2, a, k):
        x = eng.res(a[0])
        if type(x) in (int, float):
            return round(x, *a[1:])
        if m.to_int(x) is not None:
            return x
        if len(a) == 1:
            return m.fold_small(I, atom(T("round", (eng.canon(x),), "int")))
        return T("round", (eng.canon(x), a[1]), "float")

    @fn("sum")
    def _(I2, a, k):
        l = m.to_list(I, a[0])
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        if l is None:
            v = a[0]
            if isinstance(v, ListV):
                # sum of a repetition: constant element or unknown
                for it in v.items:
                    if it[0] == "i":
                        acc = m.binop(I, "Add", acc, it[1])
                    elif it[0] == "r" and len(it[3]) == 1 and it[3][0][0] == "i" and is_int(it[3][0][1]):
                        e = eng.canon(it[3][0][1])
                        if type(e) is int:
                            acc = add(acc, mul(it[2], e))
                        else:
                            acc = add(acc, atom(T("sumof", (it[1], it[2], e), "int")))
                    else:
                        return atom(eng.fresh("unk", "int", "sum"))
                return acc
            raise Undecided("sum")
        for x in l:
            acc = m.binop(I, "Add", acc, x)
        return acc

    def anyall(name):
        def g(I2, a, k):
            v = a[0]
            if isinstance(v, LazyGen):
                from .interp import StopGen

                try:
                    v = m.force_gen(I, v, lambda x: I.truth(x) == (name == "any"))
                except StopGen:
                    return name == "any"
            l = m.to_list(I, v)
            if l is None:
                if isinstance(v, ListV):
                    r = generic_anyall(I, name, v)
                    return eng.fresh(name, "bool") if r is None else r
                raise Undecided(name)
            for x in l:
                t = I.truth(x)
                if name == "any" and t:
                    return True
                if name == "all" and not t:
                    return False
            return name == "all"

        b[name] = BuiltinV(name, g)

    anyall("any")
    anyall("all")

    @fn("isinstance")
    def _(I2, a, k):
        return m.isinstance_(I, eng.res(a[0]), a[1])

    @fn("issubclass")
    def _(I2, a, k):
        c, t = a
        ts = t.values() if isinstance(t, ListV) else [t]
        if isinstance(c, ClassV):
            return any(x in c.mro() for x in ts)
        if isinstance(c, ExcClassV):
            return any(getattr(x, "name", None) in m.exc_chain(c) for x in ts)
        return any(c is x for x in ts)

    @fn("getattr")
    def _(I2, a, k):
        n = eng.res(a[1])
        if not isinstance(n, str):
            n = eng.canon(n)
            cands = attr_candidates(I, a[0], n)
            if cands is None:
                raise Undecided("getattr with symbolic name %r" % (n,))
            n = cands
        if len(a) > 2:
            try:
                return I.getattr(a[0], n)
            except AbsRaise as e:
                if m.exc_isinstance(e.exc, "AttributeError"):
                    return a[2]
                raise
        return I.getattr(a[0], n)

    @fn("hasattr")
    def _(I2, a, k):
        try:
            I.getattr(a[0], eng.res(a[1]))
            return True
        except AbsRaise as e:
            if m.exc_isinstance(e.exc, "AttributeError"):
                return False
            raise

    @fn("setattr")
    def _(I2, a, k):
        n = eng.res(a[1])
        if not isinstance(n, str):
            raise Undecided("setattr with symbolic name")
        I.setattr(a[0], n, a[2])

    @fn("print")
    def _(I2, a, k):
        eng.event("print", args=list(a), kw=dict(k))

    @fn("input")
    def _(I2, a, k):
        ev = eng.event("input", prompt=a[0] if a else None)
        hook = I.config.get("input_hook")
        if hook is not None:
            ev["answer"] = hook(I, ev)
            return ev["answer"]
        return eng.fresh("input", "str")

    def do_exit(I2, a, k):
        eng.event("exit", code=a[0] if a else None)
        raise AbsExit(a[0] if a else None)

    b["exit"] = BuiltinV("exit", do_exit)
    b["quit"] = BuiltinV("exit", do_exit)

    @fn("open")
    def _(I2, a, k):
        path = eng.res(m.path_text(I, a[0]))
        mode = eng.res(a[1]) if len(a) > 1 else eng.res(k.get("mode", "r"))
        f = eng.own(FileV(eng.canon(path), mode, {"kw": {x: eng.res(y) for x, y in k.items()}}))
        eng.event("open", file=f, path=f.path, mode=mode, kw=f.info["kw"])
        hook = I.config.get("open_hook")
        if hook is not None:
            hook(I, f)
        return f

    @fn("hash")
    def _(I2, a, k):
        x = eng.res(a[0])
        if isinstance(x, InstanceV):
            f = x.cls.lookup("__hash__")
            if f is not None:
                return I.call(BoundV(f, x), [], {})
            if x.cls.dataclass is not None:
                return atom(T("hash", (tuple(eng.canon(v) if not isinstance(v, Obj) else id(v) for v in x.attrs.values()),), "int"))
            return atom(T("hash", (id(x),), "int"))
        if isinstance(x, (ListV, DictV)) and getattr(x, "kind", "") != "tuple":
            I.raise_("TypeError", "unhashable type")
        if isinstance(x, ListV):
            return atom(T("hash", (tuple(eng.canon(v) if not isinstance(v, Obj) else id(v) for v in x.values()),), "int"))
        if isinstance(x, PyUuid):
            return atom(T("hash", ("uuid", eng.canon(x.b)), "int"))
        return atom(T("hash", (eng.canon(x),), "int"))

    b["repr"] = BuiltinV("repr", lambda I2, a, k: m.repr_of(I, a[0]))
    b["ascii"] = b["repr"]
    b["format"] = BuiltinV("format", lambda I2, a, k: m.format_value(I, a[0], eng.res(a[1]) if len(a) > 1 else ""))
    b["callable"] = BuiltinV("callable", lambda I2, a, k: isinstance(a[0], (FuncV, BoundV, BuiltinV, TypeV, ClassV, ExcClassV, StaticV)))
    b["id"] = BuiltinV("id", lambda I2, a, k: id(a[0]) if isinstance(a[0], Obj) else atom(T("id", (eng.canon(a[0]),), "int")))

    def const_fn(name, f, ty):
        def g(I2, a, k):
            x = [eng.res(v) for v in a]
            if name == "ord" and isinstance(x[0], T) and x[0].op == "chr":
                return x[0].args[0]
            if all(m.is_const(v) for v in x):
                try:
                    return f(*x)
                except (TypeError, ValueError) as e:
                    I.raise_(type(e).__name__, str(e))
            t = T(name, tuple(eng.canon(v) if not isinstance(v, Obj) else id(v) for v in x), ty)
            return atom(t) if ty == "int" else t

        b[name] = BuiltinV(name, g)

    const_fn("bin", bin, "str")
    const_fn("hex", hex, "str")
    const_fn("oct", oct, "str")
    const_fn("ord", ord, "int")
    const_fn("chr", chr, "str")

    @fn("pow")
    def _(I2, a, k):
        return m.binop(I, "Pow", a[0], a[1])

    @fn("divmod")
    def _(I2, a, k):
        return eng.own(mklist([m.binop(I, "FloorDiv", a[0], a[1]), m.binop(I, "Mod", a[0], a[1])], "tuple"))

    @fn("iter")
    def _(I2, a, k):
        if len(a) == 2:
            return eng.own(IterV("callsent", (a[0], a[1])))
        if isinstance(a[0], LazyGen):
            return a[0]
        l = m.to_list(I, a[0])
        if l is None:
            return a[0]
        n = eng.own(NS("iterator", {}))
        n.items = l
        n.at = 0
        return n

    @fn("next")
    def _(I2, a, k):
        x = a[0]
        if isinstance(x, LazyGen):
            from .interp import StopGen

            got = []
            try:
                x = m.force_gen(I, x, lambda v: got.append(v) or True)
                if a[0].moved:
                    raise Undecided("next() of a generator that moves a stream")
            except StopGen:
                return got[0]
        if isinstance(x, NS) and hasattr(x, "items"):
            if x.at < len(x.items):
                x.at += 1
                return x.items[x.at - 1]
        elif isinstance(x, (ListV, IterV)):
            # next() of a fresh generator expression
            l = m.to_list(I, x)
            if l is None:
                raise Undecided("next of symbolic iterable")
            if l:
                return l[0]
        else:
            raise Undecided("next(%r)" % (x,))
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration")

    b["staticmethod"] = BuiltinV("staticmethod", lambda I2, a, k: eng.own(StaticV(a[0])))
    b["classmethod"] = BuiltinV("classmethod", lambda I2, a, k: eng.own(ClassMethodV(a[0])))
    b["property"] = BuiltinV("property", lambda I2, a, k: eng.own(PropertyV(a[0])))
    b["vars"] = BuiltinV("vars", lambda I2, a, k: I.getattr(a[0], "__dict__"))

    def _super(I2, a, k):
        if len(a) == 2:
            return m.super_proxy(I, a[1].cls if isinstance(a[1], InstanceV) else a[1], a[1], a[0].name)
        return m.make_super(I, I.stack[-1])

    b["super"] = BuiltinV("super", _super)
    b["globals"] = BuiltinV("globals", lambda I2, a, k: (_ for _ in ()).throw(Undecided("globals()")))
    return b


def generic_anyall(I, name, v):
    """any/all of a summarised sequence when every element is decided the same way."""
    vals = []

    def go(items):
        for it in items:
            if it[0] == "i":
                vals.append(it[1])
            elif it[0] == "r":
                go(it[3])
            else:
                vals.append(None)

    go(v.items)
    out = set()
    for x in vals:
        b = I.boolval(x) if x is not None else None
        if isinstance(b, T) and b.op == "cmp":
            d = I.eng.cmp_decide(b.args[0], b.args[1])
            b = d if d is not None else b
        out.add(b if type(b) is bool else None)
        if len(vals) == 1 and isinstance(b, T):
            r = ascii_test(I, name, b)
            if r is not None:
                return r
    if out == {True} and name == "all":
        return True
    if out == {False} and name == "any":
        return False
    return None


def char_source(t):
    """The string s when t is a generic character of s, or its code."""
    if isinstance(t, Lin):
        t = lin_atom(t)
    if isinstance(t, T) and t.op == "ord":
        t = t.args[0]
    if isinstance(t, T) and t.op == "char":
        return t.args[0]
    return None


def char_list(I, v):
    """s when v is s, a symbolic string, or yields its characters."""
    v = I.eng.res(v)
    if isinstance(v, T) and v.ty == "str":
        return v
    return None


def ords_of(I, v):
    """s when v yields ord(c) for every character c of s."""
    if isinstance(v, IterV) and v.kind == "map" and isinstance(v.extra, BuiltinV) and v.extra.name == "ord" and len(v.src) == 1:
        return v.src[0]
    if isinstance(v, ListV) and len(v.items) == 1 and v.items[0][0] == "r" and len(v.items[0][3]) == 1 and v.items[0][3][0][0] == "i":
        x = I.eng.canon(v.items[0][3][0][1])
        if isinstance(x, Lin) and isinstance(lin_atom(x), T) and lin_atom(x).op == "ord":
            return char_source(x)
    return None


def ascii_test(I, name, b):
    """all(code < 128) / any(code >= 128) over the characters of a string."""
    flip = False
    while isinstance(b, T) and b.op == "not":
        b, flip = b.args[0], not flip
    if isinstance(b, T) and b.op == "isascii" and char_source(b.args[0]) is not None:
        s, low = char_source(b.args[0]), not flip
    elif isinstance(b, T) and b.op == "cmp" and b.args[0] == "<":
        d = b.args[1]
        c, dd = as_lin(d)
        if len(dd) != 1:
            return None
        (a, k), = dd.items() if isinstance(dd, dict) else dd
        if not (isinstance(a, T) and a.op == "ord"):
            return None
        s = char_source(a)
        val = {x: (c + k * x < 0) is not flip for x in (0, 127, 128, 0x10FFFF)}
        if val == {0: True, 127: True, 128: False, 0x10FFFF: False}:
            low = True
        elif val == {0: False, 127: False, 128: True, 0x10FFFF: True}:
            low = False
        else:
            return None
    else:
        return None
    if s is None:
        return None
    isa = I.call(I.getattr(s, "isascii"), [], {})
    if name == "all" and low:
        return isa
    if name == "any" and not low:
        return T("not", (isa,), "bool") if isinstance(isa, T) else not isa
    return None


def attr_candidates(I, o, n):
    """Name for getattr(o, <symbolic>) when facts pin a finite domain."""
    eng = I.eng
    if isinstance(n, T):
        d = eng.dom.get(n)
        if d and d[0] == "in":
            ks = sorted(d[1])
            i = eng.choose(len(ks), "getattr name %r" % (n,))
            eng.assume_dom(n, "in", frozenset([ks[i]]))
            return ks[i]
    return None


# ------------------------------------------------------------------ modules


def make_external(I):
    return {}


class TypingDummy(NS):
    pass


def dummy(name):
    return TypingDummy("typing." + name, {})


NONDET = {
    "time.time": "float", "time.monotonic": "float", "time.perf_counter": "float", "time.process_time": "float", "time.time_ns": "int", "time.monotonic_ns": "int", "time.perf_counter_ns": "int", "time.ctime": "str", "time.strftime": "str",
    "random.random": "float", "random.uniform": "float", "random.randint": "int", "random.randrange": "int", "random.getrandbits": "int", "random.choice": "any", "random.sample": "any", "random.shuffle": "any",
    "os.urandom": "bytes", "os.getpid": "int", "uuid.uuid1": "any", "uuid.uuid4": "any", "secrets.token_bytes": "bytes", "secrets.token_hex": "str", "secrets.randbits": "int",
    "datetime.now": "any", "datetime.utcnow": "any", "datetime.today": "any", "date.today": "any",
}


def opaque_fn(I, name, ty="any"):
    def f(I2, a, k):
        I.eng.event("extcall", name=name, args=list(a), kw=dict(k))
        if name in NONDET:
            t = I.eng.fresh("nondet", NONDET[name], name)
            return atom(t) if NONDET[name] == "int" else t
        return I.eng.fresh("ext", ty, name)

    return BuiltinV(name, f)


KNOWN = {
    "io", "struct", "uuid", "math", "os", "os.path", "sys", "typing", "json", "base64", "zlib", "argparse", "copy",
    "functools", "itertools", "dataclasses", "collections", "collections.abc", "contextlib", "enum", "warnings", "logging",
    "pathlib", "re", "time", "tempfile", "shutil", "types", "operator", "traceback", "abc", "string", "numbers", "random", "datetime", "recordclass", "__future__", "glob", "binascii", "codecs", "gc", "hashlib", "textwrap", "typing_extensions", "importlib", "importlib.util",
}


def external_module(I, name):
    if name in I.ext:
        return I.ext[name]
    if name == "recordclass" and not I.config.get("recordclass"):
        return None
    if I.config.get("stdlib_only") and name.split(".")[0] in ("typing_extensions", "recordclass", "tomllib", "distutils", "imp"):
        return None
    import sys

    top = name.split(".")[0]
    if name not in KNOWN and top not in sys.stdlib_module_names:
        I.eng.event("third-party-import", name=name)
        return None
    m = ModuleV(name)
    m.external = True
    I.ext[name] = m
    build = BUILDERS.get(name)
    if build is not None:
        build(I, m.attrs)
    return m


def external_attr(I, m, name):
    if not m.external:
        return None
    if name in m.attrs:
        return m.attrs[name]
    if m.name in ("typing", "collections.abc", "types", "__future__", "typing_extensions"):
        v = dummy(name)
        m.attrs[name] = v
        return v
    full = m.name + "." + name
    if full in KNOWN:
        return external_module(I, full)
    v = opaque_fn(I, full)
    m.attrs[name] = v
    return v


def b_io(I, A):
    eng = I.eng

    def bytesio(I2, a, k):
        m = M()
        x = a[0] if a else k.get("initial_bytes")
        if x is None:
            st = StreamV()
            st.writer = True
        else:
            x = m.to_bytes_value(I, x)
            st = StreamV(eng.segs_of(x))
            st.writer = len(st.segs) == 0
            st.short = getattr(eng, "short_mode", False)
        return eng.own(st)

    A["BytesIO"] = TypeV("BytesIO", bytesio)
    A["SEEK_SET"], A["SEEK_CUR"], A["SEEK_END"] = 0, 1, 2
    A["open"] = I.builtins["open"]


def b_struct(I, A):
    m = M()
    eng = I.eng
    A["pack"] = B("struct.pack", lambda I2, a, k: m.struct_pack(I, a[0], a[1:]))
    A["unpack"] = B("struct.unpack", lambda I2, a, k: m.struct_unpack(I, a[0], a[1]))

    def unpack_from(I2, a, k):
        off = a[2] if len(a) > 2 else k.get("offset", 0)
        fields, total = m.parse_fmt(I, eng.res(a[0]))
        if fields is None:
            raise Undecided("unpack_from")
        buf = m.to_bytes_value(I, a[1])
        if eng.force(T("cmp", ("<", eng.canon(sub(eng.segs_len(eng.segs_of(buf)), add(off, total)))), "bool")):
            m.struct_error(I, "unpack_from requires a larger buffer")
        v = eng.slice_bytes(buf, off, add(off, total))
        if v is None:
            raise Undecided("unpack_from")
        return m.struct_unpack(I, a[0], v)

    A["unpack_from"] = B("struct.unpack_from", unpack_from)

    def calcsize(I2, a, k):
        fields, total = m.parse_fmt(I, eng.res(a[0]))
        if fields is None:
            raise Undecided("calcsize")
        return total

    A["calcsize"] = B("struct.calcsize", calcsize)
    A["error"] = ExcClassV("error", "Exception")

    def struct_cls(I2, a, k):
        fmt = eng.res(a[0])
        fields, total = m.parse_fmt(I, fmt)
        return eng.own(
            NS(
                "Struct",
                {
                    "pack": B("Struct.pack", lambda I3, x, kk: m.struct_pack(I, fmt, x)),
                    "unpack": B("Struct.unpack", lambda I3, x, kk: m.struct_unpack(I, fmt, x[0])),
                    "size": total,
                    "format": fmt,
                    "unpack_from": B("Struct.unpack_from", lambda I3, x, kk: unpack_from(I3, [fmt] + list(x), kk)),
                },
            )
        )

    A["Struct"] = TypeV("Struct", struct_cls)


def b_uuid(I, A):
    m = M()
    A["UUID"] = TypeV("uuid.UUID", lambda I2, a, k: m.uuid_ctor(I, a, k))


def b_math(I, A):
    m = M()
    eng = I.eng
    A.update(nan=_math.nan, inf=_math.inf, pi=_math.pi, e=_math.e)

    def cls_fn(name, f, classes):
        def g(I2, a, k):
            x = eng.res(a[0])
            if isinstance(x, OpNode):
                x = x.term("float")
            if type(x) in (int, float, bool):
                return f(x)
            if m.to_int(x) is not None:
                return f(0)
            if x is None or isinstance(x, (str, bytes, BytesV, Obj)):
                I.raise_("TypeError", "must be real number")
            return m.fclass(I, x, classes)

        A[name] = B("math." + name, g)

    cls_fn("isnan", _math.isnan, ("nan",))
    cls_fn("isinf", _math.isinf, ("inf", "-inf"))
    cls_fn("isfinite", _math.isfinite, ("finite",))

    def gen(name):
        f = getattr(_math, name)

        def g(I2, a, k):
            x = [eng.res(v) for v in a]
            if all(type(v) in (int, float, bool) for v in x):
                try:
                    return f(*x)
                except ValueError as e:
                    I.raise_("ValueError", str(e))
            ty = "int" if name in ("floor", "ceil", "trunc", "gcd", "isqrt") else "float"
            t = T("math." + name, tuple(eng.canon(v.term() if isinstance(v, OpNode) else v) for v in x), ty)
            return m.fold_small(I, atom(t)) if ty == "int" else t

        A[name] = B("math." + name, g)

    for n in ("floor", "ceil", "trunc", "sqrt", "log", "log2", "log10", "pow", "fabs", "copysign", "gcd", "exp", "fmod", "ldexp", "sin", "cos"):
        gen(n)


def b_os(I, A):
    eng = I.eng
    env = I.config.get("env", {})

    def getenv(I2, a, k):
        n = eng.res(a[0])
        eng.event("getenv", name=n)
        d = a[1] if len(a) > 1 else k.get("default")
        if isinstance(n, str) and n in env:
            return env[n]
        return d

    A["getenv"] = B("os.getenv", getenv)
    d = DictV()
    for kk, v in env.items():
        d.set(kk, v)
    d.gen0 = True
    A["environ"] = d
    A["path"] = external_module(I, "os.path")
    A["linesep"] = "\n"
    A["sep"] = "/"
    A["name"] = "posix"

    def eff(name):
        def f(I2, a, k):
            eng.event("fs-effect", name="os." + name, args=[eng.canon(eng.res(x)) for x in a])
            return None

        A[name] = B("os." + name, f)

    for n in ("remove", "unlink", "rename", "replace", "rmdir", "mkdir", "makedirs", "truncate", "chmod", "link", "symlink", "utime", "fsync"):
        eff(n)
    A["_exit"] = B("os._exit", lambda I2, a, k: I.builtins["exit"].fn(I2, a, k))
    A["getcwd"] = B("os.getcwd", lambda I2, a, k: T("cwd", (), "str"))


def path_pred(eng, name, p):
    """Existence predicates, consistent with each other."""
    ex, fi = T("p:exists", (p,), "bool"), T("p:isfile", (p,), "bool")
    if name in ("exists", "lexists"):
        return True if eng.bools.get(fi) is True else ex
    if name == "isfile":
        return False if eng.bools.get(ex) is False else fi
    if name == "isdir":
        if eng.bools.get(ex) is False or eng.bools.get(fi) is True:
            return False
        if eng.bools.get(ex) is True and fi in eng.bools:
            return True
    return T("p:" + name, (p,), "bool")


def b_ospath(I, A):
    m = M()
    eng = I.eng

    def pred(name):
        def f(I2, a, k):
            p = eng.canon(eng.res(m.path_text(I, a[0])))
            eng.event("path-test", name=name, path=p)
            return path_pred(eng, name, p)

        A[name] = B("os.path." + name, f)

    for n in ("exists", "isfile", "isdir", "islink", "lexists"):
        pred(n)

    def splitext(I2, a, k):
        p = eng.canon(eng.res(m.path_text(I, a[0])))
        if isinstance(p, str):
            import os.path as op

            return eng.own(mklist(list(op.splitext(p)), "tuple"))
        if isinstance(p, T) and p.op == "cat" and isinstance(p.args[-1], str) and "." in p.args[-1] and "/" not in p.args[-1]:
            last = p.args[-1]
            i = last.rindex(".")
            return eng.own(mklist([scat(*(list(p.args[:-1]) + [last[:i]])), last[i:]], "tuple"))
        # canonical split: stem + ext
        ext = T("extof", (p,), "str")
        return eng.own(mklist([T("stemof", (p,), "str"), ext], "tuple"))

    A["splitext"] = B("os.path.splitext", splitext)
    for n in ("basename", "dirname", "abspath", "realpath", "normpath", "expanduser"):
        def pf(I2, a, k, n=n):
            import posixpath

            x = eng.canon(eng.res(m.path_text(I, a[0])))
            if isinstance(x, str) and n in ("basename", "dirname", "normpath"):
                return getattr(posixpath, n)(x)
            return T(n, (x,), "str")

        A[n] = B("os.path." + n, pf)

    def join(I2, a, k):
        out = []
        for i, x in enumerate(a):
            if i:
                out.append("/")
            out.append(eng.res(m.path_text(I, x)))
        return scat(*out)

    A["join"] = B("os.path.join", join)
    A["getsize"] = B("os.path.getsize", lambda I2, a, k: atom(T("fsize", (eng.canon(eng.res(a[0])),), "int")))
    A["samefile"] = B("os.path.samefile", lambda I2, a, k: T("samefile", tuple(eng.canon(eng.res(x)) for x in a), "bool"))


def b_sys(I, A):
    eng = I.eng
    A["exit"] = I.builtins["exit"]
    mods = DictV()
    for n in list(KNOWN) + (["recordclass"] if I.config.get("recordclass") else []):
        if n == "recordclass" and not I.config.get("recordclass"):
            continue
        mods.set(n, None)
    mods.gen0 = True
    A["modules"] = mods
    A["argv"] = I.config.get("argv") or eng.own(mklist(["prog"]))
    A["byteorder"] = "little"
    A["maxsize"] = (1 << 63) - 1
    A["version_info"] = mklist([3, 9, 0], "tuple")
    A["platform"] = "linux"
    A["stderr"] = NS("stderr", {"write": B("stderr.write", lambda I2, a, k: None), "flush": B("flush", lambda I2, a, k: None)})
    A["stdout"] = NS("stdout", {"write": B("stdout.write", lambda I2, a, k: eng.event("print", args=list(a), kw={}) and None), "flush": B("flush", lambda I2, a, k: None)})
    A["intern"] = B("sys.intern", lambda I2, a, k: a[0])
    A["setrecursionlimit"] = B("srl", lambda I2, a, k: None)


def b_typing(I, A):
    for n in ("Any", "Callable", "Optional", "Sequence", "Union", "Dict", "List", "Tuple", "TypedDict", "Literal", "Iterable", "Mapping", "NamedTuple", "Generic", "Protocol"):
        A[n] = dummy(n)
    A["TYPE_CHECKING"] = False
    A["cast"] = B("typing.cast", lambda I2, a, k: a[1])
    A["TypeVar"] = B("typing.TypeVar", lambda I2, a, k: dummy("TypeVar"))
    A["NewType"] = B("typing.NewType", lambda I2, a, k: B("NewType", lambda I3, x, kk: x[0]))
    A["overload"] = B("typing.overload", lambda I2, a, k: a[0])


def b_json(I, A):
    m = M()
    eng = I.eng

    def enc_default(I2, a, k):
        I.raise_("TypeError", "Object of type %s is not JSON serializable" % (m.type_name(a[1]) or type(a[1]).__name__))

    d = B("JSONEncoder.default", enc_default)

    NAMES = ("skipkeys", "ensure_ascii", "check_circular", "allow_nan", "sort_keys", "indent", "separators", "default")

    def enc_init(I2, a, k):
        if len(a) > 1:
            I.raise_("TypeError", "JSONEncoder.__init__() takes 1 positional argument")
        for x in k:
            if x not in NAMES:
                I.raise_("TypeError", "JSONEncoder.__init__() got an unexpected keyword argument %r" % x)
        a[0].attrs["__json_kw__"] = dict(k)

    def enc_text(I2, a, k):
        o, obj = a[0], a[1]
        if isinstance(o, InstanceV):
            kw = o.attrs.get("__json_kw__")
            if kw is None:
                kw = o.attrs.get("__ctor__", ([], {}))[1]
            kw = dict(kw, cls=o.cls)
        else:
            kw = dict(o.kw)
        return A["dumps"].fn(I2, [obj], kw)

    def enc_iter(I2, a, k):
        # the text in some number of pieces: written one after another they make the text
        return eng.own(mklist([enc_text(I2, a, k)]))

    enc = {"default": d, "__init__": B("JSONEncoder.__init__", enc_init), "encode": B("JSONEncoder.encode", enc_text), "iterencode": B("JSONEncoder.iterencode", enc_iter)}

    def enc_new(I2, a, k):
        o = eng.own(NS("JSONEncoder", {}))
        o.kw = dict(k)
        o.attrs.update({n: B(n, lambda I3, b, kk, f=f: f.fn(I3, [o] + list(b), kk)) for n, f in enc.items() if n != "__init__"})
        return o

    A["JSONEncoder"] = TypeV("JSONEncoder", enc_new, enc)
    A["JSONDecodeError"] = ExcClassV("JSONDecodeError", "ValueError")

    def dumpish(name):
        def f(I2, a, k):
            obj = a[0]
            hook = I.config.get("json_hook")
            ev = eng.event("json-" + name, obj=obj, file=a[1] if name == "dump" else None, kw={x: (eng.res(y) if not isinstance(y, Obj) else y) for x, y in k.items()})
            if hook is not None:
                return hook(I, name, obj, a[1] if name == "dump" else None, k, ev)
            cls = k.get("cls")
            r = m.json_roundtrip(I, obj, cls, default=k.get("default"))
            ev["copy"] = r
            if name == "dump":
                return None
            t = T("jsontext", (len(eng.events),), "str")
            eng.__dict__.setdefault("jsontexts", {})[t] = r
            return t

        A[name] = B("json." + name, f)

    dumpish("dump")
    dumpish("dumps")

    def load(I2, a, k):
        ev = eng.event("json-load", file=a[0], kw={x: (eng.res(y) if not isinstance(y, Obj) else y) for x, y in k.items()})
        hook = I.config.get("json_load_hook")
        if hook is not None:
            return hook(I, a[0], k, ev)
        return T("jsonof", (eng.canon(a[0].path) if isinstance(a[0], FileV) else eng.canon(a[0]) if isinstance(a[0], (T, str)) else id(a[0]),))

    def loads(I2, a, k):
        jt = eng.__dict__.get("jsontexts", {})
        x = eng.res(a[0])
        if isinstance(x, T) and x in jt:
            return m.copy_value(I, jt[x], False, {})
        if isinstance(x, T) and x.op == "filetext":
            hook = I.config.get("json_load_hook")
            ev = eng.event("json-load", file=None, kw={})
            if hook is not None:
                return hook(I, x, k, ev)
        return T("jsonof", (eng.canon(x) if isinstance(x, (T, str)) else id(x),))

    A["load"] = B("json.load", load)
    A["loads"] = B("json.loads", loads)


def b_base64(I, A):
    m = M()
    eng = I.eng

    def enc(alpha):
        def f(I2, a, k):
            v = eng.canon(m.to_bytes_value(I, a[0]))
            if isinstance(v, bytes) and alpha == "std":
                return _b64.b64encode(v)
            return BytesV([TB(T("b64", (alpha, v), "bytes"))])

        return f

    def dec(alpha):
        def f(I2, a, k):
            x = eng.res(a[0])
            if isinstance(x, OpNode):
                x = x.term("str")
            x = eng.canon(x)
            if isinstance(x, (str, bytes)):
                try:
                    return _b64.b64decode(x)
                except Exception:
                    I.raise_("ValueError", "Invalid base64")
            if isinstance(x, T) and x.op == "b64s" and x.args[0] == alpha:
                return x.args[1]
            if isinstance(x, T) and x.op == "decode":
                inner = x.args[2]
                if isinstance(inner, BytesV):
                    x = inner
            if isinstance(x, BytesV) and len(x.segs) == 1 and isinstance(x.segs[0], TB) and x.segs[0].term.op == "b64":
                t = x.segs[0].term
                if t.args[0] == alpha:
                    return t.args[1]
            if isinstance(x, T) and x.ty in ("str", "any") or isinstance(x, BytesV):
                return BytesV([TB(T("unb64", (alpha, x), "bytes"))])
            I.raise_("TypeError", "argument should be a bytes-like object or ASCII string")

        return f

    A["b64encode"] = B("b64encode", enc("std"))
    A["b64decode"] = B("b64decode", dec("std"))
    A["standard_b64encode"] = B("b64encode", enc("std"))
    A["standard_b64decode"] = B("b64decode", dec("std"))
    A["urlsafe_b64encode"] = B("ub64encode", enc("url"))
    A["urlsafe_b64decode"] = B("ub64decode", dec("url"))
    A["b16encode"] = B("b16encode", enc("b16"))
    A["b16decode"] = B("b16decode", dec("b16"))
    A["b32encode"] = B("b32encode", enc("b32"))
    A["b32decode"] = B("b32decode", dec("b32"))
    A["b85encode"] = B("b85encode", enc("b85"))
    A["b85decode"] = B("b85decode", dec("b85"))


def b_zlib(I, A):
    m = M()
    eng = I.eng
    A["error"] = ExcClassV("zlib.error", "Exception")

    def comp(I2, a, k):
        v = eng.canon(m.to_bytes_value(I, a[0]))
        wb = eng.res(k.get("wbits", a[2] if len(a) > 2 else 15))
        eng.event("zlib", what="compress", level=eng.res(a[1]) if len(a) > 1 else eng.res(k.get("level", -1)), wbits=wb)
        return BytesV([TB(T("z", (wb, v), "bytes"))])

    def deco(I2, a, k):
        v = eng.canon(m.to_bytes_value(I, a[0]))
        wb = eng.res(k.get("wbits", a[1] if len(a) > 1 else 15))
        eng.event("zlib", what="decompress", wbits=wb, data=v)
        if isinstance(v, BytesV) and len(v.segs) == 1 and isinstance(v.segs[0], TB) and v.segs[0].term.op == "z" and v.segs[0].term.args[0] == wb:
            return v.segs[0].term.args[1]
        if isinstance(v, bytes):
            try:
                return _zlib.decompress(v, wb)
            except _zlib.error:
                raise AbsRaise(ExcV(A["error"], ["corrupt"], I.site(), True))
        ok = T("unzok", (wb, v), "bool")
        if eng.bools.get(ok) is not True and I.config.get("zlib_may_fail", True):
            if not eng.force(ok):
                raise AbsRaise(ExcV(A["error"], ["corrupt stream"], I.site(), True))
        names = eng.__dict__.setdefault("unz_names", {})
        n = names.setdefault((wb, v), "unz%d" % len(names))
        ln = T("len", (n,), "int")
        eng.order.setdefault(ln, len(eng.order))
        eng.nonneg(atom(ln))
        return BytesV([Sub(n, 0, atom(ln))])

    A["compress"] = B("zlib.compress", comp)
    A["decompress"] = B("zlib.decompress", deco)
    A["Z_DEFAULT_COMPRESSION"] = -1
    A["Z_BEST_SPEED"] = 1
    A["Z_BEST_COMPRESSION"] = 9
    A["MAX_WBITS"] = 15

    def crc(I2, a, k):
        return atom(T("crc", (eng.canon(m.to_bytes_value(I, a[0])),), "int"))

    A["crc32"] = B("zlib.crc32", crc)
    A["adler32"] = B("zlib.adler32", crc)

    def obj(kind):
        def mk(I2, a, k):
            wb = eng.res(k.get("wbits", 15))
            if kind == "d" and a:
                wb = eng.res(a[0])
            st = eng.own(NS("zlib" + kind, {"unused_data": b"", "eof": False, "unconsumed_tail": b""}))
            st.buf = []

            def feed(I3, x, kk):
                if kind == "c":
                    st.buf += eng.segs_of(m.to_bytes_value(I, x[0]))
                    return b""
                if len(x) > 1 and eng.res(x[1]) != 0 or "max_length" in kk and eng.res(kk["max_length"]) != 0:
                    raise Undecided("partial decompression")
                if st.buf:
                    raise Undecided("decompression in several steps")
                st.buf.append(1)
                v = eng.canon(m.to_bytes_value(I, x[0]))
                if isinstance(v, bytes):
                    d = _zlib.decompressobj(wb)
                    try:
                        r = d.decompress(v)
                    except _zlib.error:
                        raise AbsRaise(ExcV(A["error"], ["corrupt"], I.site(), True))
                    st.attrs["eof"], st.attrs["unused_data"] = d.eof, d.unused_data
                    return r
                whole = isinstance(v, BytesV) and len(v.segs) == 1 and isinstance(v.segs[0], TB) and v.segs[0].term.op == "z" and v.segs[0].term.args[0] == wb
                ok = T("unzok", (wb, v), "bool")
                if not whole and I.config.get("zlib_may_fail", True) and eng.bools.get(ok) is not True and not eng.force(ok):
                    # a stream that is cut short is no error for a decompression object
                    if eng.choose(2, "stream cut short / corrupt"):
                        raise AbsRaise(ExcV(A["error"], ["corrupt stream"], I.site(), True))
                    eng.event("zlib", what="decompress", wbits=wb, data=v)
                    names = eng.__dict__.setdefault("unz_names", {})
                    n = names.setdefault((wb, v), "unz%d" % len(names))
                    ln = T("len", (n,), "int")
                    eng.order.setdefault(ln, len(eng.order))
                    eng.nonneg(atom(ln))
                    st.attrs["eof"], st.attrs["unused_data"] = False, b""
                    return BytesV([Sub(n, 0, atom(ln))])
                r = deco(I3, [v, wb], {})
                st.attrs["eof"], st.attrs["unused_data"] = True, b""
                return r

            def flush(I3, x, kk):
                if kind == "c":
                    return comp(I3, [eng.mkbytes(st.buf)], {"wbits": wb})
                return b""

            st.attrs["compress" if kind == "c" else "decompress"] = B("feed", feed)
            st.attrs["flush"] = B("flush", flush)
            return st

        return mk

    A["compressobj"] = B("zlib.compressobj", obj("c"))
    A["decompressobj"] = B("zlib.decompressobj", obj("d"))


def b_argparse(I, A):
    eng = I.eng
    m = M()

    def parser(I2, a, k):
        p = eng.own(NS("ArgumentParser", {}))
        p.opts = []

        def add_argument(I3, x, kk):
            x = [eng.res(v) for v in x]
            kk = {n: (eng.res(v) if not isinstance(v, Obj) else v) for n, v in kk.items()}
            p.opts.append((x, kk))
            return eng.own(NS("Action", {"dest": kk.get("dest", x[0].lstrip("-").replace("-", "_"))}))

        def parse_args(I3, x, kk):
            vals = I.config.get("args", {})
            ns = eng.own(NS("args", {}))
            npos = 0
            ev = eng.event("parse_args", opts=p.opts)
            ev["chosen"] = {}
            for names, o in p.opts:
                flag = names[0].startswith("-")
                longn = next((n for n in names if n.startswith("--")), names[0])
                dest = o.get("dest") or longn.lstrip("-").replace("-", "_")
                act = o.get("action", "store")
                if flag and act in ("store_true", "store_false"):
                    given = vals.get(longn, [False])
                    if callable(given):
                        v = given(I)
                    else:
                        v = given[eng.choose(len(given), "option %s" % longn)]
                    ev["chosen"][longn] = v
                    ns.attrs[dest] = v if act == "store_true" else (not v if type(v) is bool else I.not_(v))
                    continue
                if act in ("help", "version"):
                    continue
                if act != "store":
                    raise Undecided("argparse action %r" % (act,))
                key = longn if flag else "#%d" % npos
                if not flag:
                    npos += 1
                alts = vals.get(key, [None] if flag else [T("arg", (key,), "str")])
                v = alts[eng.choose(len(alts), "argument %s" % key)]
                ev["chosen"][key] = v
                ty = o.get("type")
                if v is None:
                    v = o.get("default")
                    if isinstance(v, (str, T)) and ty is not None:
                        v = I.call(ty, [v], {})
                elif ty is not None:
                    v = I.call(ty, [v], {})
                ns.attrs[dest] = v
            return ns

        def err(I3, x, kk):
            eng.event("exit", code=2)
            raise AbsExit(2)

        def group(I3, x, kk):
            return p

        p.attrs.update(
            add_argument=B("add_argument", add_argument),
            parse_args=B("parse_args", parse_args),
            error=B("parser.error", err),
            print_help=B("print_help", lambda I3, x, kk: eng.event("print", args=[], kw={}) and None),
            print_usage=B("print_usage", lambda I3, x, kk: eng.event("print", args=[], kw={}) and None),
            add_mutually_exclusive_group=B("group", group),
            add_argument_group=B("group", group),
            set_defaults=B("set_defaults", lambda I3, x, kk: (_ for _ in ()).throw(Undecided("set_defaults"))),
            exit=B("parser.exit", lambda I3, x, kk: I.builtins["exit"].fn(I3, x, kk)),
        )
        return p

    A["ArgumentParser"] = TypeV("ArgumentParser", parser)
    A["ArgumentDefaultsHelpFormatter"] = dummy("formatter")
    A["RawTextHelpFormatter"] = dummy("formatter")


def b_copy(I, A):
    m = M()
    eng = I.eng

    def shallow(I2, a, k):
        v = a[0]
        if isinstance(v, ListV):
            return eng.own(ListV(list(v.items), v.kind))
        if isinstance(v, DictV):
            d = eng.own(DictV())
            m.dict_update(I, d, v)
            return d
        if isinstance(v, OpNode):
            n = eng.own(OpNode(v.root, v.path, v.info))
            n.kids, n.overlay, n.deleted = dict(v.kids), dict(v.overlay), set(v.deleted)
            return n
        if isinstance(v, InstanceV):
            n = eng.own(InstanceV(v.cls))
            n.attrs = dict(v.attrs)
            return n
        return v

    A["copy"] = B("copy.copy", shallow)
    A["deepcopy"] = B("copy.deepcopy", lambda I2, a, k: m.copy_value(I, a[0], False, {}))


def b_functools(I, A):
    eng = I.eng

    def partial(I2, a, k):
        f, x, kk = a[0], list(a[1:]), dict(k)
        return eng.own(B("partial", lambda I3, y, k2: I.call(f, x + list(y), {**kk, **k2})))

    A["partial"] = B("functools.partial", partial)

    def cached(f):
        eng.event("memoised", fn=f)

        def call(I3, x, kk):
            r = I.call(f, list(x), kk)
            vals = list(x) + list(kk.values())
            if any(isinstance(v, InstanceV) and any(isinstance(y, StreamV) for y in v.attrs.values()) for v in vals):
                eng.event("memoised-state", fn=f, what="called with a reader or writer whose position it depends on")
            v = eng.res(r) if not isinstance(r, Obj) else r
            if isinstance(v, (DictV, ByteArrV, StreamV, SetV)) or isinstance(v, ListV) and v.kind != "tuple":
                eng.event("memoised-state", fn=f, what="returns the same mutable object every time")
            return r

        w = B("cached " + getattr(f, "name", "function"), call)
        w.binds = True
        w.attrs = {"cache_clear": B("cache_clear", lambda I3, x, kk: None), "__wrapped__": f}
        return w

    def cache(I2, a, k):
        if a and isinstance(a[0], (FuncV, BuiltinV, StaticV)):
            return cached(a[0])
        return B("cache", lambda I3, x, kk: cached(x[0]))

    A["lru_cache"] = B("functools.lru_cache", cache)
    A["cache"] = B("functools.cache", cache)
    A["wraps"] = B("functools.wraps", lambda I2, a, k: B("wraps", lambda I3, x, kk: x[0]))

    def reduce(I2, a, k):
        l = M().to_list(I, a[1])
        if l is None:
            raise Undecided("reduce")
        l = list(l)
        acc = a[2] if len(a) > 2 else l.pop(0)
        for x in l:
            acc = I.call(a[0], [acc, x], {})
        return acc

    A["reduce"] = B("functools.reduce", reduce)


def b_itertools(I, A):
    m = M()
    eng = I.eng

    def chain(I2, a, k):
        out = []
        for x in a:
            out.extend(m.seq_items(I, x))
        return eng.own(ListV(out))

    A["chain"] = B("itertools.chain", chain)
    A["repeat"] = B("itertools.repeat", lambda I2, a, k: IterV("map", [RangeV(0, a[1], 1)], B("const", lambda I3, x, kk: a[0])))


def b_dataclasses(I, A):
    eng = I.eng

    def mark(c):
        names = list(c.attrs["__annotations__"].d) if "__annotations__" in c.attrs else []
        c.dataclass = [(n, c.attrs.get(n, MISSING)) for n in names]
        return c

    def dc(I2, a, k):
        if a:
            return mark(a[0])
        return B("dataclass", lambda I3, x, kk: mark(x[0]))

    A["dataclass"] = B("dataclasses.dataclass", dc)
    A["field"] = B("dataclasses.field", lambda I2, a, k: k.get("default", I.call(k["default_factory"], [], {}) if "default_factory" in k else MISSING))


def b_recordclass(I, A):
    b_dataclasses(I, A)
    dc = A["dataclass"]

    def mark(c):
        c.third = "recordclass"
        return c

    def as_dc(I2, a, k):
        r = I.call(dc, a, {})
        if a:
            return mark(r)
        return B("as_dataclass", lambda I3, x, kk: mark(I.call(r, x, {})))

    A["as_dataclass"] = B("recordclass.as_dataclass", as_dc)


def b_importlib(I, A):
    def imp(I2, a, k):
        if not isinstance(a[0], str) or a[0].startswith("."):
            raise Undecided("import_module")
        m = I.import_module(a[0])
        if m is None:
            I.raise_("ModuleNotFoundError", "No module named %r" % a[0])
        return m

    A["import_module"] = B("importlib.import_module", imp)


def b_importlib_util(I, A):
    def find(I2, a, k):
        if not isinstance(a[0], str):
            raise Undecided("find_spec")
        if I.src.path(a[0]) is None and external_module(I, a[0]) is None:
            return None
        return NS("spec", {"name": a[0]})

    A["find_spec"] = B("importlib.util.find_spec", find)


def eng_names(I, v):
    v = I.eng.res(v)
    if isinstance(v, str):
        return v.replace(",", " ").split()
    return [I.eng.res(x) for x in M().to_list(I, v)]


def b_collections(I, A):
    A["OrderedDict"] = I.builtins["dict"]
    A["abc"] = external_module(I, "collections.abc")

    def ddict(I2, a, k):
        raise Undecided("defaultdict")

    def ntuple(I2, a, k):
        names = eng_names(I, a[1])
        c = I.eng.own(ClassV(I.eng.res(a[0]), [], {}, I.stack[-1].module))
        dfl = M().to_list(I, k["defaults"]) if "defaults" in k else []
        c.namedtuple = [(n, dfl[i - len(names) + len(dfl)] if i >= len(names) - len(dfl) else MISSING) for i, n in enumerate(names)]
        return c

    A["namedtuple"] = B("collections.namedtuple", ntuple)
    A["defaultdict"] = B("defaultdict", ddict)
    A["deque"] = I.builtins["list"]


def b_contextlib(I, A):
    def suppress(I2, a, k):
        def ex(I3, x, kk):
            e = x[0]
            return e is not None and any(M().exc_isinstance(e, c) for c in a)

        I.eng.event("suppress", classes=[getattr(c, "name", "?") for c in a])
        return NS("suppress", {"__enter__": B("enter", lambda I3, x, kk: None), "__exit__": B("exit", ex)})

    A["suppress"] = B("contextlib.suppress", suppress)

    def ctxmgr(I2, a, k):
        f = a[0]
        if not (isinstance(f, FuncV) and f.is_gen):
            raise Undecided("contextmanager of %r" % (f,))
        w = B("contextmanager " + f.name, lambda I3, x, kk: I.eng.own(CtxGen(f, list(x), dict(kk))))
        w.binds = True
        return w

    A["contextmanager"] = B("contextlib.contextmanager", ctxmgr)

    def closing(I2, a, k):
        o = a[0]
        return NS("closing", {"__enter__": B("enter", lambda I3, x, kk: o), "__exit__": B("exit", lambda I3, x, kk: I.call(I.getattr(o, "close"), [], {}) and None)})

    A["closing"] = B("contextlib.closing", closing)
    A["nullcontext"] = B("contextlib.nullcontext", lambda I2, a, k: NS("null", {"__enter__": B("enter", lambda I3, x, kk: a[0] if a else None), "__exit__": B("exit", lambda I3, x, kk: None)}))


def b_enum(I, A):
    for n in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag", "auto"):
        A[n] = NS("enum." + n, {})
    A["auto"] = B("enum.auto", lambda I2, a, k: NS("enum.auto", {}))
    A["unique"] = B("enum.unique", lambda I2, a, k: a[0])


def b_pathlib(I, A):
    m = M()

    def path(I2, a, k):
        parts = [m.path_text(I, x) for x in a]
        if len(parts) == 1:
            return I.eng.own(PathV(I.eng.res(parts[0])))
        return I.eng.own(PathV(I.call(external_module(I, "os.path").attrs["join"], parts, {})))

    for n in ("Path", "PurePath", "PosixPath"):
        A[n] = TypeV("Path", path)


def b_operator(I, A):
    m = M()
    A["itemgetter"] = B("itemgetter", lambda I2, a, k: B("itemgetter", lambda I3, x, kk: m.getitem(I, x[0], a[0]) if len(a) == 1 else mklist([m.getitem(I, x[0], n) for n in a], "tuple")))
    A["attrgetter"] = B("attrgetter", lambda I2, a, k: B("attrgetter", lambda I3, x, kk: I.getattr(x[0], a[0])))
    A["methodcaller"] = B("methodcaller", lambda I2, a, k: B("methodcaller", lambda I3, x, kk: I.call(I.getattr(x[0], a[0]), list(a[1:]), dict(k))))


def b_datetime(I, A):
    for c in ("datetime", "date"):
        A[c] = NS(c, {n: opaque_fn(I, c + "." + n) for n in ("now", "utcnow", "today", "fromtimestamp", "strptime", "fromisoformat")})


def b_warnings(I, A):
    A["warn"] = B("warnings.warn", lambda I2, a, k: I.eng.event("print", args=list(a), kw={}) and None)


def b_logging(I, A):
    def lg(I2, a, k):
        e = lambda I3, x, kk: I.eng.event("print", args=list(x), kw={}) and None
        return NS("logger", {n: B("log", e) for n in ("debug", "info", "warning", "error", "exception", "critical", "log")})

    A["getLogger"] = B("logging.getLogger", lg)
    for n in ("debug", "info", "warning", "error", "exception", "critical"):
        A[n] = B("log", lambda I3, x, kk: I.eng.event("print", args=list(x), kw={}) and None)


def b_shutil(I, A):
    for n in ("copy", "copyfile", "copy2", "move", "rmtree", "copyfileobj", "copytree"):
        A[n] = B("shutil." + n, lambda I2, a, k, n=n: I.eng.event("fs-effect", name="shutil." + n, args=[I.eng.canon(I.eng.res(x)) for x in a]) and None)


BUILDERS = {
    "io": b_io,
    "struct": b_struct,
    "uuid": b_uuid,
    "math": b_math,
    "os": b_os,
    "os.path": b_ospath,
    "sys": b_sys,
    "typing": b_typing,
    "json": b_json,
    "base64": b_base64,
    "zlib": b_zlib,
    "argparse": b_argparse,
    "copy": b_copy,
    "functools": b_functools,
    "itertools": b_itertools,
    "dataclasses": b_dataclasses,
    "recordclass": b_recordclass,
    "importlib": b_importlib,
    "importlib.util": b_importlib_util,
    "collections": b_collections,
    "contextlib": b_contextlib,
    "enum": b_enum,
    "pathlib": b_pathlib,
    "operator": b_operator,
    "warnings": b_warnings,
    "datetime": b_datetime,
    "logging": b_logging,
    "shutil": b_shutil,
}
