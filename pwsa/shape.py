"""Wire/document shape of a decoded document: which JSON entry holds which input
field (kind, width, order on the wire) under which discriminator values."""

import functools

from .values import *
from .engine import *
from . import recon


class Leaf:
    __slots__ = ("kind", "blob", "pos", "con")

    def __init__(self, kind, blob=None, pos=None, con=None):
        self.kind, self.blob, self.pos, self.con = kind, blob, pos, con


def dom_of(eng, t):
    """None (free), ["=", v], ["in", ...], ["not", ...] or ["rng", lo, hi, excluded]."""
    if isinstance(t, Lin):
        c = eng.canon(t)
        if type(c) is int:
            return ["=", c]
        a = lin_atom(t)
        m = eng.dom.get(a) if a is not None else None
        if m and m[0] == "in":
            return ["in"] + sorted(m[1])
        if a is not None and a.op == "int":
            n = 8 * a.args[2]
            full = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if a.args[3] else (0, (1 << n) - 1)
            lo, hi = eng.bounds(t)
            ne = set()
            f = eng.iv.get(((a, 1),))
            if f:
                ne |= set(f[2])
            if m and m[0] == "notin":
                ne |= set(v for v in m[1] if type(v) is int)
            ne = [v for v in sorted(ne) if lo <= v <= hi]
            if (lo, hi) != full or ne:
                return ["rng", lo, hi, ne]
        return None
    c = eng.res(t)
    if isinstance(c, (str, int, float)):
        return ["=", c]
    m = eng.dom.get(eng.canon(t))
    if m and m[0] == "in":
        return ["in"] + sorted(m[1], key=str)
    if m and m[0] == "notin":
        return ["not"] + sorted(m[1], key=str)
    return None


def leaf(I, v):
    eng = I.eng
    if v is None or isinstance(v, (bool, int, float, str)):
        return Leaf("const", con=["=", v if v == v else "nan"])
    if isinstance(v, bytes):
        return Leaf("const", con=["=", v.hex()])
    if isinstance(v, Lin):
        a = lin_atom(v)
        if a is not None and a.op == "int":
            b, p, size, signed, endian = a.args
            return Leaf("%s%d%s" % ("i" if signed else "u", size, "" if endian == "<" else "be"), b, p, dom_of(eng, v))
        if a is not None and a.op == "op":
            return Leaf("doc:" + "/".join(map(str, a.args[1])), None, None, dom_of(eng, v))
        c = eng.canon(v)
        if type(c) is int:
            return Leaf("const", con=["=", c])
        return Leaf("expr")
    if isinstance(v, T):
        if v.op == "fstr":
            return Leaf("str", v.args[0], v.args[1], dom_of(eng, v))
        if v.op == "flt":
            return Leaf("f%d%s" % (v.args[2], "" if v.args[3] == "<" else "be"), v.args[0], v.args[1])
        if v.op == "pvc":
            return Leaf("packed%s[%d]" % (v.args[2], v.args[3]), v.args[0], v.args[1])
        if v.ty == "bool":
            s = recon.bool_source(eng, v)
            a = lin_atom(s) if isinstance(s, Lin) else None
            if a is not None and a.op == "int":
                return Leaf("bool%d" % a.args[2], a.args[0], a.args[1])
            r = eng.res(v)
            if type(r) is bool:
                return Leaf("const", con=["=", r])
            return Leaf("boolexpr")
        if v.op == "b64s" and isinstance(v.args[1], (BytesV, bytes)):
            return span(eng, eng.segs_of(v.args[1]), "base64-%s:" % v.args[0])
        if v.op in ("op",):
            return Leaf("doc:" + "/".join(map(str, v.args[1])), None, None, dom_of(eng, v))
        if v.op == "fop":
            at = set()

            def go(x):
                if isinstance(x, Lin):
                    for y, _ in x.t:
                        go(y)
                elif isinstance(x, T):
                    if x.op == "int":
                        at.add(x)
                    else:
                        for y in x.args:
                            go(y)

            go(v)
            if len(at) == 1:
                a = at.pop()
                return Leaf("scaled-u%d" % a.args[2], a.args[0], a.args[1])
        r = eng.res(v)
        if isinstance(r, (str, int, float)):
            return Leaf("const", con=["=", r])
        return Leaf("term:" + v.op)
    return None


def span(eng, segs, kind):
    segs = eng.norm_segs(segs)
    if len(segs) == 1 and isinstance(segs[0], Sub):
        s = segs[0]
        n = eng.canon(sub(s.b, s.a))
        return Leaf("%s%s" % (kind, n if type(n) is int else ""), s.blob, s.a)
    if not segs:
        return Leaf(kind + "0")
    return Leaf(kind + "?")


def collect(I, v, path, out, seen=0):
    """out: list of (path, Leaf); overlays of opaque documents included."""
    eng = I.eng
    if seen > 40:
        return
    if isinstance(v, LazyLoopVar):
        v = v.last
    if isinstance(v, DictV):
        if not v.order and path:
            out.append((path, Leaf("emptydict")))
        for o in v.order:
            if o[0] == "k":
                k = o[1]
                name = str(k) if not hasattr(k, "v") else "<key>"
                collect(I, v.d[k], path + (name,), out, seen + 1)
            else:
                lid, cnt, k, x = v.reps[o[1]]
                for lr in eng.looprec.get(lid, ())[:1]:
                    out.append((path + ("*",), Leaf("list", lr.blob, lr.start)))
                collect(I, k, path + ("<key>",), out, seen + 1)
                collect(I, x, path + ("<each>",), out, seen + 1)
        return
    if isinstance(v, ListV):
        tag = "()" if v.kind == "tuple" else "[]"
        if not v.items:
            out.append((path, Leaf("emptylist")))
        for i, it in enumerate(v.items):
            collect_item(I, it, path, i, out, seen)
        return
    if isinstance(v, (BytesV, ByteArrV)):
        out.append((path, span(eng, v.segs, "bytes")))
        return
    if isinstance(v, InstanceV):
        bs = [x for x in v.attrs.values() if isinstance(x, (BytesV, bytes))]
        if len(bs) == 1:
            out.append((path, span(eng, eng.segs_of(bs[0]), "guid:")))
        else:
            out.append((path, Leaf("object " + v.cls.name)))
        return
    if isinstance(v, OpNode):
        if v.info is not None:
            out.append((path, Leaf("properties", v.info["blob"], v.info["start"], ("path", v.info["path"]))))
        elif not v.overlay and not v.kids:
            out.append((path, Leaf("part-of-document")))
        for k in list(v.overlay):
            collect(I, v.overlay[k], path + ("~" + str(k),), out, seen + 1)
        for k, c in v.kids.items():
            if k not in v.overlay and (c.overlay or c.kids):
                collect(I, c, path + (str(k),), out, seen + 1)
        for k in v.deleted:
            out.append((path + (str(k),), Leaf("deleted")))
        return
    l = leaf(I, v)
    if l is not None:
        out.append((path, l))
    else:
        out.append((path, Leaf(type(v).__name__)))


def collect_item(I, it, path, i, out, seen):
    eng = I.eng
    if it[0] == "i":
        collect(I, it[1], path + (str(i),), out, seen + 1)
    elif it[0] == "b":
        segs = eng.norm_segs(eng.segs_of(it[1]))
        n = eng.canon(sub(segs[0].b, segs[0].a)) if len(segs) == 1 and isinstance(segs[0], Sub) else None
        if type(n) is int and n <= 64:
            # a run of known length is that many numbers, however the list was made
            for j in range(n):
                out.append((path + (str(i + j),), Leaf("u1", segs[0].blob, eng.canon(add(segs[0].a, j)))))
        else:
            out.append((path + (str(i),), span(eng, segs, "bytes")))
    else:
        for lr in eng.looprec.get(it[1], ())[:1]:
            out.append((path + ("*",), Leaf("list", lr.blob, lr.start)))
        for j, x in enumerate(it[3]):
            collect_item(I, x, path + ("*",), j, out, seen)


def frame(eng, l):
    """Fields of one generic iteration are ordered among themselves."""
    c, d = as_lin(eng.canon(l.pos))
    return (l.blob, tuple(sorted(str(t) for t in d if t.op in ("lp", "idx"))))


def ranks(eng, entries):
    """Order of the fields on the wire, per blob and loop iteration."""
    groups = {}
    for _, l in entries:
        if l.pos is not None:
            groups.setdefault(frame(eng, l), {})[eng.canon(l.pos)] = None
    read = {}
    for (b, p), n in eng.rorder.items():
        read.setdefault((b, eng.canon(p)), n)
    for (b, _), g in groups.items():

        def cmp(x, y):
            if x == y:
                return 0
            lo, hi = eng.bounds(sub(x, y))
            if lo is not None and lo >= 0:
                return 1
            if hi is not None and hi <= 0:
                return -1
            rx, ry = read.get((b, x)), read.get((b, y))
            if rx is not None and ry is not None:
                return -1 if rx < ry else 1
            return -1 if str(x) < str(y) else 1

        for i, p in enumerate(sorted(g, key=functools.cmp_to_key(cmp))):
            g[p] = i
    return groups


def blob_name(b):
    if b is None or not str(b).startswith("raw:"):
        return ""
    s = str(b)
    i = s.find("/")
    return s[i:] if i >= 0 else s


def show_path(eng, p, names):
    p = eng.canon(p)
    if isinstance(p, str):
        return repr(p)
    if isinstance(p, T) and p.op == "cat":
        out = ""
        for a in p.args:
            r = show_path(eng, a, names)
            out += r[1:-1]
        return repr(out)
    if isinstance(p, T) and p.op == "fstr":
        r = eng.res(p)
        if isinstance(r, str):
            return repr(r)
        return repr(names.get((p.args[0], eng.canon(p.args[1])), "{name}"))
    return repr("{?}")


def shapes(I, doc):
    """{blob name: sorted list of (path, kind, rank, constraint)} plus the context
    (constraints on discriminators that live in other parts of the document)."""
    eng = I.eng
    entries = []
    collect(I, doc, (), entries)
    g = ranks(eng, entries)
    names = {}
    for path, l in entries:
        if l.kind == "str" and l.pos is not None:
            names.setdefault((l.blob, eng.canon(l.pos)), "{%s}" % "/".join(path))
    for path, l in entries:
        if l.kind == "properties":
            l.kind, l.con = "properties of path " + show_path(eng, l.con[1], names), None
    by = {}
    anchor = {}
    for path, l in entries:
        # entries belong to the nearest enclosing decoded blob
        cut = [i for i, p in enumerate(path) if p.startswith("~")]
        b = "/".join(path[: cut[-1] + 1]) if cut else ""
        rel = path[cut[-1] + 1 :] if cut else path
        by.setdefault(b, []).append((rel, l))
    res = {}
    for b, es in by.items():
        # ranks renumbered within the group
        used = {}
        for rel, l in es:
            if l.pos is not None:
                f = frame(eng, l)
                used.setdefault(f, set()).add(g[f][eng.canon(l.pos)])
        order = {f: {r: i for i, r in enumerate(sorted(s))} for f, s in used.items()}

        def rank(l):
            if l.pos is None:
                return -1
            f = frame(eng, l)
            return order[f][g[f][eng.canon(l.pos)]]

        res[b] = sorted((["/".join(rel), l.kind, rank(l), l.con] for rel, l in es), key=lambda e: (e[0], e[1], e[2], str(e[3])))
    ctx = {}
    for t in list(eng.dom) + list(eng.subst):
        if isinstance(t, T) and t.op == "op":
            c = dom_of(eng, t)
            if c is not None:
                ctx["/".join(map(str, t.args[1]))] = c
    return res, ctx
