"""Contracts used in place of callee bodies (each contract is itself the subject
of another scenario in which the body is analysed)."""

from .values import *
from .engine import *
from . import models, recon

ARCH = "palworld_save_tools.archive"


def stream_of(inst):
    if isinstance(inst, InstanceV):
        for v in inst.attrs.values():
            if isinstance(v, StreamV):
                return v
    return None


def at(eng, st):
    """(blob, absolute position) under the stream's cursor, when it is input data."""
    eng._touch_stream(st)
    pos = eng.canon(st.pos)
    r = eng.split(st.segs, pos)
    if r is None or not r[1] or not isinstance(r[1][0], Sub):
        return None
    s = r[1][0]
    return s.blob, eng.canon(s.a)


def register(eng, blob, start, kind, t):
    eng.rorder.setdefault((blob, start), len(eng.rorder))
    l = eng.fields.setdefault((blob, start), [])
    if not any(k == kind and x == t for k, x, _ in l):
        l.append((kind, t, eng.cur_site()))


def advance(eng, st, n):
    st.pos = eng.canon(add(st.pos, n))
    eng.nonneg(sub(eng.segs_len(st.segs), st.pos))


def read_fstring(I, fn, args, kw):
    eng = I.eng
    st = stream_of(args[0])
    if st is None:
        return NotImplemented
    p = at(eng, st)
    if p is None:
        return NotImplemented
    eng.last_stream = st
    models.may_raise(I, "string read fails")
    blob, start = p
    t = T("fstr", (blob, start), "str")
    ln = T("fslen", (blob, start), "int")
    for x in (ln,):
        eng.order.setdefault(x, len(eng.order))
    register(eng, blob, start, "fstr", t)
    advance(eng, st, eng.canon(atom(ln)))
    return t


def enc_fstr(I, v):
    """Segments and length of the stored form of string value v, or None."""
    eng = I.eng
    site = eng.cur_site()
    if isinstance(v, OpNode):
        v = v.term("str")
    if isinstance(v, T):
        v = eng.canon(v)
    if isinstance(v, T) and v.op == "fstr" and not eng.edited:
        blob, start = v.args
        ln = eng.canon(atom(T("fslen", (blob, start), "int")))
        return [Sub(blob, start, eng.canon(add(start, ln)), site)], ln
    v = eng.res(v)
    if isinstance(v, str):
        b = recon.fstr_bytes(v)
        return [CB(b, site)], len(b)
    if isinstance(v, T) and v.ty in ("str", "any"):
        s = TB(T("fsenc", (v,), "bytes"), site)
        return [s], eng.seg_len(s)
    return None


def write_fstring(I, fn, args, kw):
    eng = I.eng
    st = stream_of(args[0])
    if st is None or len(args) < 2:
        return NotImplemented
    r = enc_fstr(I, args[1])
    if r is None:
        return NotImplemented
    eng.stream_write(st, BytesV(r[0]))
    return r[1]


def read_props(I, fn, args, kw):
    """Nested property list: an opaque document standing for bytes [start, start+pe)."""
    eng = I.eng
    if I.config.get("props_depth", 1) > getattr(I, "props_level", 0):
        I.props_level = getattr(I, "props_level", 0) + 1
        return NotImplemented
    st = stream_of(args[0])
    if st is None:
        return NotImplemented
    p = at(eng, st)
    if p is None:
        return NotImplemented
    eng.last_stream = st
    models.may_raise(I, "nested property list is malformed")
    blob, start = p
    ln = T("pe", (blob, start), "int")
    eng.order.setdefault(ln, len(eng.order))
    path = args[1] if len(args) > 1 else kw.get("path", "")
    rd = args[0]
    root = "%s@%s" % (blob, start)
    info = dict(blob=blob, start=start, end=eng.canon(add(start, atom(ln))), path=eng.canon(path) if isinstance(path, T) else path, reader=rd, site=eng.cur_site())
    node = eng.own(OpNode(root, (), info))
    eng.__dict__.setdefault("docs", {})[root] = node
    register(eng, blob, start, "props", T("props", (blob, start)))
    advance(eng, st, eng.canon(atom(ln)))
    eng.event("nested-read", info=info)
    return node


def read_packed(I, fn, args, kw):
    """Quantised vector: three numbers standing for bytes [start, start+pvlen)."""
    eng = I.eng
    st = stream_of(args[0])
    if st is None:
        return NotImplemented
    p = at(eng, st)
    if p is None:
        return NotImplemented
    eng.last_stream = st
    models.may_raise(I, "quantised vector is malformed")
    blob, start = p
    scale = eng.res(args[1] if len(args) > 1 else kw.get("scale_factor"))
    ln = T("pvlen", (blob, start), "int")
    eng.order.setdefault(ln, len(eng.order))
    register(eng, blob, start, "pv", T("pv", (blob, start, scale)))
    advance(eng, st, eng.canon(atom(ln)))
    return eng.own(mklist([T("pvc", (blob, start, scale, i), "float") for i in range(3)], "tuple"))


def write_packed(I, fn, args, kw):
    eng = I.eng
    st = stream_of(args[0])
    if st is None:
        return NotImplemented
    names = ["scale_factor", "x", "y", "z"]
    vals = [args[i + 1] if len(args) > i + 1 else kw.get(n) for i, n in enumerate(names)]
    scale = eng.res(vals[0])
    c = [v.term("float") if isinstance(v, OpNode) else v for v in vals[1:]]
    site = eng.cur_site()
    if all(isinstance(v, T) and v.op == "pvc" for v in c):
        b, a = c[0].args[0], c[0].args[1]
        if all(v.args == (b, a, scale, i) for i, v in enumerate(c)):
            ln = atom(T("pvlen", (b, a), "int"))
            eng.stream_write(st, BytesV([Sub(b, a, eng.canon(add(a, ln)), site)]))
            return None
    if not any(isinstance(v, T) and v.op == "pvc" for v in c):
        return NotImplemented
    eng.stream_write(st, BytesV([TB(T("pvenc", tuple([scale] + [v if isinstance(v, (T, Lin, int, float)) else repr(v) for v in c]), "bytes"), site)]))
    return None


def clean(I, node, out, path=()):
    """Problems that make an opaque document differ from the one read."""
    eng = I.eng
    for k in node.deleted:
        out.append(("entry %r was removed" % (k,), None))
    for k, v in node.overlay.items():
        compare(I, v, node.root, node.path + (k,), out)
    for k, c in node.kids.items():
        if k not in node.overlay and k not in node.deleted and isinstance(c, OpNode):
            clean(I, c, out)


def compare(I, v, root, path, out):
    eng = I.eng
    name = "/".join(str(p) for p in path)
    if isinstance(v, OpNode):
        if v.root != root or v.path != path:
            out.append(("%s was replaced by another part of the document (%r)" % (name, v), None))
            return
        clean(I, v, out)
        return
    if isinstance(v, DictV):
        if "values" in v.d:
            compare(I, v.d["values"], root, path + ("values",), out)
        elif v.reps or v.poison:
            out.append(("?%s rebuilt with unknown keys" % name, None))
        else:
            # a dictionary standing in for an opaque one: every entry must be the original
            if path and path[-1] == "value":
                out.append(("%s is left without its 'values'" % name, None))
            else:
                for k, x in v.d.items():
                    compare(I, x, root, path + (k,), out)
        return
    if isinstance(v, (ListV, BytesV, bytes, ByteArrV)):
        blob = "raw:%s%s" % (root, "".join("/" + str(p) for p in path))
        node = OpNode(root, path)
        try:
            b = models.to_bytes_value(I, v)
        except AbsRaise as e:
            out.append(("%s cannot be stored as bytes: %s" % (name, e.exc), e.exc.site))
            return
        orig = models.raw_blob(I, node)
        I.obligations = getattr(I, "obligations", 0) + 1
        end = eng.canon(atom(T("oplen", (root, path), "int")))
        r = recon.reconcile(eng, eng.segs_of(b), blob, 0, end)
        eng.fills.extend(r.fills)
        if not r.ok:
            out.append((("?" if r.kind == "undecided" else "") + r.kind + ": " + r.msg, r.site))
        return
    if isinstance(v, (T, Lin)):
        t = T("op", (root, path))
        v2 = lin_atom(v) if isinstance(v, Lin) else v
        if v2 != t:
            out.append(("%s was replaced by %r" % (name, v), None))
        return
    out.append(("%s was replaced by %r" % (name, v), None))


def write_props(I, fn, args, kw):
    eng = I.eng
    st = stream_of(args[0])
    if st is None or len(args) < 2:
        return NotImplemented
    node = args[1]
    if not isinstance(node, OpNode):
        return NotImplemented
    info = node.info
    site = eng.cur_site()
    if eng.edited:
        eng.event("edited-write", node=node, writer=args[0])
    if info is None or node.path or eng.edited:
        s = TB(T("opprops", (node.root, node.path), "bytes"), site)
        eng.stream_write(st, BytesV([s]))
        return None
    out = []
    clean(I, node, out)
    for msg, s in out:
        eng.event("doc-problem", msg=msg, where=s or site, info=info)
    eng.event("nested-write", info=info, writer=args[0])
    eng.stream_write(st, BytesV([Sub(info["blob"], info["start"], info["end"], site)]))
    return None


def before_rotator(I, fn, args, kw):
    I.rot_before = set(I.eng.fields)


def canonical_rotator(I, fn, args, kw, r):
    """Precondition: a stored rotator component that is present is not zero (a zero
    component is stored as absent)."""
    eng = I.eng
    for key, l in list(eng.fields.items()):
        if key in I.rot_before:
            continue
        for k, t, site in l:
            if k == "int" and t.args[2] == 2:
                eng.assume_cmp("==", atom(t), False)


def install(I, fstring=True, props=True):
    I.wraps[(ARCH, "FArchiveReader.compressed_short_rotator")] = before_rotator
    I.posts[(ARCH, "FArchiveReader.compressed_short_rotator")] = canonical_rotator
    I.cuts[(ARCH, "FArchiveReader.packed_vector")] = read_packed
    I.cuts[(ARCH, "FArchiveWriter.packed_vector")] = write_packed
    if fstring:
        I.cuts[(ARCH, "FArchiveReader.fstring")] = read_fstring
        I.cuts[(ARCH, "FArchiveWriter.fstring")] = write_fstring
    if props:
        I.cuts[(ARCH, "FArchiveReader.properties_until_end")] = read_props
        I.cuts[(ARCH, "FArchiveWriter.properties")] = write_props
