"""The compressed container."""

from .values import *
from .engine import *
from . import models
from .runner import Finding
from .scen import mod, attr, blob, AnchorError

PALSAV = "palworld_save_tools.palsav"
TYPES2 = (0x31, 0x32)


def fn(I, name):
    return attr(mod(I, PALSAV), name)


def u32(eng, name):
    t = T(name, (), "int")
    eng.order.setdefault(t, len(eng.order))
    eng.nonneg(atom(t))
    eng.nonneg(sub((1 << 32) - 1, atom(t)))
    return atom(t)


def zof(v):
    return BytesV([TB(T("z", (15, v), "bytes"))])


def payload(I, name="P"):
    eng = I.eng
    p = blob(I, name)
    z = zof(eng.canon(p))
    for n in (eng.segs_len(p.segs), eng.segs_len(z.segs), eng.segs_len(zof(eng.canon(z)).segs)):
        eng.nonneg(n)
        eng.nonneg(sub((1 << 32) - 1, n))
    return p


def layout(I, p, ty, ulen=None, clen=None, magic=b"PlZ", tyseg=None, data=None):
    """Segments of a container for payload p."""
    eng = I.eng
    z = zof(eng.canon(p))
    body = z if ty == 0x31 else zof(eng.canon(z))
    ulen = eng.canon(eng.segs_len(p.segs)) if ulen is None else ulen
    clen = eng.canon(eng.segs_len(z.segs)) if clen is None else clen
    m = [CB(magic)] if isinstance(magic, bytes) else [magic]
    segs = [IntSeg(4, False, "<", ulen), IntSeg(4, False, "<", clen)] + m + [CB(bytes([ty])) if tyseg is None else tyseg]
    return segs + list(body.segs if data is None else data)


def wrapped(I, segs):
    I.eng.nonneg(sub(atom(T("len", ("K",), "int")), 9))
    I.eng.assume_cmp("==", sub(atom(T("len", ("K",), "int")), 9), True)
    return [Sub("K", 0, 8), CB(b"CNK"), Sub("K", 8, 9)] + list(segs)


def is_payload(eng, v, p):
    try:
        return eng.canon(v) == eng.canon(p) or eng.segs_of(eng.canon(v)) == eng.segs_of(eng.canon(p))
    except Exception:
        return False


def pair(eng, r):
    if isinstance(r, ListV):
        v = r.values()
        if v is not None and len(v) == 2:
            return v
    return None


def compose(I, eng, rep):
    """compress then decompress; header contents."""
    ty = TYPES2[eng.choose(2, "compression type")]
    f, g = fn(I, "compress_gvas_to_sav"), fn(I, "decompress_sav_to_gvas")
    p = payload(I)
    try:
        c = I.call(f, [p, ty], {})
    except AbsRaise as e:
        return [Finding("container", e.exc.site, "compressing with type %#x raises %r" % (ty, e.exc))]
    site = (PALSAV, "compress_gvas_to_sav", f.node.lineno if hasattr(f, "node") else 0)
    cv = models.to_bytes_value(I, c)
    out = []
    z = zof(eng.canon(p))
    fb = I.builtins["int"].attrs["from_bytes"]

    def part(a, b):
        return models.to_bytes_value(I, eng.slice_bytes(cv, a, b)) if False else eng.slice_bytes(cv, a, b)

    def num(a, b):
        return I.call(fb, [part(a, b), "little"], {})

    for what, got, want in (
        ("uncompressed length", num(0, 4), eng.segs_len(p.segs)),
        ("length after one compression pass", num(4, 8), eng.segs_len(z.segs)),
        ("magic", part(8, 11), b"PlZ"),
        ("compression type", num(11, 12), ty),
    ):
        rep.obligations += 1
        if eng.canon(got) != eng.canon(want):
            got = eng.canon(got)
            out.append(Finding("?undecided" if has_unk(got) else "container", site, "the %s stored in the header is %r, not %r (type %#x)" % (what, got, want, ty)))
    wrap = eng.choose(2, "plain / wrapped in a chunk header")
    if wrap:
        cv = BytesV(wrapped(I, eng.segs_of(cv)))
    try:
        r = I.call(g, [cv], {})
    except AbsRaise as e:
        return out + [Finding("container", e.exc.site, "decompressing what was compressed with type %#x raises %r" % (ty, e.exc))]
    out += result(eng, g, r, p, ty)
    rep.obligations += 2
    return out


def result(eng, g, r, p, ty):
    site = (PALSAV, "decompress_sav_to_gvas", 0)
    v = pair(eng, r)
    if v is None:
        return [Finding("container", site, "decompression returns %r" % (r,))]
    out = []
    if not is_payload(eng, v[0], p):
        x = eng.canon(v[0])
        out.append(Finding("?undecided" if has_unk(x) else "container", site, "decompression returns %r instead of the payload" % (x,)))
    if eng.canon(v[1]) != ty:
        out.append(Finding("container", site, "decompression reports type %r instead of %#x" % (eng.canon(v[1]), ty)))
    return out


FAMILIES = ("valid", "uncompressed length", "compressed length", "compression type", "magic", "corrupt data", "corrupt inner data", "truncated header")


def malformed(I, eng, rep):
    fam = FAMILIES[eng.choose(len(FAMILIES), "container family")]
    ty = TYPES2[eng.choose(2, "compression type")]
    wrap = eng.choose(2, "plain / wrapped in a chunk header")
    g = fn(I, "decompress_sav_to_gvas")
    p = payload(I)
    plen = eng.canon(eng.segs_len(p.segs))
    zlen = eng.canon(eng.segs_len(zof(eng.canon(p)).segs))
    kw = {}
    if fam == "uncompressed length":
        kw["ulen"] = u32(eng, "ulen")
        eng.assume_cmp("==", sub(kw["ulen"], plen), False)
    elif fam == "compressed length":
        kw["clen"] = u32(eng, "clen")
        eng.assume_cmp("==", sub(kw["clen"], zlen), False)
    elif fam == "compression type":
        kw["tyseg"] = Sub("Y", 0, 1)
        eng.assume_cmp("==", sub(atom(T("len", ("Y",), "int")), 1), True)
        t = eng.unpack_int(BytesV([kw["tyseg"]]), 1, False, "<")
        for x in TYPES2:
            eng.assume_cmp("==", sub(t, x), False)
    elif fam == "magic":
        kw["magic"] = Sub("M", 0, 3)
        eng.assume_cmp("==", sub(atom(T("len", ("M",), "int")), 3), True)
        for x in (b"PlZ",) + (() if wrap else (b"CNK",)):
            c = I.compare("Eq", BytesV([kw["magic"]]), x)
            if I.truth(c):
                raise Prune()
    elif fam == "corrupt data":
        d = blob(I, "Z")
        eng.bools[T("unzok", (15, eng.canon(d)), "bool")] = False
        n = eng.segs_len(d.segs)
        eng.nonneg(sub((1 << 32) - 1, n))
        kw["data"] = d.segs
        if ty == 0x31:
            kw["clen"] = eng.canon(n)
        else:
            kw["clen"] = u32(eng, "clen")
        kw["ulen"] = u32(eng, "ulen")
    elif fam == "corrupt inner data":
        if ty != 0x32:
            raise Prune()
        d = blob(I, "Z")
        eng.bools[T("unzok", (15, eng.canon(d)), "bool")] = False
        n = eng.segs_len(d.segs)
        eng.nonneg(sub((1 << 32) - 1, n))
        kw["data"] = zof(eng.canon(d)).segs
        kw["clen"] = eng.canon(n)
        kw["ulen"] = u32(eng, "ulen")
    elif fam == "truncated header":
        if ty != 0x31:
            raise Prune()
        n = eng.choose(12, "bytes present")
        d = blob(I, "H")
        eng.assume_cmp("==", sub(eng.segs_len(d.segs), n), True)
        cv = BytesV(wrapped(I, [Sub("H", 0, n)] if n else []) if wrap else d.segs)
        if not wrap and n >= 11:
            c = I.compare("Eq", eng.slice_bytes(cv, 8, 11), b"CNK")
            if I.truth(c):
                raise Prune()
    if fam != "truncated header":
        segs = layout(I, p, ty, **kw)
        cv = BytesV(wrapped(I, segs) if wrap else segs)
    rep.obligations += 1
    rep.extra.setdefault("container families", set()).add("%s/%#x/%s" % (fam, ty, "wrapped" if wrap else "plain"))
    try:
        r = I.call(g, [cv], {})
    except AbsRaise as e:
        if fam == "valid":
            return [Finding("container", e.exc.site, "a valid container of type %#x raises %r" % (ty, e.exc))]
        return []
    if fam == "valid":
        return result(eng, g, r, p, ty)
    return [Finding("accepts", (PALSAV, "decompress_sav_to_gvas", 0), "a container with a wrong %s is accepted (type %#x, %s)" % (fam, ty, "wrapped" if wrap else "plain"))]
