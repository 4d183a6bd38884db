"""Round-trip scenarios over the archive reader and writer."""

from .values import *
from .engine import *
from . import models, recon, cuts
from .cuts import ARCH
from .runner import Finding

TYPES = "palworld_save_tools.paltypes"


class AnchorError(Exception):
    pass


def mod(I, name):
    m = I.load(name)
    if m is None:
        raise AnchorError("module %s is missing" % name)
    return m


def attr(m, name):
    if name not in m.attrs:
        raise AnchorError("%s.%s is missing" % (m.name, name))
    v = m.attrs[name]
    if type(v).__name__ == "UnknownV":
        raise Undecided(v.why)
    return v


def blob(I, name):
    n = T("len", (name,), "int")
    I.eng.order.setdefault(n, len(I.eng.order))
    I.eng.nonneg(atom(n))
    return BytesV([Sub(name, 0, atom(n))])


def registry(I, keys):
    """A registry holding only the given keys of the real one."""
    real = attr(mod(I, TYPES), "PALWORLD_CUSTOM_PROPERTIES")
    d = I.eng.own(DictV())
    for k in keys:
        d.set(k, real.d[k])
    return d


def registry_keys(src):
    from .interp import Interp

    I = Interp(src, Eng(), {})
    real = attr(mod(I, TYPES), "PALWORLD_CUSTOM_PROPERTIES")
    return list(real.d)


def reader(I, data, hints=None, reg=None, **kw):
    cls = attr(mod(I, ARCH), "FArchiveReader")
    k = dict(type_hints=hints if hints is not None else I.eng.own(DictV()), custom_properties=reg if reg is not None else I.eng.own(DictV()))
    k.update(kw)
    return I.call(cls, [data], k)


def writer(I, reg=None, **kw):
    cls = attr(mod(I, ARCH), "FArchiveWriter")
    k = dict(custom_properties=reg if reg is not None else I.eng.own(DictV()))
    k.update(kw)
    return I.call(cls, [], k)


def method(I, o, name, *args, **kw):
    try:
        f = I.getattr(o, name)
    except AbsRaise:
        raise AnchorError("%r has no method %s" % (o, name))
    return I.call(f, list(args), kw)


# ------------------------------------------------------------------ wire layout


def field(eng, b, p, kind, size=None):
    for k, t, site in eng.fields.get((b, eng.canon(p)), []):
        if k == kind and (size is None or t.args[2] == size):
            return t
    return None


def after_fstr(eng, b, p):
    return eng.canon(add(p, atom(T("fslen", (b, eng.canon(p)), "int"))))


def flag_end(eng, b, p):
    """Position after the optional GUID flag at p, when the facts settle the flag."""
    t = field(eng, b, p, "int", 1)
    if t is None:
        return None
    lo, hi = eng.bounds(atom(t))
    if hi == 0:
        return eng.canon(add(p, 1))
    if lo is not None and lo >= 1:
        return eng.canon(add(p, 17))
    return None


def settle(eng, t):
    """The constant t stands for; when the facts leave finitely many, split on them."""
    v = eng.res(t)
    if isinstance(v, T):
        m = eng.dom.get(v)
        if m and m[0] == "in" and len(m[1]) <= 16:
            for x in sorted(m[1], key=repr):
                if eng.force_in(v, frozenset([x])):
                    return x
    return v


def expect_property(eng, b, p_type, end):
    """Record what the size and reserved fields of the property whose type string
    is stored at p_type must hold, from the wire layout of the format."""
    t = field(eng, b, p_type, "fstr")
    if t is None:
        return None
    kind = settle(eng, t)
    if not isinstance(kind, str):
        return None
    p_size = after_fstr(eng, b, p_type)
    if field(eng, b, p_size, "int", 8) is None:
        return None
    p = eng.canon(add(p_size, 8))
    sub_t = None
    if kind == "StructProperty":
        p = eng.canon(add(after_fstr(eng, b, p), 16))
    elif kind in ("EnumProperty", "ArrayProperty"):
        sub_t = field(eng, b, p, "fstr")
        if sub_t is not None:
            settle(eng, sub_t)
        p = after_fstr(eng, b, p)
    elif kind == "MapProperty":
        p = after_fstr(eng, b, after_fstr(eng, b, p))
    elif kind == "BoolProperty":
        p = eng.canon(add(p, 1))
    q = flag_end(eng, b, p)
    if q is None:
        return None
    sz = eng.canon(sub(end, q))
    if kind == "BoolProperty":
        sz = 0
    n = 1
    eng.expected[(b, p_size)] = (8, sz, "payload size of %s" % kind, False)
    if kind == "MapProperty":
        eng.expected[(b, q)] = (4, 0, "removed-key count of a map", False)
        n += 1
    if kind == "ArrayProperty" and sub_t is not None and eng.res(sub_t) == "StructProperty":
        r = after_fstr(eng, b, after_fstr(eng, b, add(q, 4)))
        s = after_fstr(eng, b, add(r, 8))
        z = eng.canon(add(s, 16))
        data = eng.canon(add(z, 1))
        eng.expected[(b, r)] = (8, eng.canon(sub(end, data)), "inner size of a struct array", False)
        eng.expected[(b, z)] = (1, 0, "terminator of a struct array header", False)
        n += 2
    return n


def expectations(eng, b):
    n = 0
    for lrs in eng.looprec.values():
        for lr in lrs:
            if lr.blob == b:
                p = eng.canon(lr.bstart)
                if field(eng, b, p, "fstr") is not None:
                    n += expect_property(eng, b, after_fstr(eng, b, p), eng.canon(lr.bend)) or 0
    return n


def size_field(eng, b, cursor):
    if cursor is None:
        return None
    e = eng.expected.get((b, eng.canon(cursor)))
    return e


# ------------------------------------------------------------------ round trip


def encoder_class(I):
    return attr(mod(I, "palworld_save_tools.json_tools"), "CustomEncoder")


def to_json(I, doc, on=None):
    return models.json_roundtrip(I, doc, encoder_class(I), on)


def collect_doc_problems(eng, findings, label):
    for e in eng.events:
        if e["kind"] == "doc-problem":
            m = e["msg"]
            if m.startswith("?"):
                findings.append(Finding("?undecided", e["where"], m[1:]))
            else:
                kind = "leftover" if m.startswith("leftover") else "raw-data"
                findings.append(Finding(kind, e["where"], m))


def check_fills(eng, findings, b, allow=None):
    pass


def recon_finding(eng, r, b, prefix=""):
    if r.kind == "undecided":
        return Finding("?undecided", r.site, prefix + r.msg)
    e = size_field(eng, b, r.cursor)
    rule = "bytes" if r.kind == "mismatch" else r.kind
    if e is not None:
        return Finding("size", r.site, "%s%s must be %r: %s" % (prefix, e[2], e[1], r.msg))
    return Finding(rule, r.site, prefix + r.msg)


def codec_guard(I, only):
    """Confine the analysis to properties stored under path `only`."""
    eng = I.eng

    def guard(I2, fn, args, kw):
        p = args[3] if len(args) > 3 else kw.get("path")
        if not getattr(I2, "guarded", False):
            I2.guarded = True
            if not eng.force_in(eng.canon(p), frozenset([only])):
                raise Prune()
            # assumption A-raw: the codec's property has the container shape it is registered for
            pos = cuts.at(eng, cuts.stream_of(args[0]))
            want = "ByteProperty" if only.endswith("RawData") else "StructProperty"
            ty = args[1] if len(args) > 1 else kw.get("type_name")
            if pos is not None and isinstance(ty, T) and eng.force_in(eng.canon(ty), frozenset(["ArrayProperty"])):
                if not eng.force_in(T("fstr", pos, "str"), frozenset([want])):
                    raise Prune()

    I.wraps[(ARCH, "FArchiveReader.property")] = guard


def read_stream(I, eng, rep, keys=(), prefix="", only=None, hints="real", allow_nan=True):
    """(document, end position, registry) of one generic property list."""
    reg = registry(I, keys)
    h = attr(mod(I, TYPES), "PALWORLD_TYPE_HINTS") if hints == "real" else eng.own(DictV())
    rd = reader(I, blob(I, "B0"), h, reg, allow_nan=allow_nan)
    if only is not None:
        codec_guard(I, only)
    st = cuts.stream_of(rd)
    if st is None:
        raise AnchorError("the reader holds no byte stream")
    try:
        doc = method(I, rd, "properties_until_end", prefix)
    except AbsRaise as e:
        rep.rejected += 1
        rep.notes.setdefault("rejects", []).append((repr(e.exc), e.exc.site, list(eng.labels)))
        raise Prune()
    return doc, eng.canon(st.pos), reg


def read_doc(I, eng, rep, keys=(), prefix="", only=None, **kw):
    return read_stream(I, eng, rep, keys, prefix, only, **kw)[0]


def file_class(I):
    return attr(mod(I, "palworld_save_tools.gvas"), "GvasFile")


def read_file(I, eng, rep, *args, **kw):
    """A whole file with an opaque property list: (GvasFile instance, dumped document)."""
    I.config = dict(I.config, props_depth=0)
    G = file_class(I)
    try:
        f = I.call(I.getattr(G, "read"), [blob(I, "B0")] + list(args), kw)
        doc = method(I, f, "dump")
    except AbsRaise as e:
        rep.rejected += 1
        rep.notes.setdefault("rejects", []).append((repr(e.exc), e.exc.site, list(eng.labels)))
        raise Prune()
    return f, doc


def file_roundtrip(I, eng, rep, modes=("memory", "dumped", "json")):
    cuts.install(I)
    mode = modes[eng.choose(len(modes), "file object / dumped document / through JSON")]
    f, doc = read_file(I, eng, rep)
    out = []
    # format constants that a save must carry to be accepted
    for p, want, what in ((0, 0x53415647, "magic"), (4, 3, "save game version"), (after_fstr(eng, "B0", 26), 3, "custom version format")):
        t = field(eng, "B0", p, "int", 4)
        rep.obligations += 1
        if t is None:
            out.append(Finding("?undecided", None, "no 32-bit %s field is read at its place" % what))
        elif eng.canon(atom(t)) != want:
            out.append(Finding("header-check", eng.fields[("B0", eng.canon(p))][0][2], "a save whose %s is not %#x is accepted" % (what, want)))
    if mode == "memory":
        g = f
    try:
        if mode != "memory":
            d = to_json(I, doc) if mode == "json" else doc
            g = I.call(I.getattr(file_class(I), "load"), [d], {})
        b = method(I, g, "write")
    except AbsRaise as e:
        return out + [Finding("raises", e.exc.site, "loading or writing a document the reader produced (%s) raises %r" % (mode, e.exc))]
    end = eng.canon(atom(T("len", ("B0",), "int")))
    collect_doc_problems(eng, out, mode)
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
    rep.obligations += 1
    if not r.ok:
        out.append(recon_finding(eng, r, "B0", "(%s) " % mode))
    return out


def roundtrip(I, eng, rep, keys=(), prefix="", hints="real", only=None, modes=("memory", "json"), allow_nan=True, twice=False):
    cuts.install(I)
    encoder_class(I)
    mode = modes[eng.choose(len(modes), "document kept in memory / passed through JSON")]
    doc, end, reg = read_stream(I, eng, rep, keys, prefix, only, hints, allow_nan)
    if mode == modes[0]:
        record_shapes(I, rep, doc)
    n = expectations(eng, "B0")
    findings = []
    try:
        if mode == "json":
            doc = to_json(I, doc)
        wr = writer(I, reg)
        method(I, wr, "properties", doc)
        out = method(I, wr, "bytes")
    except AbsRaise as e:
        x = e.exc
        return [Finding("raises", x.site, "writing back a document the reader produced (%s) raises %r" % (mode, x))]
    collect_doc_problems(eng, findings, mode)
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, out)), "B0", 0, end)
    eng.fills.extend(r.fills)
    rep.obligations += 1 + n + getattr(I, "obligations", 0)
    if not r.ok:
        findings.append(recon_finding(eng, r, "B0"))
    return findings


# ------------------------------------------------------------------ document format


def record_shapes(I, rep, doc):
    from . import shape
    import json

    sh, ctx = shape.shapes(I, doc)
    for g, es in sh.items():
        rep.extra.setdefault("shapes", set()).add((g, json.dumps(es), json.dumps(ctx, sort_keys=True)))


def shape_scenario(keys=(), prefix="", only=None, **kw):
    def run(I, eng, rep):
        cuts.install(I)
        doc = read_doc(I, eng, rep, keys, prefix, only, **kw)
        record_shapes(I, rep, doc)
        rep.obligations += 1

    return run


def shape_entries(rep):
    """[group, shape, ctx] with one context constraint at a time."""
    import json

    out = set()
    for g, s, x in rep.extra.get("shapes", ()):
        x = json.loads(x)
        for t in sorted(x) or [None]:
            out.add((g, s, json.dumps({t: x[t]} if t else {})))
    return [[g, json.loads(s), json.loads(x)] for g, s, x in sorted(out)]


def file_shape_scenario(I, eng, rep):
    cuts.install(I)
    f, doc = read_file(I, eng, rep)
    record_shapes(I, rep, doc)
    rep.obligations += 1


def const_table(src, name):
    """A module-level dictionary of strings, or of anything: {key: value or None}."""
    from .interp import Interp

    I = Interp(src, Eng(), {})
    d = attr(mod(I, TYPES), name)
    return {k: (v if isinstance(v, str) else None) for k, v in d.d.items()}
