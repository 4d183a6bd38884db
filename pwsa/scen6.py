"""Dispatch to codecs, rejection of unknown kinds, shared state, portability."""

import ast

from .values import *
from .engine import *
from . import models, recon, cuts
from .models import SymKey
from .cuts import ARCH
from .runner import Finding
from .scen import *

# ------------------------------------------------------------------ dispatch

DISPATCH = [
    ("", [], [".A", ".B"]),
    ("", [".A"], [".A", ".B"]),
    ("", [".B", ".A"], [".A", ".B"]),
    ("p.q", ["p.q.A", ".A", "p.q"], ["p.q.A", ".A", "p.q", ".B"]),
]


def stub_pair(I, key, log):
    eng = I.eng

    def dec(I2, a, k):
        a = list(a) + [k[n] for n in ("type_name", "size", "path")[len(a) - 1 :] if n in k]
        log.append(("dec", key, a))
        rd, ty, size, path = a[:4]
        return I.call(I.getattr(rd, "property"), [ty, size, path], {"nested_caller_path": path})

    def enc(I2, a, k):
        a = list(a) + [k[n] for n in ("property_type", "properties")[len(a) - 1 :] if n in k]
        log.append(("enc", key, a))
        wr, ty, props = a[:3]
        if isinstance(props, DictV):
            props.d.pop("custom_type", None)
            props.order = [x for x in props.order if x != ("k", "custom_type")]
        return I.call(I.getattr(wr, "property_inner"), [ty, props], {})

    return eng.own(mklist([BuiltinV("decode of " + key, dec), BuiltinV("encode of " + key, enc)], "tuple"))


def dispatch(I, eng, rep):
    cuts.install(I)
    prefix, sel, known = DISPATCH[eng.choose(len(DISPATCH), "selection")]
    mode = eng.choose(2, "document kept in memory / passed through JSON")
    log = []
    pairs = {k: stub_pair(I, k, log) for k in known}
    reg, full = eng.own(DictV()), eng.own(DictV())
    for k in sel:
        reg.set(k, pairs[k])
    for k in known:
        full.set(k, pairs[k])
    hints = eng.own(DictV())
    for k in known[:1]:
        hints.set(k + ".Key", "Rec")
        hints.set(k + ".Value", "Rec")
    rd = reader(I, blob(I, "B0"), hints, reg)
    st = cuts.stream_of(rd)
    here = (ARCH, "FArchiveReader.property", 0)
    try:
        doc = method(I, rd, "properties_until_end", prefix)
    except AbsRaise:
        rep.rejected += 1
        raise Prune()
    end = eng.canon(st.pos)
    out = []
    ent = [x for x in doc.reps if isinstance(x[2], T)] if isinstance(doc, DictV) else None
    if not ent:
        raise Prune()
    key = ent[0][2]
    if key.op != "fstr" or key.args[0] != "B0":
        return [Finding("?undecided", here, "the property name %r" % (key,))]
    p0 = key.args[1]
    P = scat(prefix, ".", eng.canon(T("fstr", ("B0", p0), "str")))
    P = eng.canon(P) if isinstance(P, T) else P
    want = None
    for k in sel:
        if P == k or isinstance(P, T) and eng.force_in(P, frozenset([k])):
            want = k
            break
    rep.obligations += 3
    rep.extra["decoded by %s" % want] = rep.extra.get("decoded by %s" % want, 0) + 1
    decs = [x for x in log if x[0] == "dec"]
    got = [x[1] for x in decs]
    if got != ([want] if want else []):
        return [Finding("dispatch", here, "with %r selected, a property at path %s is decoded by %r" % (sel, want or "outside the selection", got))]
    if decs:
        _, k, a = decs[0]
        q = after_fstr(eng, "B0", p0)
        ty = field(eng, "B0", q, "fstr")
        sz = field(eng, "B0", after_fstr(eng, "B0", q), "int", 8)
        if eng.canon(a[1]) != eng.canon(ty) and eng.res(a[1]) != eng.res(ty):
            out.append(Finding("dispatch", here, "the codec gets %r as the property type" % (a[1],)))
        if sz is not None and eng.canon(a[2]) != eng.canon(atom(sz)):
            out.append(Finding("dispatch", here, "the codec gets %r as the size" % (a[2],)))
        if eng.res(a[3]) != k and eng.canon(a[3]) != P:
            out.append(Finding("dispatch", here, "the codec gets %r as the path" % (a[3],)))
    # the entry in the document
    for e in [x[3] for x in ent]:
        if isinstance(e, DictV):
            ct = e.d.get("custom_type")
            ct = eng.res(ct) if ct is not None else None
            if want and ct != want or not want and ct is not None:
                out.append(Finding("dispatch", here, "a property %s is marked with custom type %r" % ("decoded as " + want if want else "outside the selection", ct)))
    # nested paths
    out += nested_paths(I, eng, p0, P, here)
    n = expectations(eng, "B0")
    rep.obligations += n
    del log[:]
    try:
        if mode:
            doc = to_json(I, doc)
        wr = writer(I, full)
        method(I, wr, "properties", doc)
        b = method(I, wr, "bytes")
    except AbsRaise as e:
        return out + [Finding("raises", e.exc.site, "writing back a document read with %r selected raises %r" % (sel, e.exc))]
    got = [x[1] for x in log if x[0] == "enc"]
    if got != ([want] if want else []):
        out.append(Finding("dispatch", (ARCH, "FArchiveWriter.property_inner", 0), "a property %s is encoded by %r" % ("decoded as " + want if want else "that was not decoded", got)))
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
    if not r.ok:
        out.append(recon_finding(eng, r, "B0", "with %r selected: " % (sel,)))
    return out


def nested_paths(I, eng, p0, P, here):
    out = []
    q = after_fstr(eng, "B0", p0)
    ty = field(eng, "B0", q, "fstr")
    ty = eng.res(ty) if ty is not None else None
    body = eng.canon(add(after_fstr(eng, "B0", q), 8))
    ev = [e["info"] for e in eng.events if e["kind"] == "nested-read" and e["info"]["blob"] == "B0"]

    def canon(p):
        return eng.canon(p) if isinstance(p, T) else p

    base = eng.res(P) if isinstance(P, T) else P
    want = None
    if ty == "StructProperty":
        want = [scat(base, "")] if not isinstance(base, str) else [base]
    elif ty == "MapProperty":
        kt = field(eng, "B0", body, "fstr")
        vt = field(eng, "B0", after_fstr(eng, "B0", body), "fstr")
        kinds = [("Key", kt), ("Value", vt)]
        want = [scat(base, "." + n) for n, t in kinds if t is not None and eng.res(t) == "StructProperty"]
    elif ty == "ArrayProperty":
        for i in ev:
            p = canon(i["path"])
            pre = canon(scat(base, "."))
            s = repr(p)
            if not (isinstance(p, T) and p.op == "cat" and isinstance(p.args[-1], T) and p.args[-1].op == "fstr"):
                if not has_unk(p):
                    out.append(Finding("nested-path", here, "the elements of an array at %r are read under the path %r" % (base, p)))
        return out
    if want is None:
        return out
    got = [canon(i["path"]) for i in ev]
    ok = [canon(w) for w in want]
    it = iter(ok)
    for g in got:
        if has_unk(g):
            return out
        # every nested list must be read under one of the expected paths, in order
        for w in it:
            if w == g or (isinstance(w, T) and eng.res(w) == g):
                break
        else:
            out.append(Finding("nested-path", here, "a list nested in %s at %r is read under the path %r instead of %r" % (ty, base, g, ok)))
            break
    return out


# ------------------------------------------------------------------ unknown kinds

PROPS = frozenset("StructProperty IntProperty Int64Property FixedPoint64Property FloatProperty StrProperty NameProperty EnumProperty BoolProperty ArrayProperty MapProperty".split())
ELEMS = frozenset("EnumProperty NameProperty Guid ByteProperty StructProperty IntProperty Int64Property FloatProperty StrProperty BoolProperty".split())
VALS = frozenset("StructProperty EnumProperty NameProperty IntProperty BoolProperty".split())


def pinned(eng, t):
    """The facts of this path confine t to a finite set of names."""
    t = eng.canon(t)
    if isinstance(t, str):
        return True
    m = eng.dom.get(t)
    return bool(m) and m[0] == "in"


def unknown_read(I, eng, rep):
    """Every accepted path pins every type name it met to supported ones."""
    cuts.install(I)
    doc, end, reg = read_stream(I, eng, rep)
    out = []
    if not isinstance(doc, DictV) or not doc.reps:
        raise Prune()
    key = doc.reps[0][2]
    if not isinstance(key, T) or key.op != "fstr":
        return [Finding("?undecided", None, "property name %r" % (key,))]
    p0 = key.args[1]
    q = after_fstr(eng, "B0", p0)
    ty = T("fstr", ("B0", q), "str")
    p_size = after_fstr(eng, "B0", q)
    body = eng.canon(add(p_size, 8))
    rep.obligations += 1

    extra = []

    def need(t, what, known=None):
        rep.obligations += 1
        if known is not None and pinned(eng, t) and isinstance(eng.res(t), str) and eng.res(t) not in known:
            extra.append((t, what))
        if not pinned(eng, t):
            s = eng.fields.get((t.args[0], t.args[1]), [(0, 0, None)])[0][2]
            out.append(Finding("unknown-accepted", s or (ARCH, "FArchiveReader.property", 0), "%s outside the supported ones is accepted" % what))

    need(ty, "a property type", PROPS)
    kind = eng.res(ty)
    if kind == "ArrayProperty":
        et = T("fstr", ("B0", body), "str")
        need(et, "an array element type", ELEMS)
        if eng.res(et) == "ByteProperty":
            p = flag_end(eng, "B0", after_fstr(eng, "B0", body))
            cnt = field(eng, "B0", p, "int", 4) if p is not None else None
            sz = field(eng, "B0", p_size, "int", 8)
            if cnt is not None and sz is not None:
                rep.obligations += 1
                if eng.cmp_decide("==", sub(sub(atom(sz), 4), atom(cnt))) is not True:
                    out.append(Finding("unknown-accepted", (ARCH, "FArchiveReader.array_value", 0), "a byte array whose declared size differs from its element count is accepted"))
    if kind == "MapProperty":
        kt = T("fstr", ("B0", body), "str")
        need(kt, "a map key type", VALS)
        need(T("fstr", ("B0", after_fstr(eng, "B0", body)), "str"), "a map value type", VALS)
    for t, what in extra:
        # a type beyond those the format of the checks lists: it must survive writing
        site = eng.fields.get((t.args[0], t.args[1]), [(0, 0, None)])[0][2] or (ARCH, "FArchiveReader.property", 0)
        try:
            wr = writer(I, reg)
            method(I, wr, "properties", doc)
            b = method(I, wr, "bytes")
        except AbsRaise as e:
            out.append(Finding("unknown-accepted", site, "%s %r is accepted but cannot be written back: %r" % (what, eng.res(t), e.exc)))
            break
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
        if not r.ok:
            f = recon_finding(eng, r, "B0")
            out.append(Finding("unknown-accepted" if f.rule != "?undecided" else f.rule, site, "%s %r is accepted but not kept: %s" % (what, eng.res(t), f.msg)))
        break
    return out


def opaque(I, name):
    return I.eng.own(OpNode("D:" + name, ()))


def prop_doc(I, **kw):
    d = I.eng.own(DictV())
    d.set("id", None)
    for k, v in kw.items():
        d.set(k, v)
    return d


def unknown_write(I, eng, rep):
    cuts.install(I)
    case = eng.choose(6, "property type / array element type / map key type / map value type / custom type / custom type, nothing registered")
    t = T("arg", ("type",), "str")
    known = (PROPS, ELEMS, VALS, VALS, frozenset([".A", ".B"]), frozenset([""]))[case]
    eng.assume_dom(t, "notin", known)
    one = lambda: I.eng.own(mklist([opaque(I, "elem")]))
    ent = lambda k, v: I.eng.own(mklist([prop_doc(I, key=k, value=v)]))
    log = []
    reg = eng.own(DictV())
    if case == 4:
        for k in (".A", ".B"):
            reg.set(k, stub_pair(I, k, log))
    if case == 0:
        d = prop_doc(I, type=t, value=opaque(I, "value"))
    elif case == 1:
        v = prop_doc(I, values=one())
        d = prop_doc(I, type="ArrayProperty", array_type=t, value=v)
    elif case == 2:
        d = prop_doc(I, type="MapProperty", key_type=t, value_type="IntProperty", key_struct_type=None, value_struct_type=None, value=ent(opaque(I, "key"), 1))
    elif case == 3:
        d = prop_doc(I, type="MapProperty", key_type="IntProperty", value_type=t, key_struct_type=None, value_struct_type=None, value=ent(1, opaque(I, "val")))
    else:
        d = prop_doc(I, type="IntProperty", value=5, custom_type=t)
    if case == 0:
        for k in ("struct_type", "struct_id", "array_type", "key_type", "value_type"):
            d.set(k, opaque(I, k))
    rep.obligations += 1
    wr = writer(I, reg)
    top = eng.own(DictV())
    top.set("P", d)
    what = ("property type", "array element type", "map key type", "map value type", "custom type", "custom type")[case]
    try:
        method(I, wr, "properties", top)
    except AbsRaise:
        return []
    if pinned(eng, t):
        return []
    return [Finding("unknown-written", (ARCH, "FArchiveWriter.property_inner", 0), "a property with an unknown %s is written without an error" % what)]


MAP_KINDS = {".worldSaveData.GroupSaveDataMap": "MapProperty", ".worldSaveData.BaseCampSaveData.Value.ModuleMap": "MapProperty"}


def unknown_codec(key):
    """The codec registered under key, given a property of another kind."""

    def run(I, eng, rep):
        cuts.install(I)
        I.config = dict(I.config, props_depth=0)
        side = eng.choose(2, "decode / encode")
        pair = registry(I, [key]).d[key]
        f = pair.values()[side]
        t = T("arg", ("type",), "str")
        want = MAP_KINDS.get(key, "ArrayProperty")
        eng.assume_dom(t, "notin", frozenset([want]))
        rep.obligations += 1
        name = getattr(f, "name", "codec")
        here = (f.module.name if isinstance(f, FuncV) and hasattr(f.module, "name") else "palworld_save_tools.rawdata", name, 0)
        try:
            if side == 0:
                rd = reader(I, blob(I, "B0"), None, registry(I, [key]))
                I.call(f, [rd, t, atom(T("arg", ("size",), "int")), key], {})
            else:
                wr = writer(I, registry(I, [key]))
                d = prop_doc(I, type=t, custom_type=key)
                for k in ("struct_type", "struct_id", "array_type", "key_type", "value_type", "key_struct_type", "value_struct_type", "value"):
                    d.set(k, opaque(I, k))
                I.call(f, [wr, t, d], {})
        except AbsRaise:
            return []
        return [Finding("unknown-accepted" if side == 0 else "unknown-written", here, "the codec for %s accepts a property of another kind than %s when %s" % (key, want, ("reading", "writing")[side]))]

    return run


# ------------------------------------------------------------------ shared state


NAMES_OF = {}


def shared_name(I, o):
    """Where a shared object lives: module or class attribute, or a default value."""
    for m in I.modules.values():
        for k, v in m.attrs.items():
            if v is o:
                return "%s.%s" % (m.name.rsplit(".", 1)[-1], k)
            if isinstance(v, ClassV):
                for k2, v2 in v.attrs.items():
                    if v2 is o:
                        return "%s.%s" % (k, k2)
                    if isinstance(v2, FuncV) and default_of(v2, o):
                        return "the default of a parameter of %s.%s" % (k, k2)
            if isinstance(v, FuncV) and default_of(v, o):
                return "the default of a parameter of %s" % k
    return "a shared object"


def default_of(f, o):
    d = f.defaults.values() if isinstance(f.defaults, dict) else f.defaults or ()
    k = (f.kwdefaults or {}).values() if isinstance(f.kwdefaults, dict) else f.kwdefaults or ()
    return any(x is o for x in list(d) + list(k))


def effect_findings(I, eng, since, label):
    out = []
    for e in eng.events[since:]:
        k = e["kind"]
        s = e.get("site")
        if k == "global-mutation":
            out.append(Finding("shared-state", s, "%s changes %s (%s)" % (label, shared_name(I, e["obj"]), e["what"])))
        elif k == "global-write":
            out.append(Finding("shared-state", s, "%s assigns the module variable %s.%s" % (label, e["module"], e["name"])))
        elif k == "memoised-state":
            out.append(Finding("shared-state", s, "%s uses a cached function (%s) that %s" % (label, getattr(e["fn"], "name", "?"), e["what"])))
        elif k == "input-mutation":
            out.append(Finding("shared-state", s, "%s changes %s (%s)" % (label, e["label"], e["what"])))
    return out


def nondet_in(x, depth=0):
    """Name of a clock or random source the value depends on."""
    if depth > 60:
        return None
    if isinstance(x, T):
        if x.op in ("nondet", "id", "hash"):
            return next((str(a) for a in x.args if isinstance(a, str)), "a random source") if x.op == "nondet" else "object identity or hash"
        for a in x.args:
            r = nondet_in(a, depth + 1)
            if r:
                return r
    elif isinstance(x, Lin):
        for a, _ in x.t:
            r = nondet_in(a, depth + 1)
            if r:
                return r
    elif isinstance(x, (tuple, list)):
        for a in x:
            r = nondet_in(a, depth + 1)
            if r:
                return r
    elif isinstance(x, BytesV):
        for s in x.segs:
            for a in ("term", "val", "t", "v", "body"):
                y = getattr(s, a, None)
                r = nondet_in(y, depth + 1) if y is not None else None
                if r:
                    return r
            if isinstance(s, RepSeg):
                r = nondet_in(BytesV(list(getattr(s, "segs", ()) or ())), depth + 1)
                if r:
                    return r
    elif isinstance(x, DictV):
        for k, v in x.d.items():
            r = nondet_in(k, depth + 1) or nondet_in(v, depth + 1)
            if r:
                return r
        for q in x.reps:
            r = nondet_in(q[2], depth + 1) or nondet_in(q[3], depth + 1)
            if r:
                return r
    elif isinstance(x, ListV):
        for it in x.items:
            r = nondet_in(it[1], depth + 1) if it[0] != "r" else nondet_in([y[1] for y in it[3] if y[0] == "i"], depth + 1)
            if r:
                return r
    elif isinstance(x, OpNode):
        for v in list(x.overlay.values()) + list(x.kids.values()):
            r = nondet_in(v, depth + 1)
            if r:
                return r
    elif isinstance(x, InstanceV):
        for v in x.attrs.values():
            r = nondet_in(v, depth + 1) if not isinstance(v, (StreamV, InstanceV)) else None
            if r:
                return r
    elif isinstance(x, SymKey):
        return nondet_in(x.v, depth + 1)
    return None


def effects(keys=(), prefix="", only=None):
    """Reading and writing one property list leaves no trace and uses no hidden input."""

    def run(I, eng, rep):
        import json
        from . import shape

        cuts.install(I)
        encoder_class(I)
        mod(I, TYPES)
        for k in registry_keys_loaded(I):
            pass
        real = attr(mod(I, TYPES), "PALWORLD_TYPE_HINTS")
        real.readonly = "the table of type hints"
        since = len(eng.events)
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only)
        reg.readonly = "the table of codecs"
        out = []
        n = nondet_in(doc)
        rep.obligations += 2
        if n:
            out.append(Finding("nondeterministic", None, "the document depends on %s" % n))
        wr = writer(I, reg)
        try:
            method(I, wr, "properties", doc)
            b = method(I, wr, "bytes")
        except AbsRaise:
            return out + effect_findings(I, eng, since, "reading or writing")
        n = nondet_in(models.to_bytes_value(I, b))
        if n:
            out.append(Finding("nondeterministic", None, "the bytes written depend on %s" % n))
        out += effect_findings(I, eng, since, "reading or writing")
        if any(e["kind"] == "set-order" for e in eng.events[since:]):
            # run again with the elements of every set in the other order
            first = key_order(doc), json.dumps(shape.shapes(I, doc)[0])
            segs1 = len(eng.segs_of(models.to_bytes_value(I, b)))
            I.config = dict(I.config, set_order=True)
            I.props_level = 0
            I.guarded = False
            try:
                doc2, end2, _ = read_stream(I, eng, rep, keys, prefix, only)
                second = key_order(doc2), json.dumps(shape.shapes(I, doc2)[0])
            finally:
                I.config = dict(I.config, set_order=False)
            if first != second:
                out.append(Finding("nondeterministic", None, "the document depends on the iteration order of a set"))
        return out

    return run


def key_order(v, depth=0):
    if depth > 30:
        return None
    if isinstance(v, DictV):
        return [(str(o[1]), key_order(v.d[o[1]], depth + 1)) if o[0] == "k" else ("*", key_order(v.reps[o[1]][3], depth + 1)) for o in v.order]
    if isinstance(v, ListV):
        return [key_order(it[1], depth + 1) if it[0] == "i" else [key_order(y[1], depth + 1) for y in it[3] if y[0] == "i"] if it[0] == "r" else None for it in v.items]
    if isinstance(v, OpNode):
        return [(str(k), key_order(x, depth + 1)) for k, x in v.overlay.items()]
    if isinstance(v, str):
        return v
    return None


def registry_keys_loaded(I):
    return list(attr(mod(I, TYPES), "PALWORLD_CUSTOM_PROPERTIES").d)


def file_effects(I, eng, rep):
    cuts.install(I)
    encoder_class(I)
    mod(I, TYPES)
    mod(I, "palworld_save_tools.gvas")
    since = len(eng.events)
    f, doc = read_file(I, eng, rep)
    out = []
    g = f
    try:
        if eng.choose(2, "file object / loaded from its document"):
            g = I.call(I.getattr(file_class(I), "load"), [to_json(I, doc)], {})
        b = method(I, g, "write")
    except AbsRaise:
        raise Prune()
    rep.obligations += 2
    n = nondet_in(doc) or nondet_in(models.to_bytes_value(I, b))
    if n:
        out.append(Finding("nondeterministic", None, "the result depends on %s" % n))
    return out + effect_findings(I, eng, since, "reading or writing a file")


def container_effects(I, eng, rep):
    from . import scen3

    m = mod(I, "palworld_save_tools.palsav")
    since = len(eng.events)
    out = []
    p = scen3.payload(I, "P")
    t = (0x31, 0x32)[eng.choose(2, "type")]
    rep.obligations += 2
    try:
        c = I.call(scen3.fn(I, "compress_gvas_to_sav"), [p, t], {})
        n = nondet_in(models.to_bytes_value(I, c))
        if n:
            out.append(Finding("nondeterministic", None, "the container depends on %s" % n))
        I.call(scen3.fn(I, "decompress_sav_to_gvas"), [c], {})
    except AbsRaise:
        pass
    return out + effect_findings(I, eng, since, "compressing or decompressing")


def cli_effects(I, eng, rep):
    from . import scen4

    k = eng.choose(2, "to JSON / to save")
    W = scen4.World(I, eng, rep)
    W.install()
    m = mod(I, scen4.CONV)
    mod(I, TYPES)
    encoder_class(I)
    f = attr(m, ("convert_sav_to_json", "convert_json_to_sav")[k])
    i, o = "w.d/in", "w.d/out"
    for p in (i,):
        eng.bools[T("p:exists", (p,), "bool")] = True
        eng.bools[T("p:isfile", (p,), "bool")] = True
    kw = {"force": True}
    sel = eng.choose(3, "default selection / all / one") if k == 0 else 0
    if sel:
        ks = eng.own(mklist(["all"] if sel == 1 else [registry_keys_loaded(I)[0]]))
        ks.readonly = "the list of selected structures"
        kw["custom_properties_keys"] = ks
    since = len(eng.events)
    r = scen4.Run(W, lambda: I.call(f, [i, o], kw))
    rep.obligations += 1
    out = effect_findings(I, eng, since, "converting")
    for e in r.of("json-dump", "json-dumps"):
        n = nondet_in(e.get("copy"))
        if n:
            out.append(Finding("nondeterministic", e.get("site"), "the document depends on %s" % n))
    for e in r.of("file-write"):
        n = nondet_in(e.get("value"))
        if n:
            out.append(Finding("nondeterministic", e.get("site"), "what is written depends on %s" % n))
    return out


def string_effects(I, eng, rep):
    """The string reader and writer, analysed in place of their summaries."""
    mod(I, TYPES)
    rd = reader(I, blob(I, "B0"))
    since = len(eng.events)
    lab = "reading or writing a string"
    try:
        s = method(I, rd, "fstring")
    except AbsRaise:
        return effect_findings(I, eng, since, lab)
    rep.obligations += 1
    w = writer(I)
    try:
        method(I, w, "fstring", s)
        b = models.to_bytes_value(I, method(I, w, "bytes"))
    except AbsRaise:
        return effect_findings(I, eng, since, lab)
    n = nondet_in(s) or nondet_in(b)
    out = [Finding("nondeterministic", None, "the string depends on %s" % n)] if n else []
    return out + effect_findings(I, eng, since, lab)


def id_effects(I, eng, rep):
    from . import scen5

    m = mod(I, ARCH)
    c = attr(m, "UUID")
    since = len(eng.events)
    rep.obligations += 1
    raw = scen5.raw16(I, "U1")
    try:
        a = I.call(c, [raw], {})
        t = I.call(I.builtins["str"], [a], {})
        I.call(I.builtins["hash"], [a], {})
        I.call(I.getattr(a, "UUID"), [], {})
        b = I.call(I.getattr(c, "from_str"), [t], {})
        I.compare("Eq", a, b)
        w = writer(I)
        method(I, w, "guid", a)
        method(I, w, "guid", t)
    except AbsRaise:
        pass
    return effect_findings(I, eng, since, "using an identifier")


SMALL = ("packed_vector", "compressed_short_rotator", "serializeint", "bool", "byte", "byte_list", "i16", "u16", "i32", "u32", "i64", "u64", "float", "double")


def primitive_effects(name):
    def run(I, eng, rep):
        mod(I, TYPES)
        rd = reader(I, blob(I, "B0"))
        since = len(eng.events)
        args = {"packed_vector": [100], "serializeint": [8], "byte_list": [atom(T("arg", ("n",), "int"))]}.get(name, [])
        rep.obligations += 1
        try:
            method(I, rd, name, *args)
        except AbsRaise:
            pass
        return effect_findings(I, eng, since, "reading a value")

    return run
