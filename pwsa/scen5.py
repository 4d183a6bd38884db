"""Identifiers and strings."""

from .values import *
from .engine import *
from . import models, recon, cuts
from .cuts import ARCH
from .runner import Finding
from .scen import *

ORDER = [3, 2, 1, 0, 7, 6, 5, 4, 0xB, 0xA, 9, 8, 0xF, 0xE, 0xD, 0xC]
ID_CONFIGS = (
    ("standard library", {}),
    ("standard library forced", {"env": {"FORCE_STDLIB_ONLY": "1"}, "recordclass": True}),
    ("accelerated", {"recordclass": True}),
)


def raw16(I, name):
    eng = I.eng
    eng.assume_cmp("==", sub(atom(T("len", (name,), "int")), 16), True)
    return BytesV([Sub(name, 0, 16)])


def std(I, name):
    """The standard UUID equivalent to the 16 stored bytes."""
    return I.eng.own(PyUuid(I.eng.mkbytes([Sub(name, i, i + 1) for i in ORDER])))


def idclass(I):
    return attr(mod(I, ARCH), "UUID")


def emitted(I, how, v):
    """Bytes written for identifier v."""
    m = mod(I, ARCH)
    w = writer(I)
    if how == 0:
        I.call(attr(m, "uuid_writer"), [w, v], {})
    elif how == 1:
        method(I, w, "guid", v)
    else:
        method(I, w, "optional_guid", v)
    return models.to_bytes_value(I, method(I, w, "bytes"))


def same_bytes(eng, a, b):
    return eng.segs_of(eng.canon(a)) == eng.segs_of(eng.canon(b)) or eng.canon(a) == eng.canon(b)


def definite(I, v):
    """True/False when decided without splitting, else None."""
    eng = I.eng
    b = I.boolval(v)
    if type(b) is bool:
        return b
    r = eng.bools.get(b)
    if r is None and isinstance(b, T) and b.op == "not":
        r = eng.bools.get(b.args[0])
        r = None if r is None else not r
    return r


def bytes_equal(I, a, b):
    """Split on whether two 16-byte values are equal."""
    return I.truth(I.compare("Eq", a, b))


def ids(I, eng, rep):
    U = idclass(I)
    here = (ARCH, "UUID", 0)
    out = []

    def bad(msg, site=None):
        out.append(Finding("identifier", site or here, msg))

    b = raw16(I, "U")
    want = models.str_of(I, std(I, "U"))
    case = eng.choose(8, "text / parse / write / equality / text equality / hash / read / repeated use")
    if case == 5 and I.config.get("recordclass") and not I.config.get("env"):
        pass
    try:
        u = I.call(U, [b], {})
        rep.obligations += 1
        if case == 0:
            s = I.eng.canon(models.str_of(I, u))
            if s != eng.canon(want):
                if has_unk(s):
                    return [Finding("?undecided", here, "text %r" % (s,))]
                bad("the text form %r is not that of the equivalent standard UUID (%r)" % (s, want))
            x = method(I, u, "UUID")
            if not isinstance(x, PyUuid) or not same_bytes(eng, x.b, std(I, "U").b):
                if isinstance(x, PyUuid) and has_unk(x.b):
                    return [Finding("?undecided", here, "standard form %r" % (x,))]
                bad("the standard form %r is not the equivalent one" % (x,))
        elif case == 1:
            u2 = I.call(I.getattr(U, "from_str"), [want], {})
            if not same_bytes(eng, emitted(I, 0, u2), b):
                bad("parsing the text form gives %r" % (emitted(I, 0, u2),))
            if definite(I, I.compare("Eq", u2, u)) is not True:
                bad("an identifier parsed from its text is not equal to the original")
            s = eng.canon(models.str_of(I, u2))
            if s != eng.canon(want):
                bad("the text of a parsed identifier is %r instead of %r" % (s, want))
        elif case == 2:
            how = eng.choose(3, "uuid_writer / guid / optional_guid")
            vals = [u, want, std(I, "U")]
            k = eng.choose(3, "identifier object / text / standard UUID")
            e = emitted(I, how, vals[k])
            exp = BytesV([CB(b"\x01")] + list(eng.segs_of(b))) if how == 2 else b
            if not same_bytes(eng, e, exp):
                (out.append(Finding("?undecided", here, "%r" % (e,))) if has_unk(e) else bad("writing the %s emits %r" % (["identifier object", "text form", "standard UUID"][k], e)))
            if how == 2:
                z = emitted(I, 2, None)
                if eng.canon(z) != b"\0":
                    bad("an absent identifier is written as %r" % (z,))
        elif case == 3:
            c = raw16(I, "V")
            v = I.call(U, [c], {})
            pre = eng.choose(2, "fresh / after their text was used")
            if pre:
                models.str_of(I, u), models.str_of(I, v)
            same = bytes_equal(I, b, c)
            for op, exp in (("Eq", same), ("NotEq", not same)):
                r = I.truth(I.compare(op, u, v))
                if r is not exp:
                    bad("identifiers whose bytes are %s compare %s" % ("equal" if same else "different", "%s to %r" % (op, r)))
            if same:
                h1, h2 = I.call(I.builtins["hash"], [u], {}), I.call(I.builtins["hash"], [v], {})
                # the bytes are equal but stored in two places; compare modulo renaming
                if rename(eng.canon(h1)) != rename(eng.canon(h2)):
                    bad("equal identifiers hash to %r and %r" % (h1, h2))
        elif case == 4:
            for val, what in ((want, "its own text form"), (std(I, "U"), "the equivalent standard UUID")):
                if definite(I, I.compare("Eq", u, val)) is not True:
                    bad("an identifier is not equal to %s" % what)
                if definite(I, I.compare("NotEq", u, val)) is not False:
                    bad("an identifier is unequal to %s" % what)
            for val in ("", None, 0):
                if definite(I, I.compare("Eq", u, val)) is True:
                    bad("an identifier is equal to %r" % (val,))
        elif case == 5:
            u2 = I.call(U, [b], {})
            k = eng.choose(3, "fresh / text of one used / standard form of one used")
            if k == 1:
                models.str_of(I, u)
            if k == 2:
                method(I, u, "UUID")
            h1, h2 = I.call(I.builtins["hash"], [u], {}), I.call(I.builtins["hash"], [u2], {})
            if eng.canon(h1) != eng.canon(h2):
                bad("equal identifiers hash to %r and %r" % (h1, h2))
            if not (I.config.get("recordclass") and not I.config.get("env")):
                h3 = I.call(I.builtins["hash"], [want], {})
                if eng.canon(h1) != eng.canon(h3):
                    bad("an identifier and its text form are equal but hash to %r and %r" % (h1, h3))
            if definite(I, I.compare("Eq", u, u2)) is not True:
                bad("identifiers with the same bytes are not equal")
        elif case == 6:
            rd = reader(I, blob(I, "B0"))
            g = method(I, rd, "guid")
            e = emitted(I, 1, g)
            r = recon.reconcile(eng, eng.segs_of(e), "B0", 0, 16)
            if not r.ok:
                out.append(recon_finding(eng, r, "B0", "identifier read from a save: "))
        else:
            a1, a2 = models.str_of(I, u), models.str_of(I, u)
            x1, x2 = method(I, u, "UUID"), method(I, u, "UUID")
            e = emitted(I, 0, u)
            if eng.canon(a1) != eng.canon(a2) or not same_bytes(eng, x1.b, x2.b):
                bad("asking twice for the text or standard form gives different results")
            if not same_bytes(eng, e, b):
                bad("after its text was used, an identifier is written as %r" % (e,))
    except AbsRaise as e:
        bad("%r is raised (case %d)" % (e.exc, case), e.exc.site)
    return out


def rename(x):
    return repr(x).replace("'V'", "'U'").replace("V[", "U[").replace("V@", "U@").replace("<V", "<U")


def id_json(I, eng, rep):
    """Identifiers in JSON output."""
    U = idclass(I)
    b = raw16(I, "U")
    want = eng.canon(models.str_of(I, std(I, "U")))
    v = I.call(U, [b], {}) if eng.choose(2, "identifier / standard UUID") == 0 else std(I, "U")
    rep.obligations += 1
    cls = encoder_class(I)
    try:
        r = to_json(I, eng.own(mklist([v]))).values()[0]
    except AbsRaise as e:
        return [Finding("json", e.exc.site, "an identifier cannot be expressed in JSON: %r" % (e.exc,))]
    if eng.canon(r) != want:
        if has_unk(r):
            return [Finding("?undecided", None, "%r" % (r,))]
        return [Finding("json", ("palworld_save_tools.json_tools", "CustomEncoder.default", 0), "an identifier is emitted as %r instead of %r" % (r, want))]
    return []


# ------------------------------------------------------------------ strings


def strings(I, eng, rep):
    """One stored string followed by other data, read and written back."""
    rd = reader(I, blob(I, "B0"))
    st = cuts.stream_of(rd)
    t = eng.int_atom("B0", 0, 4, True)
    lead = eng.choose(3, "empty / narrow / wide")
    n = atom(T("int", ("B0", 0, 4, True, "<"), "int"))
    if lead == 0:
        eng.assume_cmp("==", n, True)
        end, content = 4, None
    elif lead == 1:
        eng.nonneg(sub(n, 2))
        end = eng.canon(add(n, 4))
        content = (4, eng.canon(add(n, 3)))
        eng.expected[("B0", content[1])] = (1, 0, "string terminator", False)
    else:
        eng.nonneg(sub(neg(n), 2))
        end = eng.canon(add(mul(n, -2), 4))
        content = (4, eng.canon(sub(end, 2)))
        eng.expected[("B0", content[1])] = (2, 0, "string terminator", False)
    eng.nonneg(sub(atom(T("len", ("B0",), "int")), end))
    here = (ARCH, "FArchiveReader.fstring", 0)
    kind = ("empty", "narrow", "wide")[lead]
    rep.obligations += 1
    # which contents are canonical: narrow ones decode as ASCII; wide ones are UTF-16,
    # possibly with unpaired surrogates, and hold some non-ASCII character
    if content is not None:
        data = eng.canon(BytesV([Sub("B0", content[0], content[1])]))
        enc = "ascii" if lead == 1 else "utf-16-le"
        if lead == 1:
            eng.bools[T("decodable", (enc, "strict", data), "bool")] = True
        else:
            eng.bools[T("decodable", (enc, "surrogatepass", data), "bool")] = True
    try:
        s = method(I, rd, "fstring")
    except AbsRaise as e:
        return [Finding("string", e.exc.site or here, "a well-formed %s string is refused: %r" % (kind, e.exc))]
    out = []
    if eng.canon(st.pos) != eng.canon(end):
        out.append(Finding("string", here, "after a %s string the reader stands at %r instead of %r" % (kind, eng.canon(st.pos), end)))
    if isinstance(s, T) and s.op == "decode" and eng.canon(s.args[2]) == data:
        eng.assume_dom(eng.canon(s), "notin", frozenset([""]))  # non-empty bytes decode to a non-empty string
    if lead == 2 and isinstance(s, T):
        for x in (s,):
            eng.bools[T("isascii", (eng.canon(s),), "bool")] = False
    w = writer(I)
    try:
        r = method(I, w, "fstring", s)
    except AbsRaise as e:
        return out + [Finding("string", e.exc.site or here, "a %s string cannot be written back: %r" % (kind, e.exc))]
    b = models.to_bytes_value(I, method(I, w, "bytes"))
    rc = recon.reconcile(eng, eng.segs_of(b), "B0", 0, end)
    if not rc.ok:
        out.append(recon_finding(eng, rc, "B0", "%s string: " % kind))
    if r is not None and eng.canon(r) != eng.canon(end):
        if has_unk(eng.canon(r)):
            out.append(Finding("?undecided", here, "written length %r" % (r,)))
        else:
            out.append(Finding("string", (ARCH, "FArchiveWriter.fstring", 0), "the length reported for a %s string is %r, not %r" % (kind, eng.canon(r), end)))
    return out


def truncated(I, eng, rep):
    """Input that ends inside the string."""
    eng.short_mode = True
    rd = reader(I, blob(I, "B0"))
    eng.short_check = True
    rep.obligations += 1
    since = len(eng.events)
    try:
        s = method(I, rd, "fstring")
    except AbsRaise:
        return []
    sh = [e for e in eng.events[since:] if e["kind"] == "short-read"]
    if sh:
        return [Finding("truncated", (ARCH, "FArchiveReader.fstring", 0), "a string whose declared length runs past the end of the data is accepted (read of %r bytes)" % (sh[0]["n"],))]
    return []
