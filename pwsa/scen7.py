"""Imports and behaviour with the standard library alone; JSON expressibility."""

from .values import *
from .engine import *
from . import models, recon, cuts
from .cuts import ARCH
from .runner import Finding
from .scen import *
from .models import SymKey

MISSING_KINDS = ("ImportError", "ModuleNotFoundError", "NameError", "UnboundLocalError")


def broken(exc):
    """Is the exception the kind that a missing module or name causes?"""
    n = exc.cls.name if hasattr(getattr(exc, "cls", None), "name") else repr(exc).split("(")[0]
    if n in MISSING_KINDS:
        return n
    if n == "AttributeError" and ("NoneType" in repr(exc) or "module" in repr(exc)):
        return n
    return None


def imports(name):
    def run(I, eng, rep):
        rep.obligations += 1
        try:
            m = I.load(name)
        except AbsRaise as e:
            return [Finding("import-fails", e.exc.site, "importing %s fails with the standard library alone: %r" % (name, e.exc))]
        if m is None:
            raise AnchorError("module %s is missing" % name)
        return []

    return run


def forced(want_third):
    def run(I, eng, rep):
        rep.obligations += 1
        c = attr(mod(I, ARCH), "UUID")
        third = getattr(c, "third", None) or any(str(getattr(b, "name", "")).startswith("recordclass") for b in getattr(c, "bases", ()))
        if third and not want_third:
            return [Finding("implementation", (ARCH, "UUID", 0), "the identifier class is built with %s although the standard library was asked for" % third)]
        return []

    return run


def runs(keys=(), prefix="", only=None):
    """Reading and writing use nothing that is missing."""

    def run(I, eng, rep):
        cuts.install(I)
        reg = registry(I, keys)
        h = attr(mod(I, TYPES), "PALWORLD_TYPE_HINTS")
        rd = reader(I, blob(I, "B0"), h, reg)
        if only is not None:
            codec_guard(I, only)
        rep.obligations += 1
        try:
            doc = method(I, rd, "properties_until_end", prefix)
            wr = writer(I, reg)
            method(I, wr, "properties", doc)
        except AbsRaise as e:
            k = broken(e.exc)
            if k:
                return [Finding("missing-name", e.exc.site, "with the standard library alone, reading or writing fails: %r" % (e.exc,))]
            rep.rejected += 1
        return []

    return run


def cli_runs(I, eng, rep):
    from . import scen4

    k = eng.choose(2, "to JSON / to save")
    W = scen4.World(I, eng, rep)
    W.install()
    m = mod(I, scen4.CONV)
    f = attr(m, ("convert_sav_to_json", "convert_json_to_sav")[k])
    i, o = "w.d/in", "w.d/out"
    eng.bools[T("p:exists", (i,), "bool")] = True
    eng.bools[T("p:isfile", (i,), "bool")] = True
    rep.obligations += 1
    kw = {"force": True}
    if k == 0:
        c = eng.choose(3, "default / minified / null NaN")
        if c == 1:
            kw["minify"] = True
        elif c == 2:
            kw["allow_nan"] = False
    r = scen4.Run(W, lambda: I.call(f, [i, o], kw))
    e = r.exc
    if e is not None and broken(e):
        return [Finding("missing-name", e.site, "with the standard library alone, converting fails: %r" % (e,))]
    return []


# ------------------------------------------------------------------ JSON


def write_once(I, eng, reg, doc, end, label):
    out = []
    since = len(eng.events)
    try:
        wr = writer(I, reg)
        method(I, wr, "properties", doc)
        b = method(I, wr, "bytes")
    except AbsRaise as e:
        return [Finding("raises", e.exc.site, "writing %s raises %r" % (label, e.exc))]
    for e in eng.events[since:]:
        if e["kind"] == "doc-problem":
            m = e["msg"]
            out.append(Finding("?undecided" if m.startswith("?") else "json", e["where"], m.lstrip("?")))
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
    if not r.ok:
        f = recon_finding(eng, r, "B0")
        out.append(f)
    return out


def json_doc(keys=(), prefix="", only=None):
    """A document and what JSON makes of it are written alike, and JSON can carry it."""

    def run(I, eng, rep):
        cuts.install(I)
        encoder_class(I)
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only)
        expectations(eng, "B0")
        out = []
        seen = []

        def on(kind, path, v):
            if kind in ("key", "badkey"):
                seen.append((kind, path, v))

        rep.obligations += 2
        try:
            dj = to_json(I, doc, on)
        except AbsRaise as e:
            k = [s for s in seen if s[0] == "badkey"]
            what = "; the key %r under %s" % (k[0][2], "/".join(map(str, k[0][1]))) if k else ""
            return [Finding("json", e.exc.site, "a document the reader produced cannot be expressed in JSON: %r%s" % (e.exc, what))]
        for kind, path, v in seen:
            out.append(Finding("json", None, "the document has the key %r, which is not a string, under %s" % (v, "/".join(map(str, path)))))
        fj = write_once(I, eng, reg, dj, end, "the document that came back from JSON")
        if fj:
            dj2 = [(f.rule, f.msg) for f in write_once(I, eng, reg, doc, end, "the document that came back from JSON")]
            out += [f for f in fj if (f.rule, f.msg) not in dj2 and (f.rule == "?undecided" or not any(r != "?undecided" for r, _ in dj2))]
        return out

    return run


def json_file(I, eng, rep):
    cuts.install(I)
    encoder_class(I)
    f, doc = read_file(I, eng, rep)
    seen = []
    rep.obligations += 2
    try:
        dj = to_json(I, doc, lambda k, p, v: seen.append((k, p, v)) if k in ("key", "badkey") else None)
    except AbsRaise as e:
        return [Finding("json", e.exc.site, "the document of a file cannot be expressed in JSON: %r" % (e.exc,))]
    out = [Finding("json", None, "the document has the key %r, which is not a string, under %s" % (v, "/".join(map(str, p)))) for k, p, v in seen]

    def write(d, label):
        try:
            g = I.call(I.getattr(file_class(I), "load"), [d], {})
            b = method(I, g, "write")
        except AbsRaise as e:
            return [Finding("raises", e.exc.site, "loading or writing %s raises %r" % (label, e.exc))]
        end = eng.canon(atom(T("len", ("B0",), "int")))
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
        return [] if r.ok else [recon_finding(eng, r, "B0")]

    fj = write(dj, "a document that came back from JSON")
    if fj:
        m = write(doc, "a document that came back from JSON")
        out += [x for x in fj if (x.rule, x.msg) not in [(y.rule, y.msg) for y in m]]
    return out


def string_is_text(I, eng, rep):
    rd = reader(I, blob(I, "B0"))
    rep.obligations += 1
    try:
        s = eng.res(method(I, rd, "fstring"))
    except AbsRaise:
        raise Prune()
    if isinstance(s, str) or isinstance(s, T) and s.ty == "str":
        return []
    if isinstance(s, (bytes, BytesV, ByteArrV)) or isinstance(s, T) and s.ty == "bytes":
        return [Finding("json", (ARCH, "FArchiveReader.fstring", 0), "a stored string is returned as bytes")]
    return [Finding("?undecided", None, "type of %r" % (s,))]


UTF8 = ("utf8", "utf-8", "utf_8", "u8", "utf-8-sig", "utf-16", "utf-32")


def text_rules(I, eng, events):
    """Options of json.dump and json.load that change what a document means."""
    out = []
    where = lambda e: e.get("site") or ("palworld_save_tools.commands.convert", "convert_sav_to_json", 0)
    for e in events:
        kw = e.get("kw") or {}
        if e["kind"] in ("json-dump", "json-dumps"):
            sk = kw.get("sort_keys")
            if sk not in (None, False, 0):
                out.append(Finding("json-options", where(e), "keys are sorted in the JSON output: the order of properties is lost"))
            sep = kw.get("separators")
            if isinstance(sep, ListV) and sep.concrete():
                v = sep.values()
                if len(v) == 2 and all(isinstance(x, str) for x in v) and [x.strip() for x in v] != [",", ":"]:
                    out.append(Finding("json-options", where(e), "the separators %r do not make JSON" % (v,)))
            ind = kw.get("indent")
            if isinstance(ind, str) and ind.strip(" \t\r\n"):
                out.append(Finding("json-options", where(e), "indenting with %r does not make JSON" % ind))
            f = e.get("file")
            if kw.get("ensure_ascii") in (False, 0) and isinstance(f, FileV):
                fk = f.info.get("kw", {})
                if fk.get("errors") not in ("surrogatepass",) and "b" not in str(f.mode):
                    out.append(Finding("json-options", where(e), "characters are written unescaped: text with unpaired surrogates cannot be written or is altered"))
        elif e["kind"] == "json-load":
            for n in ("parse_int", "parse_float", "parse_constant", "object_hook", "object_pairs_hook", "cls"):
                v = kw.get(n)
                if v is None:
                    continue
                nm = getattr(v, "name", "")
                if (n, nm) in (("parse_int", "int"), ("parse_float", "float"), ("parse_constant", "float"), ("object_pairs_hook", "dict"), ("object_pairs_hook", "OrderedDict"), ("object_hook", "dict"), ("cls", "JSONDecoder")):
                    continue
                if n == "parse_constant" and isinstance(v, (FuncV, BuiltinV)):
                    try:
                        x = eng.res(I.call(v, ["Infinity"], {}))
                    except AbsRaise:
                        x = None
                    if x != float("inf"):
                        out.append(Finding("json-options", where(e), "an infinite float in the JSON is read back as %r" % (x,)))
                    continue
                if n in ("parse_int", "parse_float"):
                    probe = "1" if n == "parse_int" else "1.5"
                    try:
                        x = eng.res(I.call(v, [probe], {}))
                    except (AbsRaise, Undecided):
                        x = None
                    if type(x) is type(int(1) if n == "parse_int" else 1.5) and x == (1 if n == "parse_int" else 1.5):
                        continue
                    if nm in ("int", "float", "str", "Decimal", "decimal.Decimal", "Fraction", "bool"):
                        out.append(Finding("json-options", where(e), "%s=%s: numbers come back as something else than they were written" % (n, nm)))
                        continue
                out.append(Finding("?undecided", where(e), "json.load with %s" % n))
    return out


def cli_json(I, eng, rep):
    from . import scen4

    k = eng.choose(2, "to JSON / to save")
    W = scen4.World(I, eng, rep)
    W.install()
    m = mod(I, scen4.CONV)
    f = attr(m, ("convert_sav_to_json", "convert_json_to_sav")[k])
    i, o = "w.d/in", "w.d/out"
    eng.bools[T("p:exists", (i,), "bool")] = True
    eng.bools[T("p:isfile", (i,), "bool")] = True
    kw = {"force": True}
    if k == 0:
        c = eng.choose(3, "default / minified / null NaN")
        if c == 1:
            kw["minify"] = True
        elif c == 2:
            kw["allow_nan"] = False
    r = scen4.Run(W, lambda: I.call(f, [i, o], kw))
    rep.obligations += 1
    out = text_rules(I, eng, r.ev)
    # a TypeError while dumping: something JSON does not take
    if k == 0 and r.exc is not None and "JSON serializable" in repr(r.exc):
        out.append(Finding("json", r.exc.site, "the document of a file cannot be expressed in JSON: %r" % (r.exc,)))
    elif r.exc is not None or r.code:
        raise Prune()
    return out
