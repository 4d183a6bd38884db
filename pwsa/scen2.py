"""Further scenarios: NaN handling, nested settings, repeated writing, JSON form."""

from .values import *
from .engine import *
from . import models, recon, cuts, shape
from .cuts import ARCH
from .runner import Finding
from .scen import *

RAWPFX = "raw:"


def doc_floats(I, doc):
    """[(path, value)] of float-valued or null leaves (overlays included)."""
    out = []

    def go(v, path, depth):
        if depth > 40:
            return
        if isinstance(v, LazyLoopVar):
            v = v.last
        if isinstance(v, DictV):
            for o in v.order:
                if o[0] == "k":
                    go(v.d[o[1]], path + (str(o[1]),), depth + 1)
                else:
                    go(v.reps[o[1]][3], path + ("<each>",), depth + 1)
        elif isinstance(v, ListV):
            for it in v.items:
                item(it, path, depth)
        elif isinstance(v, OpNode):
            for k, x in v.overlay.items():
                go(x, path + (str(k),), depth + 1)
            for k, x in v.kids.items():
                if k not in v.overlay:
                    go(x, path + (str(k),), depth + 1)
        elif type(v) is float or isinstance(v, T) and v.ty == "float":
            out.append(("/".join(path), I.eng.canon(v)))

    def item(it, path, depth):
        if it[0] == "i":
            go(it[1], path + ("[]",), depth + 1)
        elif it[0] == "r":
            for x in it[3]:
                item(x, path + ("[]",), depth)

    go(doc, (), 0)
    return out


def float_problems(I, doc, allow_nan, fc):
    """Rule: with NaN disallowed no float leaf may be of a non-finite class; otherwise
    every stored float that is kept must be passed through."""
    eng = I.eng
    out = []
    seen = set()
    for p, v in doc_floats(I, doc):
        if isinstance(v, T) and v.op == "flt":
            seen.add(v)
        if not allow_nan:
            if type(v) is float:
                bad = v != v or v in (math.inf, -math.inf)
            elif v.op == "flt":
                bad = eng.fclasses(v) != frozenset(["finite"])
                fc = "/".join(sorted(eng.fclasses(v) - {"finite"}))
            else:
                bad = False
            if bad:
                s = eng.fields.get((v.args[0], v.args[1]), [(0, 0, None)])[0][2] if isinstance(v, T) else None
                out.append(Finding("nan-kept", s, "with NaN disallowed, a stored float of class %s stays in the document at %s" % (fc, p)))
    return out, seen


def nan_scenario(keys, prefix, only, allow_nan, fc):
    """Every stored float is of class fc."""

    def run(I, eng, rep):
        cuts.install(I)
        eng.float_class = fc
        mod(I, ARCH)
        registry(I, keys)
        since = len(eng.events)
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only, allow_nan=allow_nan)
        n = expectations(eng, "B0")
        cls = eng.fclasses(T("flt", (), "float"))
        finite = cls == frozenset(["finite"])
        lab = "/".join(sorted(cls))
        fs, kept = float_problems(I, doc, allow_nan, fc)
        stored = {eng.canon(t): s for l in eng.fields.values() for k, t, s in l if k == "flt"}
        rep.obligations += len(stored) + 1
        rep.extra["floats"] = rep.extra.get("floats", 0) + len(stored)
        if (allow_nan or finite) and not has_raw(I, doc, since):
            for t in set(stored) - kept:
                s = stored[t]
                fs.append(Finding("float-changed", s, "a stored float of class %s is not passed through to the document (NaN %s)" % (lab, "allowed" if allow_nan else "disallowed")))
        try:
            doc = to_json(I, doc)
            wr = writer(I, reg)
            method(I, wr, "properties", doc)
            out = method(I, wr, "bytes")
        except AbsRaise as e:
            return fs + [Finding("null-write", e.exc.site, "writing back a document whose floats are %s raises %r" % ("null" if not allow_nan and not finite else lab, e.exc))]
        collect_doc_problems(eng, fs, "")
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, out)), "B0", 0, end)
        if not r.ok:
            fs.append(recon_finding(eng, r, "B0", "floats of class %s: " % lab))
        return fs

    return run


def float_unit(I, eng, rep):
    """FArchiveReader.float/double and FArchiveWriter.float/double alone."""
    name, size = (("float", 4), ("double", 8))[eng.choose(2, "width")]
    allow = eng.choose(2, "NaN allowed / disallowed") == 0
    rd = reader(I, blob(I, "B0"), allow_nan=allow)
    v = method(I, rd, name)
    t = field(eng, "B0", 0, "flt", size)
    rep.obligations += 1
    if t is None:
        return [Finding("?undecided", None, "no float field is read")]
    site = eng.fields[("B0", 0)][0][2]
    m = eng.fclasses(t)
    out = []
    if v is None:
        if allow:
            out.append(Finding("float-changed", site, "a float of class %s is turned into null although NaN is allowed" % "/".join(sorted(m))))
        elif "finite" in m:
            out.append(Finding("float-changed", site, "a finite float may be turned into null"))
    elif v == t:
        if not allow and m & {"nan", "inf", "-inf"}:
            out.append(Finding("nan-kept", site, "a float of class %s is kept although NaN is disallowed" % "/".join(sorted(m - {"finite"}))))
    elif has_unk(v):
        return [Finding("?undecided", site, "value %r" % (v,))]
    else:
        out.append(Finding("float-changed", site, "the stored float is turned into %r" % (v,)))
    try:
        wr = writer(I)
        method(I, wr, name, v)
        b = method(I, wr, "bytes")
    except AbsRaise as e:
        return out + [Finding("null-write", e.exc.site, "writing %s raises %r" % ("null" if v is None else "a float", e.exc))]
    eng.float_class = "nan" if v is None else None
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, size)
    if not r.ok:
        out.append(recon_finding(eng, r, "B0", "%s: " % ("null" if v is None else "float")))
    return out


# ------------------------------------------------------------------ nested settings


def holds(v, pred, depth=0, path=()):
    """Attribute paths under instance v whose value satisfies pred."""
    out = []
    if depth > 3:
        return out
    if isinstance(v, InstanceV):
        for k, x in v.attrs.items():
            if pred(x):
                out.append(path + (k,))
            out += holds(x, pred, depth + 1, path + (k,))
    return out


def get_path(v, path):
    for k in path:
        if not isinstance(v, InstanceV) or k not in v.attrs:
            return None
        v = v.attrs[k]
    return v


def same_table(a, b):
    return isinstance(a, DictV) and isinstance(b, DictV) and not b.reps and not b.poison and list(a.d) == list(b.d) and all(a.d[k] is b.d[k] or a.d[k] == b.d[k] for k in a.d)


def settings_scenario(keys, prefix, only):
    def run(I, eng, rep):
        cuts.install(I)
        eng.float_class = "nan"
        hints = attr(mod(I, TYPES), "PALWORLD_TYPE_HINTS")
        reg = registry(I, list(keys) or ["\x00none"] if False else list(keys))
        if not keys:
            # a codec nothing in this scenario refers to, so that the table is not empty
            reg.set("\x00", eng.own(mklist([None, None], "tuple")))
        out = []
        rd = reader(I, blob(I, "B0"), hints, reg, allow_nan=False)
        ref = reader(I, blob(I, "B1"), hints, reg, allow_nan=True)
        flag = [p for p in holds(rd, lambda x: x is False) if get_path(ref, p) is True] + [p for p in holds(rd, lambda x: x is True) if get_path(ref, p) is False]
        ph = holds(rd, lambda x: same_table(hints, x))
        pc = holds(rd, lambda x: same_table(reg, x))
        if not flag or not ph or not pc:
            return [Finding("?undecided", None, "the reader does not store its settings in a recognisable way")]
        if only is not None:
            codec_guard(I, only)
        try:
            doc = method(I, rd, "properties_until_end", prefix)
        except AbsRaise:
            rep.rejected += 1
            raise Prune()
        for e in list(eng.events):
            if e["kind"] != "nested-read":
                continue
            n, site = e["info"]["reader"], e["info"]["site"]
            rep.obligations += 3
            for p in flag:
                if get_path(n, p) is not get_path(rd, p):
                    out.append(Finding("settings", site, "a nested property list is read without the caller's NaN setting"))
            for paths, table, what in ((ph, hints, "type hints"), (pc, reg, "decoded structures")):
                if not any(same_table(table, get_path(n, p)) for p in paths):
                    out.append(Finding("settings", site, "a nested property list is read without the caller's %s" % what))
        fs, _ = float_problems(I, doc, False, "nan")
        out += [Finding("settings", f.site, "a nested structure is read without the caller's NaN setting: " + f.msg) for f in fs]
        eng.events[:] = [e for e in eng.events if e["kind"] != "nested-read"]
        wr = writer(I, reg)
        pw = holds(wr, lambda x: same_table(reg, x))
        try:
            method(I, wr, "properties", doc)
        except AbsRaise as e:
            return out + [Finding("raises", e.exc.site, "writing raises %r" % (e.exc,))]
        for e in eng.events:
            if e["kind"] == "nested-write" and e["info"]["reader"] is rd:
                rep.obligations += 1
                if pw and not any(same_table(reg, get_path(e["writer"], p)) for p in pw):
                    out.append(Finding("settings", e["site"] if "site" in e else None, "a nested property list is written without the outer writer's codecs"))
        return out

    return run


def file_settings(I, eng, rep):
    """GvasFile.read and write hand their arguments to the archive."""
    cuts.install(I)
    hints = attr(mod(I, TYPES), "PALWORLD_TYPE_HINTS")
    reg = registry(I, registry_keys_of(I)[:2])
    ref = reader(I, blob(I, "B1"), hints, reg, allow_nan=True)
    rd0 = reader(I, blob(I, "B2"), hints, reg, allow_nan=False)
    flag = [p for p in holds(rd0, lambda x: type(x) is bool) if type(get_path(ref, p)) is bool and get_path(ref, p) is not get_path(rd0, p)]
    ph = holds(rd0, lambda x: same_table(hints, x))
    pc = holds(rd0, lambda x: same_table(reg, x))
    if not flag or not ph or not pc:
        return [Finding("?undecided", None, "the reader does not store its settings in a recognisable way")]
    allow = eng.choose(2, "NaN allowed / disallowed") == 0
    pos = eng.choose(2, "settings by position / by keyword") == 0
    if pos:
        f, doc = read_file(I, eng, rep, hints, reg, allow)
    else:
        f, doc = read_file(I, eng, rep, type_hints=hints, custom_properties=reg, allow_nan=allow)
    out = []
    for e in eng.events:
        if e["kind"] != "nested-read":
            continue
        n, site = e["info"]["reader"], e["info"]["site"]
        rep.obligations += 4
        for p in flag:
            if get_path(n, p) is not get_path(ref if allow else rd0, p):
                out.append(Finding("settings", site, "the file's property list is not read with the NaN setting given"))
        for paths, table, what in ((ph, hints, "type hints"), (pc, reg, "structures to decode")):
            if not any(same_table(table, get_path(n, p)) for p in paths):
                out.append(Finding("settings", site, "the file's property list is not read with the %s given" % what))
        if eng.res(e["info"]["path"]) != "":
            out.append(Finding("settings", site, "the file's property list is not read under the root path"))
    wr0 = writer(I, reg)
    pw = holds(wr0, lambda x: same_table(reg, x))
    try:
        method(I, f, "write", reg)
    except AbsRaise as e:
        return out + [Finding("raises", e.exc.site, "writing raises %r" % (e.exc,))]
    for e in eng.events:
        if e["kind"] == "nested-write":
            rep.obligations += 1
            if pw and not any(same_table(reg, get_path(e["writer"], p)) for p in pw):
                out.append(Finding("settings", None, "the file's property list is not written with the codecs given"))
    return out


def registry_keys_of(I):
    return list(attr(mod(I, TYPES), "PALWORLD_CUSTOM_PROPERTIES").d)


# ------------------------------------------------------------------ writing twice


def twice_scenario(keys, prefix, only, modes=("memory", "json")):
    def run(I, eng, rep):
        cuts.install(I)
        mode = modes[eng.choose(len(modes), "document kept in memory / passed through JSON")]
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only)
        n = expectations(eng, "B0")
        fs = []
        if mode == "json":
            doc = to_json(I, doc)
        for i in (1, 2):
            try:
                wr = writer(I, reg)
                method(I, wr, "properties", doc)
                out = method(I, wr, "bytes")
            except AbsRaise as e:
                if i == 1:
                    raise Prune()  # C01/C02 report this
                return [Finding("rewrite", e.exc.site, "writing the document a second time raises %r" % (e.exc,))]
            probs = []
            collect_doc_problems(eng, probs, mode)
            eng.events[:] = [e for e in eng.events if e["kind"] != "doc-problem"]
            r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, out)), "B0", 0, end)
            if not r.ok:
                probs.append(recon_finding(eng, r, "B0"))
            rep.obligations += 1
            if i == 1:
                first = {(p.rule, p.site) for p in probs}
            else:
                for p in probs:
                    if (p.rule, p.site) not in first:
                        p.msg = "the second write differs from the first: " + p.msg
                        p.rule = "rewrite" if p.rule != "?undecided" else p.rule
                        fs.append(p)
        return fs

    return run


def file_twice(I, eng, rep):
    cuts.install(I)
    f, doc = read_file(I, eng, rep)
    if eng.choose(2, "file object / loaded from its document"):
        f = I.call(I.getattr(file_class(I), "load"), [to_json(I, doc)], {})
    end = eng.canon(atom(T("len", ("B0",), "int")))
    out = []
    for i in (1, 2):
        try:
            b = method(I, f, "write")
        except AbsRaise as e:
            if i == 1:
                raise Prune()
            return [Finding("rewrite", e.exc.site, "writing the file a second time raises %r" % (e.exc,))]
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), "B0", 0, end)
        rep.obligations += 1
        if i == 1 and not r.ok:
            raise Prune()
        if not r.ok:
            out.append(recon_finding(eng, r, "B0", "second write: "))
    return out


# ------------------------------------------------------------------ raw fallbacks


def has_raw(I, doc, since):
    """Does the decoded document hold undecoded bytes, or did it come from a give-up path?"""
    eng = I.eng
    if any(e["kind"] == "caught" for e in eng.events[since:]):
        return True
    for t, m in eng.dom.items():
        if m[0] == "notin" and isinstance(t, T) and t.op == "op":
            return True
    ents = []
    shape.collect(I, doc, (), ents)
    for p, l in ents:
        if any(x.startswith("~") for x in p) and (l.kind.startswith("bytes") or l.kind == "part-of-document" and p[-1] == "values"):
            return True
        if l.kind.startswith("bytes"):
            return True
    return False


def fallback_scenario(keys, prefix, only, modes=("memory", "json")):
    def run(I, eng, rep):
        cuts.install(I)
        mode = modes[eng.choose(len(modes), "document kept in memory / passed through JSON")]
        mod(I, ARCH)
        registry(I, keys)
        since = len(eng.events)
        doc, end, reg = read_stream(I, eng, rep, keys, prefix, only)
        if not has_raw(I, doc, since):
            rep.extra["fully decoded"] = rep.extra.get("fully decoded", 0) + 1
            raise Prune()
        rep.extra["fallback partitions"] = rep.extra.get("fallback partitions", 0) + 1
        n = expectations(eng, "B0")
        try:
            if mode == "json":
                doc = to_json(I, doc)
            wr = writer(I, reg)
            method(I, wr, "properties", doc)
            out = method(I, wr, "bytes")
        except AbsRaise as e:
            return [Finding("fallback-raises", e.exc.site, "writing back a document that holds undecoded data (%s) raises %r" % (mode, e.exc))]
        fs = []
        collect_doc_problems(eng, fs, mode)
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, out)), "B0", 0, end)
        rep.obligations += 1 + n + getattr(I, "obligations", 0)
        if not r.ok:
            fs.append(recon_finding(eng, r, "B0"))
        return fs

    return run
