"""The command line tools: event traces of complete runs of main()."""

from .values import *
from .engine import *
from . import models, recon, cuts, scen3
from .runner import Finding
from .scen import *
from .scen2 import same_table, holds, get_path

CONV = "palworld_save_tools.commands.convert"
RESAVE = "palworld_save_tools.commands.resave_test"
YES = ("y", "Y")
ANSWERS = ("y", "n", "Y", "N", "", "yes", "no", "maybe", "yn", " y", "ye", "0", "1")

LATER = ("y", "n", "maybe", "")


def stem(n):
    return T("arg", (n,), "str")


def sym(n, suffix):
    return T("cat", (stem(n), suffix), "str")


NAMES = {
    "sav": ["w.json.d/L.sav", "w.d/L.json.sav", "w.d/L.sav.sav"],
    "json": ["w.sav.d/L.json", "w.d/L.sav.json", "w.d/L.json.json", ".json/savjson.json"],
    "other": ["w.sav.d/L.bin", "w.d/L.json.bak", "w.d/L", "w.d/xsav"],
}
SYM = {"sav": [sym("in", ".sav"), sym("in", ".json.sav")], "json": [sym("in", ".json"), sym("in", ".sav.json")], "other": [sym("in", ".bin"), sym("in", ".json.bak")]}


def kind_of(path):
    s = path if isinstance(path, str) else path.args[-1]
    return "sav" if s.endswith(".sav") else "json" if s.endswith(".json") else "other"


def plus(path, s):
    return scat(path, s)


def minus_json(path):
    if isinstance(path, str):
        return path[:-5]
    return scat(*(list(path.args[:-1]) + [path.args[-1][:-5]]))


def pin_header(eng, b):
    """The payload starts with a header that is accepted."""
    for p, v in ((0, 0x53415647), (4, 3), (after_fstr(eng, b, 26), 3)):
        for signed in (True, False):
            t = eng.int_atom(b, p, 4, signed)
            eng.assume_cmp("==", sub(t if isinstance(t, Lin) else atom(t), v), True)


class World:
    """File system, terminal and JSON model shared by all command line runs."""

    def __init__(self, I, eng, rep):
        self.I, self.eng, self.rep = I, eng, rep
        self.files = {}
        self.docs = {}
        self.written = {}
        self.asked = 0
        self.sources = {}
        self.types = {}

    def config(self):
        return dict(open_hook=self.on_open, json_hook=self.on_dump, json_load_hook=self.on_load, input_hook=self.on_input, unroll="palworld_save_tools.commands", props_depth=0, file_write=self.on_write)

    def install(self, args=None, argv=None):
        I = self.I
        I.config = dict(I.config, **self.config())
        if args is not None:
            I.config["args"] = args
        if argv is not None:
            I.config["argv"] = I.eng.own(mklist(argv))
        cuts.install(I)

    # -- files

    def is_file(self, path):
        from .stdlib import path_pred

        p = path_pred(self.eng, "isfile", path)
        return p if type(p) is bool else self.eng.force(p)

    def on_open(self, I, f):
        mode = f.mode if isinstance(f.mode, str) else "?"
        if not any(c in mode for c in "wax+"):
            if f.path not in self.written and not self.is_file(f.path):
                I.raise_("FileNotFoundError", "no such file")
            if "b" in mode:
                f.info["content"] = self.content(f.path)
        elif "x" in mode:
            from .stdlib import path_pred

            p = path_pred(self.eng, "exists", f.path)
            if p is True or p is not False and self.eng.force(p):
                I.raise_("FileExistsError", "exists")

    def content(self, path):
        """Bytes of an existing file: a valid container around a named payload."""
        if path in self.written:
            return self.written[path]
        if path not in self.files:
            n = "B%d" % len(self.files)
            self.sources[path] = n
            p = scen3.payload(self.I, n)
            self.eng.nonneg(sub(atom(T("len", (n,), "int")), 1))
            ty = T("ctype", (path,), "int")
            self.eng.order.setdefault(ty, len(self.eng.order))
            pin_header(self.eng, n)
            t = 0x31 if self.eng.choose(2, "input compressed once / twice") == 0 else 0x32
            self.types[path] = t
            self.files[path] = BytesV(scen3.layout(self.I, p, t))
        return self.files[path]

    def on_write(self, I, f, v):
        jt = self.I.eng.__dict__.get("jsontexts", {})
        parts = list(v.args) if isinstance(v, T) and v.op == "cat" else [v]
        docs = [p for p in parts if isinstance(p, T) and p in jt]
        rest = all(isinstance(p, str) and not p.strip() for p in parts if p not in docs)
        if docs and len(docs) == 1 and rest and f.path not in self.docs:
            self.docs[f.path] = jt[docs[0]]
            ev = self.I.eng.__dict__.get("jsonevents", {}).get(docs[0])
            if ev is not None:
                ev["file"] = f
            v = T("jsontext", (f.path,), "str")
        elif rest and not docs and f.path in self.docs and isinstance(v, str):
            return
        elif f.path in self.docs:
            del self.docs[f.path]
        self.written[f.path] = v

    # -- JSON

    def on_dump(self, I, name, obj, f, kw, ev):
        copy = to_json(I, obj) if kw.get("cls") is encoder_class(I) and "default" not in kw else models.json_roundtrip(I, obj, kw.get("cls"), default=kw.get("default"))
        ev["copy"] = copy
        if name == "dump":
            if isinstance(f, FileV):
                self.docs[f.path] = copy
                self.written[f.path] = T("jsontext", (f.path,), "str")
            return None
        t = T("jsontext", (len(I.eng.events),), "str")
        I.eng.__dict__.setdefault("jsontexts", {})[t] = copy
        I.eng.__dict__.setdefault("jsonevents", {})[t] = ev
        return t

    def on_load(self, I, f, kw, ev):
        path = f.path if isinstance(f, FileV) else f.args[0] if isinstance(f, T) and f.op == "filetext" else None
        ev["path"] = path
        if path in self.docs:
            return models.copy_value(I, self.docs[path], False, {})
        if path in self.written:
            return T("jsonof", (path,))
        n = "J%d" % len(self.sources)
        self.sources[path] = n
        G = file_class(I)
        e = len(I.eng.events)
        try:
            g = I.call(I.getattr(G, "read"), [blob(I, n)], {})
            d = to_json(I, method(I, g, "dump"))
        except AbsRaise:
            raise Prune()
        self.doc_header = d
        del I.eng.events[e:]
        return d

    # -- terminal

    def on_input(self, I, ev):
        self.asked += 1
        if self.asked > 3:
            raise Prune()
        al = ANSWERS if self.asked == 1 else LATER
        k = I.eng.choose(len(al) + 1, "answer")
        if k == len(al):
            I.raise_("EOFError", "end of input")
        return al[k]


class Run:
    """Outcome and events of one run."""

    def __init__(self, W, call):
        self.W = W
        eng = W.eng
        self.eng = eng
        self.start = len(eng.events)
        self.exc = None
        self.code = 0
        try:
            call()
        except AbsExit as e:
            c = eng.res(e.code)
            self.code = 0 if c is None or c is False or c == 0 else c
            if isinstance(c, str):
                self.code = 1
        except AbsRaise as e:
            self.exc = e.exc
            self.code = 1
        self.ev = eng.events[self.start :]

    def of(self, *kinds):
        return [e for e in self.ev if e["kind"] in kinds]

    def touched(self):
        """Paths opened for writing or otherwise changed."""
        out = []
        for e in self.ev:
            if e["kind"] == "open" and (not isinstance(e["mode"], str) or any(c in e["mode"] for c in "wax+")):
                out.append((e["path"], e))
            elif e["kind"] == "fs-effect":
                for a in e["args"]:
                    out.append((a, e))
        return out


def site(e, fn=None):
    return e.get("site") or e.get("where") or (CONV, fn or "main", 0)


def table(I, name="PALWORLD_CUSTOM_PROPERTIES"):
    return attr(mod(I, TYPES), name)


def exists_fact(eng, path):
    if eng.bools.get(T("p:isfile", (path,), "bool")) is True:
        return True
    return eng.bools.get(T("p:exists", (path,), "bool"))


# ------------------------------------------------------------------ rules


def consent(run, outpath, force, where):
    """C13."""
    eng = run.eng
    out = []
    ask = run.of("input")
    ex = exists_fact(eng, outpath)
    answers = [e.get("answer") for e in ask]
    if ask and (force or ex is False):
        out.append(Finding("consent", (CONV, where, 0), "the user is asked although %s" % ("overwriting was forced" if force else "the output does not exist")))
    yes = bool(answers) and answers[-1] in YES
    opened = [e for p, e in run.touched() if p == outpath]
    if opened and not force and ex is not False:
        if not answers:
            out.append(Finding("consent", (CONV, where, 0), "the output is opened for writing without consent although it %s" % ("exists" if ex else "may exist")))
        else:
            at = run.ev.index(opened[0])
            before = [e for e in run.ev[:at] if e["kind"] == "input"]
            if not before or before[-1].get("answer") not in YES:
                out.append(Finding("consent", (CONV, where, 0), "the output is overwritten after the answer(s) %r" % (answers,)))
    if not opened and answers and run.code == 0:
        out.append(Finding("consent", (CONV, where, 0), "after the answer(s) %r nothing is written but the status is success" % (answers,)))
    return out


def untouched(run, inpath, outpath, where):
    """C14."""
    out = []
    ev = run.ev
    writes = [(p, e) for p, e in run.touched()]
    for p, e in writes:
        if p == inpath:
            out.append(Finding("input-written", (CONV, where, 0), "the input file is opened for writing or changed (%s)" % e.get("mode", e.get("name"))))
        elif p != outpath:
            out.append(Finding("?undecided", (CONV, where, 0), "another file is changed: %r" % (p,)))
    o = [e for p, e in writes if p == outpath]
    if o:
        at = ev.index(o[0])
        for e in ev[at + 1 :]:
            k = e["kind"]
            if k in ("file-read", "json-load", "nested-read", "nested-write", "zlib", "input") or k == "open" and e["path"] != outpath:
                out.append(Finding("early-open", (CONV, where, 0), "the output is opened for writing before the step '%s' that can still fail" % (k + " " + str(e.get("what", "")),)))
                break
        if run.exc is not None or run.code != 0:
            out.append(Finding("early-open", (run.exc.site if run.exc is not None and run.exc.site else (CONV, where, 0)), "the output has been opened for writing when the conversion fails (%r)" % (run.exc or "exit %r" % run.code,)))
    return out


def complete(run, W, direction, inpath, outpath, where, opts=None):
    """The output holds the complete result of converting the input."""
    I, eng = W.I, W.eng
    out = []
    here = (CONV, where, 0)
    for p, e in run.touched():
        m = e.get("mode")
        if p == outpath and e["kind"] == "open" and isinstance(m, str) and not any(c in m for c in "wx"):
            out.append(Finding("conversion", here, "the output is opened with mode %r, which keeps what an older file held" % m))
    if direction == "json":
        d = [e for e in run.of("json-dump", "json-dumps")]
        w = run.of("file-write")
        files = {e["file"].path for e in d if isinstance(e.get("file"), FileV)} | {e["file"].path for e in w}
        if not d:
            return [Finding("conversion", here, "no document is written")]
        if len(d) > 1 or files != {outpath}:
            return [Finding("conversion" if not any(has_unk(f) for f in files) else "?undecided", here, "the document is written to %r instead of %r" % (sorted(map(str, files)), outpath))]
        n = W.sources.get(inpath)
        if n is None:
            return [Finding("conversion", here, "the input %r is not read" % (inpath,))]
        e = len(eng.events)
        try:
            g = I.call(I.getattr(file_class(I), "load"), [models.copy_value(I, d[0]["copy"], False, {})], {})
            b = method(I, g, "write")
        except AbsRaise as x:
            return [Finding("conversion", x.exc.site, "the document written cannot be loaded again: %r" % (x.exc,))]
        r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, b)), n, 0, eng.canon(atom(T("len", (n,), "int"))))
        del eng.events[e:]
        if not r.ok:
            out.append(Finding("conversion" if r.kind != "undecided" else "?undecided", here, "the document written is not that of the input: " + r.msg))
        return out
    w = run.of("file-write")
    if not w:
        return [Finding("conversion", here, "no save is written")]
    if len(w) > 1 or w[0]["file"].path != outpath:
        return [Finding("conversion" if len(w) == 1 else "?undecided", here, "the save is written to %r instead of %r" % ([e["file"].path for e in w], outpath))]
    if "b" not in str(w[0]["file"].mode):
        return [Finding("conversion", here, "the save is written in text mode")]
    n = W.sources.get(inpath)
    if n is None:
        return [Finding("conversion", here, "the input %r is not read" % (inpath,))]
    e = len(eng.events)
    try:
        v = scen3.pair(eng, I.call(scen3.fn(I, "decompress_sav_to_gvas"), [models.to_bytes_value(I, w[0]["value"])], {}))
    except AbsRaise as x:
        return [Finding("conversion", here, "the save written is no valid container: %r" % (x.exc,))]
    finally:
        del eng.events[e:]
    r = recon.reconcile(eng, eng.segs_of(models.to_bytes_value(I, v[0])), n, 0, eng.canon(atom(T("len", (n,), "int"))))
    if not r.ok:
        out.append(Finding("conversion" if r.kind != "undecided" else "?undecided", here, "the save written is not that of the input: " + r.msg))
    run.save_type = eng.canon(v[1])
    return out


def save_type(run, W):
    """C22."""
    I, eng = W.I, W.eng
    doc = W.doc_header
    name = models.getitem(I, models.getitem(I, doc, "header"), "save_game_class_name")
    world = I.truth(I.compare("In", "Pal.PalWorldSaveGame", name)) or I.truth(I.compare("In", "Pal.PalLocalWorldSaveGame", name))
    want = 0x32 if world else 0x31
    if run.save_type != want:
        return [Finding("save-type", (CONV, "convert_json_to_sav", 0), "a %s save is written with compression type %r" % ("world" if world else "non-world", run.save_type))]
    return []


# ------------------------------------------------------------------ scenarios

FLAGS = ("--to-json", "--from-json", "--output", "--force", "--convert-nan-to-null", "--custom-properties", "--minify-json")


def main_run(I, eng, rep, args):
    eng.raise_forks = False
    W = World(I, eng, rep)
    W.install(args)
    m = mod(I, CONV)
    f = attr(m, "main")
    W.rep = rep
    run = Run(W, lambda: I.call(f, [], {}))
    pa = run.of("parse_args")
    if not pa:
        raise AnchorError("main parses no arguments")
    return W, run, pa[0]["chosen"]


def expected(ch):
    """(direction or None for a refusal, default output)."""
    name = ch["#0"]
    tj, fj = ch.get("--to-json"), ch.get("--from-json")
    if tj and fj:
        return None, None
    k = kind_of(name)
    d = "json" if tj else "sav" if fj else {"sav": "json", "json": "sav"}.get(k)
    if d is None:
        return None, None
    o = ch.get("--output")
    if o is None:
        o = plus(name, ".json") if d == "json" else minus_json(name) if k == "json" else plus(name, ".sav")
    return d, o


OUT = "o.d/result.json.sav.bin"


def directions(rules, names, force=(False, True), outputs=(None, OUT)):
    """Every direction option, name, output option and force setting."""

    def run(I, eng, rep):
        W, r, ch = main_run(I, eng, rep, {"--to-json": [False, True], "--from-json": [False, True], "#0": names, "--output": list(outputs), "--force": list(force)})
        name = ch["#0"]
        d, outpath = expected(ch)
        out = []
        rep.obligations += 1
        isf = eng.bools.get(T("p:isfile", (name,), "bool"))
        ex = eng.bools.get(T("p:exists", (name,), "bool"))
        missing = isf is False or ex is False
        where = {"json": "convert_sav_to_json", "sav": "convert_json_to_sav", None: "main"}[d]
        desc = ", ".join("%s=%r" % x for x in ch.items())
        if "direction" in rules:
            if d is None or missing:
                if r.code == 0:
                    out.append(Finding("direction", (CONV, "main", 0), "success is reported although %s (%s)" % ("no direction can be decided" if d is None else "the input file is missing or no file", desc)))
                for p, e in r.touched():
                    out.append(Finding("direction", (CONV, "main", 0), "%r is changed although nothing should be converted (%s)" % (p, desc)))
            elif r.exc is not None:
                if r.exc.cls.name not in ("EOFError",):
                    out.append(Finding("direction", r.exc.site or (CONV, "main", 0), "the conversion fails with %r (%s)" % (r.exc, desc)))
            elif r.code == 0:
                out += complete(r, W, d, name, outpath, where)
                for p, e in r.touched():
                    if p != outpath:
                        out.append(Finding("direction" if not has_unk(p) else "?undecided", (CONV, "main", 0), "%r is changed, expected is %r (%s)" % (p, outpath, desc)))
            elif not r.of("input"):
                out.append(Finding("direction", (CONV, "main", 0), "the conversion is refused with status %r (%s)" % (r.code, desc)))
        if "consent" in rules and d is not None and not missing:
            out += consent(r, outpath, ch.get("--force"), where)
        if "untouched" in rules and d is not None:
            out += untouched(r, name, outpath, where)
        if "complete" in rules and d is not None and not missing and r.code == 0 and r.exc is None:
            out += complete(r, W, d, name, outpath, where)
        if "save-type" in rules and d == "sav" and not missing and r.code == 0 and r.exc is None:
            if not [f for f in complete(r, W, d, name, outpath, where)]:
                out += save_type(r, W)
        return out

    return run


def api(rules, direction, fail=False):
    """The conversion functions called directly."""

    def run(I, eng, rep):
        W = World(I, eng, rep)
        W.install()
        m = mod(I, CONV)
        fname = "convert_sav_to_json" if direction == "json" else "convert_json_to_sav"
        f = attr(m, fname)
        force = (None, False, True)[eng.choose(3, "force not given / False / True")]
        kw = {} if force is None else {"force": force}
        i, o = "w.d/in", "w.d/out"
        eng.bools[T("p:exists", (i,), "bool")] = True
        eng.bools[T("p:isfile", (i,), "bool")] = True
        why = None
        if fail:
            why = failing(I, W, direction)
        else:
            eng.raise_forks = False
        r = Run(W, lambda: I.call(f, [i, o], kw))
        rep.obligations += 1
        out = []
        if "consent" in rules:
            out += consent(r, o, bool(force), fname)
        if "untouched" in rules:
            out += untouched(r, i, o, fname)
        if "reported" in rules and r.code == 0 and r.exc is None:
            made = [p for p, e in r.touched() if p == o]
            if direction == "sav" or not made:
                out.append(Finding("silent-failure", (CONV, fname, 0), "unusable input (%s) is not reported as a failure%s" % (why, "" if made else ": nothing is written and the conversion ends normally")))
        if "complete" in rules and r.code == 0 and r.exc is None:
            out += complete(r, W, direction, i, o, fname)
        if "complete" in rules and r.exc is not None and not fail and r.exc.cls.name != "EOFError":
            out.append(Finding("conversion", r.exc.site, "the conversion of a valid file fails: %r" % (r.exc,)))
        return out

    return run


def failing(I, W, direction):
    """Arbitrary input bytes, or a document whose loading or encoding fails."""
    eng = I.eng
    if direction == "json":
        orig = W.content

        def content(path):
            if path in W.written:
                return W.written[path]
            W.sources[path] = "F"
            return blob(I, "F")

        W.content = content
        return "arbitrary bytes"
    else:
        what = ("JSON that does not parse", "a document without header", "a property list that cannot be written", "a document without trailer")
        k = eng.choose(4, "JSON does not parse / header missing / property list cannot be written / trailer missing")
        orig_load = W.on_load

        def on_load(I2, f, kw, ev):
            if k == 0:
                I.raise_("JSONDecodeError", "no JSON")
            d = orig_load(I2, f, kw, ev)
            if k == 1:
                return I.eng.own(DictV())
            if k == 3:
                d.d.pop("trailer", None)
                d.order = [x for x in d.order if x != ("k", "trailer")]
            return d

        I.config["json_load_hook"] = on_load
        if k == 2:

            def bad(I2, fn, args, kw):
                I.raise_("Exception", "unknown property type")

            I.cuts[(cuts.ARCH, "FArchiveWriter.properties")] = bad
        return what[k]


def api_selection(I, eng, rep):
    """The selection given to the conversion function itself."""
    W = World(I, eng, rep)
    W.install()
    eng.raise_forks = False
    full = table(I)
    keys = list(full.d)
    a, b = keys[0], keys[-1]
    sel = [None, ["all"], [], [a], [b, a], ["nope"], ["nope", b]]
    want = [keys, keys, [], [a], [a, b], [], [b]]
    n = eng.choose(len(sel), "selection %r" % (sel,))
    for p in ("w.d/in",):
        eng.bools[T("p:exists", (p,), "bool")] = True
        eng.bools[T("p:isfile", (p,), "bool")] = True
    kw = {"force": True}
    if sel[n] is not None:
        kw["custom_properties_keys"] = eng.own(mklist(list(sel[n])))
    r = Run(W, lambda: I.call(attr(mod(I, CONV), "convert_sav_to_json"), ["w.d/in", "w.d/out"], kw))
    here = (CONV, "convert_sav_to_json", 0)
    rep.obligations += 1
    if r.exc is not None or r.code:
        return [Finding("conversion", (r.exc.site if r.exc is not None else None) or here, "the conversion with the selection %r fails: %r" % (sel[n], r.exc or r.code))]
    out = []
    ev = r.of("nested-read")
    if not ev:
        return [Finding("?undecided", here, "no property list is read")]
    for e in ev:
        for x in codec_tables(e["info"]["reader"]):
            if sorted(map(str, x.d)) != sorted(want[n]) or any(x.d[k] is not full.d[k] for k in want[n]):
                out.append(Finding("selection", here, "selecting %r decodes %r" % (sel[n], list(x.d))))
    return out


def options(rules):
    """minify, NaN conversion and the selection of structures."""
    def run(I, eng, rep):
        keys = list(table(I).d)
        a, b = keys[0], keys[-1]
        sel = [None, "all", a, b, "%s,%s" % (b, a), "%s, %s" % (a, b), "nope", "", "nope,%s" % a]
        want = [keys, keys, [a], [b], [a, b], [a, b], [], [], [a]]
        W, r, ch = main_run(I, eng, rep, {"#0": ["w.d/in.sav"], "--minify-json": [False, True], "--convert-nan-to-null": [False, True], "--custom-properties": sel, "--force": [True]})
        rep.obligations += 3
        out = []
        name = ch["#0"]
        if eng.bools.get(T("p:isfile", (name,), "bool")) is False or eng.bools.get(T("p:exists", (name,), "bool")) is False:
            raise Prune()
        desc = ", ".join("%s=%r" % x for x in ch.items())
        if r.exc is not None or r.code:
            return [Finding("conversion", (r.exc.site if r.exc is not None else None) or (CONV, "main", 0), "the conversion fails: %r (%s)" % (r.exc or r.code, desc))]
        dumps = r.of("json-dump", "json-dumps")
        nan = ch.get("--convert-nan-to-null")
        if not dumps:
            return [Finding("conversion", (CONV, "convert_sav_to_json", 0), "no document is written")]
        kw = dumps[0]["kw"]
        if "--minify-json" not in ch or "--convert-nan-to-null" not in ch or "--custom-properties" not in ch:
            return [Finding("options", (CONV, "main", 0), "an option is gone: have %s" % (sorted(ch),))]
        indent = kw.get("indent")
        if "minify" in rules and (indent is None) is not bool(ch["--minify-json"]):
            out.append(Finding("options", (CONV, "convert_sav_to_json", 0), "minify=%r gives indent %r" % (ch["--minify-json"], indent)))
        if "nan" in rules:
            out += nan_rule(I, r, kw, nan)
        if "selection" in rules:
            full = table(I)
            i = sel.index(ch["--custom-properties"])
            for e in r.of("nested-read"):
                t = codec_tables(e["info"]["reader"])
                for x in t:
                    if x is None or sorted(map(str, x.d)) != sorted(want[i]) or any(x.d[k] is not full.d[k] for k in want[i] if k in x.d):
                        out.append(Finding("selection", (CONV, "convert_sav_to_json", 0), "selecting %r decodes %r" % (ch["--custom-properties"], None if x is None else list(x.d))))
        if "hints" in rules:
            ref = table(I, "PALWORLD_TYPE_HINTS")
            for e in r.of("nested-read"):
                if not holds(e["info"]["reader"], lambda x: same_table(ref, x)):
                    out.append(Finding("options", (CONV, "convert_sav_to_json", 0), "the save is not read with the known type hints"))
        return out

    return run


def nan_rule(I, r, kw, nan):
    out = []
    here = (CONV, "convert_sav_to_json", 0)
    ref = reader(I, blob(I, "R1"), allow_nan=True)
    ref0 = reader(I, blob(I, "R2"), allow_nan=False)
    flag = [p for p in holds(ref0, lambda x: type(x) is bool) if type(get_path(ref, p)) is bool and get_path(ref, p) is not get_path(ref0, p)]
    if not flag:
        return [Finding("?undecided", here, "the reader's NaN setting is not recognisable")]
    for e in r.of("nested-read"):
        for p in flag:
            if get_path(e["info"]["reader"], p) is not get_path(ref0 if nan else ref, p):
                out.append(Finding("nan-option", here, "with NaN conversion %s the save is read with NaN %s" % ("on" if nan else "off", "allowed" if nan else "disallowed")))
    an = kw.get("allow_nan", True)
    if not nan and an is False:
        out.append(Finding("nan-option", here, "without NaN conversion the JSON output refuses NaN"))
    return out


def codec_tables(rd):
    """The codec table(s) a reader or writer holds: dicts of (decode, encode) pairs."""
    out = []
    if isinstance(rd, InstanceV):
        for k, v in rd.attrs.items():
            if isinstance(v, DictV) and "custom" in k:
                out.append(v)
    return out


def back(I, eng, rep):
    """JSON to save: every known codec is available to the writer."""
    W, r, ch = main_run(I, eng, rep, {"#0": ["w.d/in.json"], "--force": [True]})
    name = ch["#0"]
    if eng.bools.get(T("p:isfile", (name,), "bool")) is False or eng.bools.get(T("p:exists", (name,), "bool")) is False:
        raise Prune()
    if r.exc is not None or r.code:
        return [Finding("conversion", (r.exc.site if r.exc is not None else None) or (CONV, "main", 0), "converting back fails: %r" % (r.exc or r.code,))]
    out = []
    full = table(I)
    ws = r.of("nested-write")
    rep.obligations += len(full.d)
    if not ws:
        return [Finding("?undecided", (CONV, "convert_json_to_sav", 0), "no property list is written")]
    for e in ws:
        ts = codec_tables(e["writer"])
        for t in ts:
            for k in full.d:
                if k not in t.d or t.d[k] is not full.d[k]:
                    out.append(Finding("selection", (CONV, "convert_json_to_sav", 0), "a document holding %r cannot be converted back: its codec is not given to the writer" % k))
                    break
    return out


def resave(I, eng, rep):
    """C25."""
    eng.raise_forks = False
    W = World(I, eng, rep)
    n = eng.choose(4, "number of arguments")
    inp = sym("in", ".sav")
    argv = ["prog"] + [inp, "x", "y"][:n]
    W.install(argv=argv)
    f = attr(mod(I, RESAVE), "main")
    here = (RESAVE, "main", 0)
    if n == 1:
        eng.bools[T("p:exists", (inp,), "bool")] = True
        eng.bools[T("p:isfile", (inp,), "bool")] = True
    wrote = []
    other = n == 1 and eng.choose(2, "same / other compression type") == 1

    def on_write(I2, fl, v):
        # whatever was produced, the resaved file holds some payload Q
        if "b" in str(fl.mode):
            wrote.append(fl.path)
            ty = W.types.get(inp, 0x31)
            W.written[fl.path] = BytesV(scen3.layout(I, scen3.payload(I, "Q"), (0x63 - ty) if other else ty))
        else:
            W.on_write(I2, fl, v)

    I.config["file_write"] = on_write
    r = Run(W, lambda: I.call(f, [], {}))
    rep.obligations += 1
    out = []
    if n != 1:
        if r.code == 0:
            out.append(Finding("resave", here, "success is reported for %d arguments" % n))
        if r.touched():
            out.append(Finding("resave", here, "a file is changed for %d arguments" % n))
        return out
    if r.of("input"):
        # an older result exists: the prompt of the converter
        if r.code or r.exc is not None:
            return out
    for p, e in r.touched():
        if p == inp:
            out.append(Finding("resave", here, "the input file is opened for writing"))
    if r.exc is not None:
        return out + [Finding("resave", r.exc.site or here, "the command fails with %r" % (r.exc,))]
    w = [e for e in r.of("file-write") if "b" in str(e["file"].mode)]
    if r.code == 0:
        d = [e for e in r.of("json-dump", "json-dumps") if isinstance(e.get("file"), FileV)]
        l = r.of("json-load")
        if not d or not l or not w:
            return out + [Finding("resave", here, "success is reported without converting to JSON and back")]
        if l[-1].get("path") != d[-1]["file"].path:
            out.append(Finding("resave", here, "the JSON converted back (%r) is not the one produced (%r)" % (l[-1].get("path"), d[-1]["file"].path)))
    if W.sources.get(inp) is None:
        return out + [Finding("resave", here, "the input is not what is converted")]
    if not wrote:
        return out + ([] if r.code else [Finding("resave", here, "no save is produced")])
    same = I.truth(I.compare("Eq", blob(I, W.sources[inp]), blob(I, "Q"))) and not other
    if r.code == 0 and not same:
        out.append(Finding("resave", here, "success is reported although the resaved data differs or was not compared"))
    if r.code != 0 and same:
        out.append(Finding("resave", here, "failure (%r) is reported although the resaved data is identical" % (r.code,)))
    return out
