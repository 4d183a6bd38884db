"""The checks: one function per property, each returning a Result."""

import json
import os

from .values import *
from .engine import *
from .interp import Source
from .runner import explore, Finding
from . import runner, scen, scen2, fmt
from .scen import AnchorError

CHECKS = {}


class Result:
    def __init__(self):
        self.findings = []
        self.reports = []
        self.errors = []
        self.rules = []
        self.assumptions = []
        self.extra = {}

    def add(self, rep, keep=None):
        self.reports.append(rep)
        for f in rep.findings:
            if keep is None or keep(f):
                self.findings.append(f)
                runner.FOUND = True
        return rep


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f

    return deco


A_AVAIL = "Reads are analysed with enough input left; a read past the end of input is a rejection (the truncation rules are checked separately)."
A_CANON = "Input is canonical where the format has redundancy: flags are 0 or 1, a present rotator component is non-zero, strings are stored in the narrowest encoding, property names within one list are distinct, declared sizes and reserved fields hold their format values."
A_PACKED = "The quantised vector is used through a contract (reader and writer are inverse on what the game stores)."
A_NESTED = "A nested property list is used through the contract that the top-level one is analysed against (structural induction on nesting depth)."
A_RAW = "Properties with a registered codec have the container shape it is registered for (byte array, struct array or map)."
A_LOOP = "A loop is summarised by one generic iteration."


def require_decided(res, rep, minimum):
    if rep.ok + rep.bad < minimum:
        res.errors.append("%s: only %d of %d partitions could be decided (minimum %d)" % (rep.name, rep.ok + rep.bad, rep.partitions, minimum))


SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "format.json")


def load_spec():
    with open(SPEC) as f:
        return json.load(f)


def codecs(src, res, minimum=14):
    try:
        keys = scen.registry_keys(src)
    except (AbsRaise, Undecided) as e:
        raise AnchorError("the table of codecs cannot be loaded: %s" % e)
    res.extra["codecs"] = keys
    return keys


def short(k):
    return k


def prefix_of(k):
    return k.rsplit(".", 1)[0]


def site_of_group(src, name):
    return None


def format_findings(res, rep, name, only_accept=False):
    """Compare the recorded format of scenario `name` with the shapes in rep."""
    spec = load_spec()["shapes"].get(name)
    if spec is None:
        return
    if rep.undecided:
        # shapes of undecided partitions are unknown: only a complete picture is judged
        return
    probs, n = fmt.check(spec, scen.shape_entries(rep))
    rep.obligations += n
    for g, x, w, lost in probs:
        if only_accept and not lost:
            continue
        res.findings.append(Finding("accepted" if lost else "format", (name, g or "document", 0), "%s%s" % (w, (" [%s]" % ", ".join("%s=%r" % y for y in x.items())) if x else ""), scenario=name))


@check("C01")
def c01(src, tier):
    res = Result()
    res.rules = ["Each emitted byte segment must be the input field found at that position (provenance), or a size, count or reserved field with the value the layout prescribes; every supported kind stays accepted."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_LOOP]
    rep = res.add(explore(src, "generic property list", lambda I, e, r: scen.roundtrip(I, e, r)))
    require_decided(res, rep, 20)
    format_findings(res, rep, "generic", True)
    cli_json(src, res)
    return res


def cli_json(src, res):
    """The JSON library is used so that the document comes back as it was."""
    from . import scen7

    rep = res.add(explore(src, "conversions", scen7.cli_json))
    require_decided(res, rep, 4)


def string_finding(f):
    return f.rule == "bytes" and ("fstr read by" in f.msg or "fsenc(" in f.msg)


@check("C02")
def c02(src, tier):
    res = Result()
    res.rules = ["Each byte segment emitted by a codec must be the input field found at that position in the blob it decoded."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP]
    for k in codecs(src, res):
        rep = res.add(explore(src, k, lambda I, e, r, k=k: scen.roundtrip(I, e, r, [k], prefix_of(k), only=k)))
        require_decided(res, rep, 1)
        format_findings(res, rep, k, True)
    return res


@check("C08")
def c08(src, tier):
    res = Result()
    res.rules = ["The bytes written for a file object, its dumped document and that document after JSON must be the input bytes [0, end), by provenance; on every accepted path the magic, save version and custom version format are pinned to their constants."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_LOOP]
    rep = res.add(explore(src, "whole file", scen.file_roundtrip))
    require_decided(res, rep, 3)
    rep2 = res.add(explore(src, "whole file, document", scen.file_shape_scenario))
    format_findings(res, rep2, "file", True)
    cli_json(src, res)
    return res


@check("C21")
def c21(src, tier):
    res = Result()
    res.rules = ["Every recorded document shape (field path, wire field kind and width, wire order, discriminator values) must be covered by the shapes the current source produces; recorded type hints and codec paths must still be present."]
    res.assumptions = [A_AVAIL, A_NESTED, A_RAW, A_LOOP, "The reference is the format recorded from the pinned tree in spec/format.json."]
    for name, rep in shape_reports(src):
        res.add(rep)
        require_decided(res, rep, 1)
        format_findings(res, rep, name)
    spec = load_spec()
    for t in ("PALWORLD_TYPE_HINTS", "PALWORLD_CUSTOM_PROPERTIES"):
        cur = scen.const_table(src, t)
        for k, v in spec["tables"][t].items():
            res.extra["table entries"] = res.extra.get("table entries", 0) + 1
            if k not in cur:
                res.findings.append(Finding("format", (scen.TYPES, t, 0), "the entry for %r is gone" % k))
            elif v is not None and cur[k] != v:
                res.findings.append(Finding("format", (scen.TYPES, t, 0), "%r is now read as %r instead of %r" % (k, cur[k], v)))
    return res


def shape_reports(src, only=None):
    yield "generic", explore(src, "generic property list", scen.shape_scenario())
    yield "file", explore(src, "whole file", scen.file_shape_scenario)
    for k in scen.registry_keys(src):
        yield k, explore(src, k, scen.shape_scenario([k], prefix_of(k), k))


def per_codec(src, res, mk, generic=True, minimum=0, filt=None, **kw):
    """mk(keys, prefix, only) -> scenario; run for the generic list and every codec."""
    if generic:
        rep = res.add(explore(src, "generic property list", mk([], "", None), stop=not filt, **kw), *([filt] if filt else []))
        require_decided(res, rep, minimum)
    for k in codecs(src, res):
        rep = res.add(explore(src, k, mk([k], prefix_of(k), k), stop=not filt, **kw), *([filt] if filt else []))
        require_decided(res, rep, minimum)


@check("C03")
def c03(src, tier):
    res = Result()
    res.rules = ["Every byte of a decoded blob must be reproduced, from the document, at its position by the encoder; a byte that is not has been dropped."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP]
    per_codec(src, res, lambda k, p, o: lambda I, e, r: [f for f in scen.roundtrip(I, e, r, k, p, only=o, modes=("memory",)) if f.rule != "raises"], generic=False, minimum=1)
    return res


@check("C04")
def c04(src, tier):
    res = Result()
    res.rules = ["On every path where the document holds undecoded bytes, where decoding gave up, or where a tag is outside the known ones, the written bytes must be the input bytes (provenance)."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP]
    per_codec(src, res, scen2.fallback_scenario, generic=False)
    n = sum(r.extra.get("fallback partitions", 0) for r in res.reports)
    res.extra["fallback partitions"] = n
    if n < 20:
        res.errors.append("only %d fallback partitions found" % n)
    return res


@check("C09")
def c09(src, tier):
    from . import scen5, scen7

    res = Result()
    res.rules = [
        "Every value in the document of an accepted save is one the encoder turns into JSON, every key is a string, and the document that comes back from JSON is written as the one in memory is.",
        "Identifiers are emitted as the text of the equivalent standard UUID; the options given to the JSON library keep order, numbers and text.",
    ]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP, A_CLI]
    for name, sc, n in (("whole file", scen7.json_file, 1), ("strings", scen7.string_is_text, 2), ("conversions", scen7.cli_json, 4)):
        rep = res.add(explore(src, name, sc))
        require_decided(res, rep, n)
    for name, cfg in scen5.ID_CONFIGS:
        rep = res.add(explore(src, "identifiers, " + name, scen5.id_json, cfg))
        require_decided(res, rep, 2)
    per_codec(src, res, scen7.json_doc, minimum=1)
    return res


@check("C10")
def c10(src, tier):
    res = Result()
    res.rules = ["With NaN disallowed no float leaf of the document may be NaN or infinite and finite floats pass through; with NaN allowed every float passes through; a null float is written as NaN."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP, "Structures are analysed with all stored floats of one class (NaN, infinite, finite) at a time."]
    rep = res.add(explore(src, "float readers and writers", scen2.float_unit))
    require_decided(res, rep, 4)
    for allow in (False, True):
        per_codec(src, res, lambda k, p, o: scen2.nan_scenario(k, p, o, allow, frozenset(["nan", "inf", "-inf", "finite"])))
    rep = res.add(explore(src, "file settings", scen2.file_settings), lambda f: "NaN" in f.msg)
    from . import scen4

    rep = res.add(explore(src, "NaN option", scen4.options({"nan"})))
    require_decided(res, rep, 10)
    return res


@check("C19")
def c19(src, tier):
    res = Result()
    res.rules = ["The bytes of a second write of the same document object must be the input bytes wherever the first write's are (provenance)."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_PACKED, A_LOOP]
    rep = res.add(explore(src, "whole file", scen2.file_twice))
    require_decided(res, rep, 1)
    per_codec(src, res, scen2.twice_scenario, minimum=1)
    return res


@check("C20")
def c20(src, tier):
    res = Result()
    res.rules = ["Every nested property list must be read by a reader holding the caller's NaN setting, type hints and codec table, and written by a writer holding the outer codec table; no nested float escapes the NaN setting."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_RAW, A_LOOP]
    rep = res.add(explore(src, "file settings", scen2.file_settings))
    require_decided(res, rep, 1)
    per_codec(src, res, scen2.settings_scenario)
    return res


@check("C06")
def c06(src, tier):
    from . import scen5, scen8

    res = Result()
    res.rules = ["For a document whose lists, strings, raw bytes and ids were replaced by fresh symbols, each property size, array and map count, inner size and byte count that is written must equal the symbolic length or count of what is written after it; no number that is written may be a size or count of the data that was read."]
    res.assumptions = [A_AVAIL, A_NESTED, A_RAW, A_LOOP]
    rep = res.add(explore(src, "whole file, edited", scen8.edited_file))
    require_decided(res, rep, 1)
    sizes = lambda f: "the length reported" in f.msg or "written as i32" in f.msg
    res.add(explore(src, "lists", scen8.lists))
    rep = res.add(explore(src, "string lengths", scen5.strings), sizes)
    require_decided(res, rep, 4)
    per_codec(src, res, lambda k, p, o: scen8.edited(k, p, o), minimum=1)
    return res


@check("C07")
def c07(src, tier):
    res = Result()
    res.rules = ["Decompressing the container term built by compress must give back the payload term; header slices equal the lengths, magic and type; for each family of malformed header (field value constrained to differ from the content) every path must raise."]
    res.assumptions = ["zlib.decompress inverts zlib.compress and raises on data that is no zlib stream.", "Lengths fit the 32-bit header fields."]
    from . import scen3

    rep = res.add(explore(src, "compress then decompress", scen3.compose))
    require_decided(res, rep, 4)
    rep = res.add(explore(src, "malformed containers", scen3.malformed))
    require_decided(res, rep, 20)
    return res


A_CLI = "Paths, arguments and answers are analysed over the listed alternatives plus symbolic file stems; files, terminal, argparse and json are modelled; the property list inside a file is used through its contract (C01)."


def cli(src, res, rules, names=None, **kw):
    from . import scen4

    for what, tab in (("concrete names", scen4.NAMES), ("symbolic names", scen4.SYM)):
        rep = res.add(explore(src, "command line, " + what, scen4.directions(rules, [n for k in tab for n in tab[k]], **kw)))
        require_decided(res, rep, 20)


@check("C13")
def c13(src, tier):
    from . import scen4

    res = Result()
    res.rules = ["On every path to an open-for-writing of the output: the output is known not to exist, or force is set, or the last answer was yes; no prompt on other paths; refusal ends with a failure status."]
    res.assumptions = [A_CLI]
    for d in ("json", "sav"):
        rep = res.add(explore(src, "conversion to %s called directly" % d, scen4.api({"consent"}, d)))
        require_decided(res, rep, 10)
    for what, names in (("sav", ["w.d/in.sav"]), ("json", ["w.d/in.json"])):
        rep = res.add(explore(src, "command line, %s input" % what, scen4.directions({"consent"}, names)))
        require_decided(res, rep, 10)
    return res


@check("C14")
def c14(src, tier):
    from . import scen4

    res = Result()
    res.rules = ["No reading, decoding, loading or encoding step and no failing path comes after the output is opened for writing; a path on unusable input does not end as a success; the input is never opened for writing; what is written reconciles with the input."]
    res.assumptions = [A_CLI]
    for d in ("json", "sav"):
        rep = res.add(explore(src, "conversion to %s" % d, scen4.api({"untouched", "complete"}, d)))
        require_decided(res, rep, 3)
        rep = res.add(explore(src, "conversion to %s of unusable input" % d, scen4.api({"untouched", "reported"}, d, True)))
        require_decided(res, rep, 3)
    cli(src, res, {"untouched"}, force=(True,), outputs=(None, "o.d/out"))
    return res


@check("C15")
def c15(src, tier):
    from . import scen4

    res = Result()
    res.rules = ["For every combination of direction options, file name, output and force: the one expected conversion runs from the given file to the expected path, or a failure status without touching any file; minify, NaN and selection options reach the conversion."]
    res.assumptions = [A_CLI]
    cli(src, res, {"direction"}, force=(True,))
    rep = res.add(explore(src, "options", scen4.options({"minify", "nan", "selection", "hints"})))
    require_decided(res, rep, 10)
    res.add(explore(src, "selection given to the function", scen4.api_selection))
    rep = res.add(explore(src, "command line, force", scen4.directions({"direction", "consent"}, ["w.d/in.sav", "w.d/in.json"])))
    require_decided(res, rep, 10)
    return res


@check("C22")
def c22(src, tier):
    from . import scen4

    res = Result()
    res.rules = ["The compression type of the written container is 0x32 exactly on the paths where the class name contains one of the world save classes, else 0x31."]
    res.assumptions = [A_CLI]
    rep = res.add(explore(src, "JSON to save", scen4.directions({"save-type"}, ["w.d/in.json"], force=(True,), outputs=(None,))))
    require_decided(res, rep, 3)
    return res


@check("C25")
def c25(src, tier):
    from . import scen4

    res = Result()
    res.rules = ["The exit status is success exactly on the paths where the payload of the input equals the payload of the file just produced, after dumping and loading the JSON in between; other argument counts fail."]
    res.assumptions = [A_CLI]
    rep = res.add(explore(src, "resave test", scen4.resave))
    require_decided(res, rep, 4)
    return res


@check("C11")
def c11(src, tier):
    from . import scen5

    res = Result()
    res.rules = ["Text, standard form, written bytes, equality and hash of an identifier over 16 symbolic bytes are computed as byte permutations and must agree, for each implementation of the class."]
    res.assumptions = ["The accelerated class has the constructor and hash its decorator generates."]
    for name, cfg in scen5.ID_CONFIGS:
        rep = res.add(explore(src, "identifiers, " + name, scen5.ids, cfg))
        require_decided(res, rep, 8)
    return res


@check("C12")
def c12(src, tier):
    from . import scen5

    res = Result()
    res.rules = ["The bytes written for a string read from symbolic input must be those bytes (length prefix, content, terminator), per encoding; every path with a short read must raise."]
    res.assumptions = ["Strings are stored in the narrowest encoding with a terminator.", "bytes.decode and str.encode with the same codec and error handler are inverse on what they accept."]
    rep = res.add(explore(src, "strings", scen5.strings))
    require_decided(res, rep, 4)
    rep = res.add(explore(src, "truncated strings", scen5.truncated))
    require_decided(res, rep, 4)
    # the strings of whole documents reach the string writer as they were read
    res.add(explore(src, "whole file", scen.file_roundtrip), string_finding)
    per_codec(src, res, lambda k, p, o: lambda I, e, r: scen.roundtrip(I, e, r, k, p, only=o, modes=("memory",)), filt=string_finding)
    return res


@check("C17")
def c17(src, tier):
    from . import scen4, scen6

    res = Result()
    res.rules = ["With stand-in codecs under chosen paths: a codec runs exactly for the property whose full path is its key, gets that property's type, size and path, is the one that encodes it again, and the rest is written back as read; the selection option reaches the reader's codec table and every codec is there when converting back."]
    res.assumptions = [A_AVAIL, A_CANON, A_NESTED, A_LOOP, A_CLI]
    rep = res.add(explore(src, "dispatch to codecs", scen6.dispatch))
    require_decided(res, rep, 100)
    rep = res.add(explore(src, "selection option", scen4.options({"selection"})))
    require_decided(res, rep, 10)
    rep = res.add(explore(src, "selection given to the function", scen4.api_selection))
    require_decided(res, rep, 5)
    rep = res.add(explore(src, "converting back", scen4.back))
    require_decided(res, rep, 1)
    rep = res.add(explore(src, "file settings", scen2.file_settings), lambda f: "NaN" not in f.msg)
    return res


@check("C18")
def c18(src, tier):
    from . import scen6

    res = Result()
    res.rules = ["On every accepted reading path each type name that was read is pinned to a finite set of names; writing raises for a type or tag constrained to lie outside the known ones; a codec raises for a property kind other than its own."]
    res.assumptions = [A_AVAIL, A_NESTED, A_LOOP, "Maps are analysed with at least one entry."]
    rep = res.add(explore(src, "types read", scen6.unknown_read))
    require_decided(res, rep, 20)
    rep = res.add(explore(src, "types written", scen6.unknown_write))
    require_decided(res, rep, 6)
    for k in codecs(src, res):
        rep = res.add(explore(src, k, scen6.unknown_codec(k)))
        require_decided(res, rep, 1)
    return res


@check("C16")
def c16(src, tier):
    from . import scen5, scen6

    res = Result()
    res.rules = ["No path of reading, writing or converting changes an object that existed before it (module and class attributes, parameter defaults, tables passed in) except the document itself, calls a cached function that holds state, or lets a clock, random source, object identity, string hash or set order reach the document or the bytes."]
    res.assumptions = [A_AVAIL, A_NESTED, A_RAW, A_LOOP, A_CLI]
    for name, sc, n in (("whole file", scen6.file_effects, 1), ("container", scen6.container_effects, 2), ("conversions", scen6.cli_effects, 4)):
        rep = res.add(explore(src, name, sc))
        require_decided(res, rep, n)
    for name, cfg in (("standard library", {}), ("accelerated", {"recordclass": True})):
        rep = res.add(explore(src, "generic property list, " + name, scen6.effects(), cfg))
        require_decided(res, rep, 20)
    rep = res.add(explore(src, "strings", scen6.string_effects))
    require_decided(res, rep, 2)
    for name, cfg in scen5.ID_CONFIGS:
        rep = res.add(explore(src, "identifiers, " + name, scen6.id_effects, cfg))
    for n in scen6.SMALL:
        res.add(explore(src, "reader." + n, scen6.primitive_effects(n)))
    per_codec(src, res, scen6.effects, generic=False, minimum=1)
    return res


@check("C29")
def c29(src, tier):
    from . import py39, scen5, scen7
    from .runner import Report

    res = Result()
    res.rules = [
        "Every source file parses with the grammar of Python 3.9, evaluates no union type, and uses no library name, argument or f-string form newer than 3.9 outside a guard.",
        "Every module outside the standard library is imported only where its absence is tolerated; loading each module, reading, writing and converting succeed with the standard library alone.",
        "FORCE_STDLIB_ONLY selects the identifier class that is not built by a third-party module.",
    ]
    res.assumptions = ["Library names are compared with a recorded list of what was added after Python 3.9.", A_NESTED, A_LOOP]
    rep = Report("syntax trees of the package and the scripts")
    total = {}
    mods = []
    for top in ("palworld_save_tools", "scripts"):
        base = os.path.join(src.repo, top)
        for root, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(root, f)
                with open(p, encoding="utf8") as fh:
                    text = fh.read()
                sc = py39.Scan(p, text, lambda m: m.split(".")[0] in ("palworld_save_tools", "scripts"))
                found = sc.run()
                name = os.path.relpath(p, src.repo)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                if top == "palworld_save_tools" and not any(x[2] == "syntax" for x in found):
                    mods.append(name)
                rep.partitions += 1
                rep.obligations += sum(sc.counts.values())
                rep.ok += not found
                for k, v in sc.counts.items():
                    total[k] = total.get(k, 0) + v
                for line, fn, rule, msg in found:
                    rep.keep(Finding(rule, (name, fn, line), msg, (), rep.name))
    res.add(rep)
    res.extra["scanned"] = total
    if rep.partitions < 5:
        res.errors.append("only %d source files found" % rep.partitions)
    if any(f.rule == "syntax" for f in rep.findings):
        return res
    for m in mods:
        for label, cfg in (("absent", {"stdlib_only": True}), ("present", {"recordclass": True}), ("forced", {"recordclass": True, "env": {"FORCE_STDLIB_ONLY": "1"}})):
            r = res.add(explore(src, "import of %s, recordclass %s" % (m, label), scen7.imports(m), cfg, parallel=False))
            if label == "absent":
                require_decided(res, r, 1)
    if res.findings:
        return res
    for v in ("1", "true", "yes"):
        r = res.add(explore(src, "identifier class, FORCE_STDLIB_ONLY=%s" % v, scen7.forced(False), {"recordclass": True, "env": {"FORCE_STDLIB_ONLY": v}}, parallel=False))
        require_decided(res, r, 1)
    cfg = {"stdlib_only": True}
    r = res.add(explore(src, "conversions", scen7.cli_runs, cfg))
    require_decided(res, r, 2)
    r = res.add(explore(src, "generic property list", scen7.runs([], "", None), cfg))
    require_decided(res, r, 20)
    for k in codecs(src, res):
        res.add(explore(src, k, scen7.runs([k], prefix_of(k), k), cfg))
    return res


ABS = "abstract interpretation of the source (byte-provenance domain, trace partitioning, loop summaries)"
SOUND = "Sound for every field value within each partition under the assumptions listed in the evidence; partitions the analysis cannot decide are listed there and raise no alarm."
TECHNIQUE = {
    "C01": (ABS + ": writer output segments reconciled with reader input fields", SOUND + " Nested lists are used by contract (induction on depth), loops by a generic iteration."),
    "C02": (ABS + ": encoder output reconciled with the decoded blob, per codec and variant", SOUND + " The quantised vector and nested property lists are used by contract."),
    "C03": (ABS + ": coverage of every byte of a decoded blob by what the encoder reproduces", SOUND),
    "C04": (ABS + ": fallback paths (undecoded bytes, caught failures, unknown tags) reconciled with the input", SOUND),
    "C06": (ABS + ": size and count fields of the bytes written for an edited document compared with the symbolic extent that follows", SOUND + " Edits are modelled by replacing list lengths, strings and raw bytes by fresh symbols."),
    "C07": (ABS + " of the container functions: term equality for the round trip, a raising obligation per malformed header family", SOUND + " zlib is modelled by its inverse law."),
    "C08": (ABS + ": whole-file round trip through dump, JSON, load and write", SOUND + " The property list itself is used by contract (C01)."),
    "C09": (ABS + ": type and key lattice of document leaves at the JSON boundary plus round trip through a model of the JSON encoder", SOUND),
    "C10": (ABS + ": float class (NaN, infinite, finite) propagation to document leaves and back", SOUND + " All stored floats of a structure take one class at a time."),
    "C11": (ABS + ": identifier methods as byte permutations over 16 symbolic bytes, both class variants", SOUND),
    "C12": (ABS + ": string reader and writer over symbolic content per encoding; short-read typestate", SOUND),
    "C13": (ABS + " with an event model of files and terminal: consent typestate on every path to an open for writing", SOUND),
    "C14": (ABS + " with an event model of files: order of failing steps and the open for writing on every path", SOUND),
    "C15": (ABS + " of main over the option space with an event model of files and argparse", SOUND),
    "C16": ("effect analysis: event traces of reads and writes (mutation of shared tables, defaults, class state; clock, randomness, hash order) plus a syntax-tree scan of every module for such effects", "Events are recorded on every analysed path; the scan covers the remaining functions syntactically."),
    "C17": (ABS + ": dispatch of a property list against symbolic registries, and the selection option traced to the reader's and writer's codec tables", SOUND),
    "C18": (ABS + ": a raising obligation for each discriminator constrained to lie outside the supported set", SOUND),
    "C19": (ABS + ": second write of the same document object reconciled with the input", SOUND),
    "C20": (ABS + ": settings held by every nested reader and writer compared with the caller's", SOUND),
    "C21": (ABS + ": document shape (field path, wire kind, wire order, discriminators) compared with the recorded format", "Decides names, sources, widths, signedness, order and acceptance of every recorded field; the reference is the format recorded from the pinned tree."),
    "C22": (ABS + " of the conversion to a save: compression type per class-name partition", SOUND),
    "C25": (ABS + " of the resave command with an event model of files: exit status against payload equality", SOUND),
    "C29": ("syntax-tree and import-graph analysis: grammar of Python 3.9, guarded third-party imports, class selection under FORCE_STDLIB_ONLY", "Syntactic for the grammar and the import graph; names used from the standard library are compared with a recorded list."),
}
