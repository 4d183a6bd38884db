#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are edited here)."""
import json, os

A = "palworld_save_tools/archive.py"
G = "palworld_save_tools/gvas.py"
S = "palworld_save_tools/palsav.py"
T = "palworld_save_tools/paltypes.py"
J = "palworld_save_tools/json_tools.py"
C = "palworld_save_tools/commands/convert.py"
R = "palworld_save_tools/commands/resave_test.py"
RAW = "palworld_save_tools/rawdata/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


p("C01", "Generic Unreal properties survive reading and writing byte for byte",
  "For every well-formed property list, of every supported property type, array element type, map key/value type and struct type, at any nesting depth, reading it and writing the resulting document back yields exactly the bytes that were read. This holds whether the document is kept in memory or passed through JSON, and for properties with and without an attached id.",
  ["inputs"], "every property list the reader accepts: all property kinds, element kinds, optional ids, all field values, any number of elements",
  "The tests resave a few sample saves and hand-made values; a wrong width, signedness, order or branch for a kind or an optional id that the samples lack goes unseen.",
  [A], [("property list reader", "FArchiveReader.properties_until_end, property, array_property, struct"), ("property list writer", "FArchiveWriter.properties, property_inner, array_property, struct")], ["bytes produced by the writer"])
p("C02", "Every Palworld-specific binary codec writes back exactly what it read",
  "For each binary structure the tool decodes beyond plain Unreal properties (groups, characters, containers, items, map objects and their modules, foliage, base camps, work), decoding a blob into a document and encoding that document again, directly or after a JSON round trip, reproduces the blob byte for byte. This holds for every variant the decoder accepts: each group type, each work type, each module type, each kind of item, optional parts present or absent.",
  ["inputs"], "every blob the decoder accepts, over all variant tags, optional parts, list lengths and field values",
  "The test saves contain only some variants, and the round trip is compared on these few files only.",
  [RAW, T], [("decode/encode pairs", RAW + "*.py"), ("registration of the pairs", T + ": PALWORLD_CUSTOM_PROPERTIES")], ["bytes of the raw-data array written back"])
p("C03", "No byte of a decoded blob is silently dropped",
  "Whenever the tool decodes a Palworld-specific blob, every byte of it ends up in the document, as a decoded field or as raw data, or the decode fails with an error. Bytes left over after the known fields are never thrown away silently.",
  ["inputs"], "every blob, including ones longer than the structure the decoder knows",
  "Test data has no trailing bytes beyond the known structures; dropping them is invisible until a newer game version adds a field.",
  [RAW], [("end-of-data checks after each decode", RAW + "*.py: reader.eof() tests"), ("trailing / unknown byte fields", RAW + "*.py: trailing_bytes, unknown_bytes, leading_bytes")], ["document returned by decode", "bytes written back"])
p("C04", "Structures that are not understood are kept verbatim and written back",
  "When a blob belongs to a variant the tool does not know or cannot decode (unknown module, work, item or map object type, or a blob that does not parse), it is either kept as raw bytes in the document and written back unchanged, or reading fails loudly. A raw fallback is always written back by the same path that produced it, without loss, also after a JSON round trip.",
  ["inputs"], "every variant tag outside the known ones, every blob for which decoding gives up",
  "The sample saves only contain known variants, so the fallback branches are never taken in tests.",
  [RAW], [("raw fallbacks", RAW + "base_camp_module.py, map_concrete_model.py, map_concrete_model_module.py, dynamic_item.py, work.py"), ("their encoders", "same files, encode_bytes")], ["document returned by decode", "bytes written back"])
p("C06", "Written sizes and counts always match the content actually written",
  "Every size and element-count field in written output equals the real extent of what follows it, for any document including edited ones: lists lengthened or shortened, strings changed in length, optional ids added or removed. This covers property sizes, array and map counts, inner struct-array sizes and the byte counts of re-encoded blobs.",
  ["inputs"], "every document of valid shape, in particular documents whose lists, strings and ids differ from what was read",
  "Tests only write back unedited documents, where copying a stale size or count from the document gives the same bytes.",
  [A, RAW], [("sizes measured from the written buffer", "FArchiveWriter.property, property_inner, array_property"), ("codecs rebuild the byte array from encoded bytes", RAW + "*.py: encode")], ["size and count fields of the written bytes"])
p("C07", "The compressed container is lossless, and malformed containers are refused",
  "Compressing any payload with either supported compression type and decompressing the result returns the same payload and type, and the header stores the uncompressed length, the length after one compression pass, the magic and the type. Decompression returns data only if magic, compression type and both stored lengths agree with the content, whether or not the container is wrapped in a chunk header; everything else raises an error.",
  ["inputs"], "every payload and both compression types; every container header field value",
  "Tests use a handful of containers and a few malformed headers; each header field can take billions of values.",
  [S], [("compress", "compress_gvas_to_sav"), ("decompress and validation", "decompress_sav_to_gvas")], ["return value or exception"])
p("C08", "Save header, class name, versions and trailer survive the JSON round trip",
  "For every save file that is accepted, the header fields, custom version list, class name, property list and trailing bytes that are read are all present in the dumped document, and loading that document and writing it reproduces the file byte for byte. A file with a wrong magic, save version or custom version format is rejected when read.",
  ["inputs"], "all header field values, any number of custom versions, any trailing bytes",
  "Tests use one or two headers with fixed values.",
  [G], [("header read/load/dump/write", "GvasHeader"), ("file read/load/dump/write", "GvasFile")], ["document", "written bytes"])
p("C09", "Every document the reader produces can be expressed in JSON without loss",
  "The document for any accepted save consists only of values that the JSON output represents and that come back from JSON in a form the writer accepts with the same meaning; no byte strings, non-string keys or other types leak into it. Identifiers are emitted in their canonical text form.",
  ["inputs"], "all documents for all accepted saves, for generic properties and every binary codec",
  "A value of a type that JSON cannot represent shows up only if the branch producing it is executed by a sample.",
  [A, RAW, J], [("readers return JSON-like values", A), ("identifier encoding", J + ": CustomEncoder")], ["json.dump of the document"])
p("C10", "Disallowing NaN yields documents without NaN or infinity that stay writable",
  "With NaN conversion requested, no NaN or infinite float appears anywhere in the document (each becomes null), every finite float is kept unchanged, and a null float is accepted when writing and becomes NaN. Without the option, every float value, including NaN and infinities, is passed through unchanged.",
  ["inputs", "configurations"], "every float and double field of every structure, at any nesting, for both settings of the option",
  "Tests have no NaN or infinite values in their samples.",
  [A, RAW, C], [("NaN filter in the float readers", "FArchiveReader.float, double"), ("null handling in the float writers", "FArchiveWriter.float, double"), ("option handed to nested readers", "FArchiveReader.internal_copy")], ["document", "written bytes"])
p("C11", "Identifier text, bytes and equality agree in both implementations",
  "For every 16-byte identifier, its text form parsed back gives the same 16 bytes, its text equals that of the equivalent standard UUID, and writing the identifier object, its text or the standard UUID emits the same bytes. Two identifiers compare equal exactly when their bytes are equal, an identifier equals its own text form, and equal identifiers hash equally (in the standard-library implementation also like their text form); this holds for the standard-library implementation and the optional accelerated one alike.",
  ["inputs", "configurations"], "all 2^128 identifiers, both implementations of the identifier class",
  "Tests sample a few identifiers, and only the implementation that happens to be installed.",
  [A], [("identifier classes", "UUID (two definitions)"), ("identifier writer", "uuid_writer")], ["text, bytes, equality, hash"])
p("C12", "Strings keep their content and encoding; truncated strings are refused",
  "Every string read from a save and written back occupies the same bytes: empty, ASCII and wide strings, including text with unpaired surrogates, keep their length prefix, content and terminator. A string whose declared length runs past the end of the data raises an error instead of returning a shortened value.",
  ["inputs"], "all canonical strings of any length in either encoding; every truncation point",
  "Tests use a few strings; odd content (unpaired surrogates) and truncations are combinatorial.",
  [A], [("string reader", "FArchiveReader.fstring"), ("string writer", "FArchiveWriter.fstring")], ["bytes, value or exception"])
p("C13", "An existing output file is never overwritten without consent",
  "In either direction, if the output path exists, it is written only when overwriting was forced or the user answered yes to a prompt; any other answer is asked again or ends the program with a failure status and the file untouched. Nothing is asked when the output does not exist or overwriting was forced.",
  ["inputs", "configurations", "histories"], "both directions, any path, force on and off, output existing or not, every sequence of answers",
  "Tests replace the prompt or force overwriting; answer sequences and flag combinations are not enumerated.",
  [C], [("existence test and prompt", "convert_sav_to_json, convert_json_to_sav, confirm_prompt")], ["files opened for writing, exit status"])
p("C14", "A failed conversion leaves the output and the input files untouched",
  "If the input cannot be read, decompressed, parsed, loaded or (when producing a save) encoded, no output file is created, truncated or modified. The input file is never opened for writing, and the output receives the complete result of the conversion and nothing else. A conversion that fails says so (an exception or a failure status); it never ends as a success that produced nothing.",
  ["inputs", "fault_sequences"], "every failure point of the reading, decoding and encoding steps, both directions",
  "Failure points are many and tests only run successful conversions.",
  [C], [("output opened only after conversion", "convert_sav_to_json, convert_json_to_sav")], ["files opened for writing"])
p("C15", "The command line runs the requested direction with the requested options",
  "Without a direction option, the file extension decides the direction; an explicit direction option always wins, and both at once, a missing file, a non-file, or an undecidable direction end with a failure status without converting. Exactly one conversion runs, on the given file, writing to the given output or else the default path (input plus .json; input minus .json, or plus .sav), and every option (force, minify, NaN conversion, custom properties) takes effect as given.",
  ["inputs", "configurations"], "all combinations of options and file names",
  "Tests run two or three combinations out of the option space.",
  [C], [("argument parsing and dispatch", "main"), ("conversion entry points", "convert_sav_to_json, convert_json_to_sav")], ["which conversion runs with which arguments, exit status"])
p("C16", "Conversions are deterministic and independent of each other",
  "The result of reading or writing depends only on the input bytes or document and the options given: not on earlier conversions in the same process, on clocks, randomness or hash order. Reading and writing modify no shared tables, defaults or class-level state.",
  ["histories", "inputs"], "every sequence of conversions in one process",
  "Tests convert each sample once in a fresh state; leaks through shared state need specific histories.",
  [A, RAW, G, S, T, C], [("no module-level mutable state; defaults never mutated", "all modules")], ["results of repeated conversions"])
p("C17", "Choosing which structures to decode never changes the rest or the result",
  "Only the selected structures are decoded, with their own codec and under their own path; the others are read as plain properties and still written back byte for byte. Any selection, including none, 'all' and names that do not exist, is honoured, and a document made with any selection can be converted back.",
  ["configurations", "inputs"], "every subset of the known structures, for every save",
  "There are 2^14 selections; tests use one or two.",
  [C, A, T], [("selection", "convert_sav_to_json"), ("dispatch on the path", "FArchiveReader.property, FArchiveWriter.property_inner")], ["document", "bytes written back"])
p("C18", "Unknown or malformed data is rejected loudly, never guessed or skipped",
  "A property type, array element type, map key or value type, or property kind handed to a binary codec that the tool does not support makes reading and writing raise an error, as does a custom structure tag unknown to the writer. The reader never skips such data, returns partial results or invents values for it.",
  ["inputs"], "every type name outside the supported ones, in every position where a type name is expected, when reading and when writing",
  "Tests contain only supported types.",
  [A, RAW], [("else-branches that raise", "FArchiveReader.property/prop_value/array_value, FArchiveWriter counterparts"), ("type checks in the codecs", RAW + "*.py: decode/encode")], ["exception"])
p("C19", "Writing never depends on whether the document was written before",
  "Writing the same document object a second time gives the same bytes as the first time. This holds for documents from the reader and from JSON, and for every structure in them.",
  ["histories", "inputs"], "all documents for all accepted saves, written repeatedly",
  "Tests write each document once.",
  [A, RAW, G], [("encoders work on the document passed in", RAW + "*.py: encode"), ("file writer", "GvasFile.write")], ["bytes of the first and the second write"])
p("C20", "Nested structures are read and written with the caller's settings",
  "NaN handling, type hints and the set of decoded structures given for a file apply to every nested structure inside it at any depth, including property lists embedded in binary blobs. When writing, property lists nested in structs, arrays and maps are written with the same set of codecs as the outer one.",
  ["inputs", "configurations"], "every place where a nested reader or writer is created, all settings",
  "Tests use default settings, where a nested reader with default settings behaves the same.",
  [A, RAW], [("nested readers", "FArchiveReader.internal_copy and its callers"), ("nested writers", "FArchiveWriter.copy and its callers")], ["document", "bytes written"])
p("C21", "The document format is stable: saves and documents of today stay readable",
  "Every save accepted today is still accepted, and yields a document with the same field names, in the same places, holding the same values of the same wire fields (type, width, signedness) under the same conditions. New fields may appear, but a field never changes its name, meaning or source.",
  ["inputs"], "all accepted saves, every field of every structure and variant",
  "A reader and writer changed consistently (renamed or swapped fields, other signedness) still round-trip, and the tests check few field values.",
  [A, RAW, G, T], [("field names and readers", A + " and " + RAW), ("type hints for map keys and values", T)], ["document"])
p("C22", "A converted save gets the compression type its class requires",
  "When a document is converted to a save, the container uses the double-compression type (0x32) exactly when the save class name in the document contains Pal.PalWorldSaveGame or Pal.PalLocalWorldSaveGame, and the single-compression type (0x31) otherwise. The container stores the written document and nothing else.",
  ["inputs"], "every class name, every document",
  "Tests convert saves of two or three classes; the game refuses a save of the wrong type.",
  [C, S], [("choice of the type", "convert_json_to_sav"), ("container", "compress_gvas_to_sav")], ["type byte and payload of the written file"])
p("C25", "The resave test reports success exactly when the resaved data is identical",
  "The resave command exits successfully only after converting the given save to JSON, converting that JSON back to a save and finding the compression type and the decompressed content of original and resaved file equal; otherwise it exits with a failure status. It compares the original input with the file just produced, never a file with itself, and does not modify the input.",
  ["inputs", "configurations"], "every input save, every argument list, equal and different outcomes",
  "The existing tests run it on saves that do round-trip, so a test that always reports success passes.",
  [R], [("compare and exit status", "resave_test.main")], ["exit status, files opened"])
p("C29", "The package runs on Python 3.9 with the standard library alone",
  "Every module imports and works with only the standard library of Python 3.9 or newer: third-party modules are optional, their absence is tolerated everywhere, and no syntax or annotation newer than 3.9 is evaluated. Forcing the standard-library mode selects the standard-library implementation.",
  ["configurations"], "presence or absence of each optional module, every module of the package, Python 3.9 up",
  "The tests run on one interpreter with one set of installed packages.",
  ["palworld_save_tools/", "scripts/"], [("guarded optional import", A + " (recordclass)"), ("requires-python", "pyproject.toml")], ["import of each module"])

p("C30", "Quantised vectors keep their exact bits through reading and writing",
  "For every quantised vector the game stores, reading it to floats and writing it again gives the same bits: same component width, scale flag and component values.",
  ["inputs"], "all component widths (1 to 63 bits), scales and component values",
  "Only a few sampled vectors are tested out of a huge numeric space.",
  [A], [("packed vector reader/writer", "FArchiveReader.packed_vector, FArchiveWriter.packed_vector")], ["bytes written"])
p("C31", "Conversion terminates with memory proportional to the decompressed size",
  "Converting any input terminates, and needs time and memory bounded by a constant factor of the decompressed size; a declared count or length larger than the data that follows fails early instead of allocating.",
  ["inputs"], "every input, including hostile counts and compression ratios",
  "Resource use depends on sizes that no sample set can cover.",
  [A, S], [("reads bounded by the data", "FArchiveReader")], ["time and memory"])
p("C32", "The decoded fields mean what the game means by them",
  "Names, types and units of decoded fields agree with the game's own serialisation for the supported game version, so that an edited save is accepted by the game as intended.",
  ["inputs"], "all structures of the supported game version",
  "Only the game itself can tell.",
  [RAW], [("reverse-engineered layouts", RAW)], ["behaviour of the game"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
