#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json; a property is claimed when jobs.py has jobs for it
import json, os
D = os.path.dirname(os.path.abspath(__file__))
jobs = json.load(open(os.path.join(D, "jobs.json")))
P, NA = [], {}
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Exactly the JSON texts of RFC 8259 are accepted",
  "Valid, SkipRaw and every skipping read accept a text exactly when it is one JSON value of RFC 8259 (with whitespace around it where the entry point consumes a whole text), whatever its nesting. A skipping read that succeeds leaves the iterator exactly behind the value, and one aimed at a particular kind of value accepts only that kind.",
  "inputs", "every byte string, every nesting depth",
  "the tests sample a few hundred texts; the grammar's errors hide in specific byte combinations and at nesting depths that are multiples of the bit-stack's word size",
  "standard_compatible.go iterator_skip.go iterator_skip_number.go iterator_skip_str.go iterator_skip_array.go iterator_skip_object.go stack.go",
  [("skip functions table indexed by first byte", "iterator_skip.go"), ("explicit bit stack instead of recursion", "stack.go")],
  ["Valid", "Iterator.Skip*", "Iterator.Skip then NextValueType"])
p("C02", "Decoding without a type yields the value the text denotes",
  "Decoding into interface{} (or []interface{}, map[string]interface{}), by any entry point, succeeds exactly on the texts of RFC 8259 and yields the value the text denotes: null, booleans, float64 (json number when asked for), strings, arrays in order and objects with the last of duplicate members. Nothing of an earlier value of the target or an earlier decode shows in the result.",
  "inputs histories", "every text, every entry point",
  "the tests compare a few documents with encoding/json",
  "iterator_read.go iterator_read_array.go iterator_read_object.go node.go standard_compatible.go decoder.go val_decoder_native_interface.go",
  [("non-recursive reader with a stack of nodes", "iterator_read_array.go, iterator_read_object.go, node.go")],
  ["Unmarshal", "UnmarshalFromString", "UnmarshalFromReader", "Decoder.Decode", "Iterator.Read", "Iterator.ReadVal"])
p("C03", "String literals decode to exactly the characters they denote",
  "Reading a string, by any entry point (value, member name, slice or append variant), succeeds exactly on a JSON string literal and yields its characters with every escape replaced by the UTF-8 of what it denotes, surrogate pairs combined and lone surrogates replaced by U+FFFD. The result does not depend on where the reads of the underlying reader fall.",
  "inputs", "every string literal, every split of the input between reads",
  "escapes, surrogates and buffer boundaries combine; the tests sample a few of each",
  "iterator_str.go iterator_skip_str.go iterator_object.go convert.go",
  [("readEscapedChar, readU4", "iterator_str.go")],
  ["Iterator.ReadString", "ReadStringAsSlice", "ReadStringAndAppend", "ReadObjectBegin/More", "Unmarshal into string"])
p("C04", "Integers are read exactly or rejected as out of range",
  "Reading an integer of any width and sign, as a value, a quoted value or a map key, yields exactly the number written when it fits the type, and an error when it does not fit or the text is no integer; it never wraps. Texts with leading zeros, a bare sign, a sign on an unsigned type, a fraction or an exponent are not decoded as integers.",
  "inputs", "every digit sequence, every width",
  "overflow is decided by per-width digit arithmetic; the tests try a handful of values next to the limits",
  "iterator_int.go iterator_int8.go iterator_int16.go iterator_int32.go iterator_int64.go val_decoder_native_int.go val_decoder_native_uint.go val_decoder_native_map.go",
  [("overflow tests in readUintN/readIntN", "iterator_int*.go")],
  ["Iterator.ReadInt8..ReadUint64", "Unmarshal into integers, ,string fields, map keys"])
p("C05", "Floats and json numbers keep the literal they were written as",
  "Reading a number as float32 or float64 yields the correctly rounded value of exactly the literal in the input, and reading it as a number type yields exactly its characters; a value that overflows is an error. Both accept exactly the number grammar of RFC 8259 (or what the quoted form allows) and stop right behind the literal, wherever the reads of the underlying reader fall.",
  "inputs", "every number literal, every split between reads",
  "the tests try a few dozen literals",
  "iterator_float.go iterator_float32.go iterator_float64.go iterator_number.go number.go val_decoder_native_float.go val_decoder_json_number.go",
  [("fast path for short decimals, slow path copies the literal", "iterator_float32.go, iterator_float64.go")],
  ["Iterator.ReadFloat32/64", "ReadNumber", "Unmarshal into float32, float64, json.Number"])
p("C06", "Integers are written as their decimal form",
  "Writing an integer of any width and sign, as a value, a quoted value or a map key, produces its shortest decimal form, so that reading it back gives the same number.",
  "inputs", "every value of every integer type",
  "digit-group arithmetic goes wrong for particular values only; 64-bit values cannot be enumerated",
  "streamer_int.go val_encoder_native_int.go val_encoder_native_uint.go val_encoder_native_map.go",
  [("digit groups of three from a table", "streamer_int.go")],
  ["Streamer.Int8..Uint64", "Marshal"])
p("C07", "Strings are written as literals that denote the same characters",
  "Writing any string, as a value, a member name, a map key or the result of a text marshaler, produces a valid JSON string literal which denotes the same characters, with invalid UTF-8 replaced by U+FFFD and U+2028/U+2029 escaped. Where HTML escaping is on, <, > and & are escaped as well; where it is off they are written as they are.",
  "inputs configurations", "every byte string, both escaping modes",
  "the tests sample strings; table and UTF-8 handling errors show for single bytes or sequences at particular positions",
  "streamer_str.go val_encoder_native.go val_encoder_text_marshaler.go val_encoder_native_struct.go",
  [("safe-character tables and rune decoding", "streamer_str.go")],
  ["Streamer.String", "Streamer.Field", "Marshal of strings, maps, structs"])
p("C08", "Floats are written as the shortest literal that reads back the same",
  "Writing a finite float32 or float64 produces the number literal encoding/json produces for it, and NaN and infinities are an error with nothing silently written in their place.",
  "inputs", "every float32 and float64",
  "exponent clean-up depends on the value; the tests sample values",
  "streamer_float.go val_encoder_native_float.go",
  [("format selection and exponent clean-up", "streamer_float.go")],
  ["Streamer.Float32/64", "Marshal"])
p("C09", "Reading from a stream does not depend on how the bytes arrive",
  "Reading through an io.Reader gives the same values, errors (up to their kind) and positions as reading the same bytes at once, however the reader splits them, including empty reads and data together with EOF. A Decoder yields the sequence of values in the stream, and More, Buffered and InputOffset tell exactly what is left and how far it got.",
  "inputs histories fault_sequences", "every text, every split into reads, every reader failure",
  "tests use a few fixed chunkings; boundaries inside tokens, buffers and captures are what breaks",
  "iterator.go decoder.go iterator_object.go iterator_array.go iterator_null.go iterator_bool.go",
  [("readMore refills the buffer and keeps what is captured", "iterator.go")],
  ["Decoder.Decode/More/Buffered/InputOffset", "Iterator.ResetReader"],
  [("head/tail/offset", "window of the buffer and its place in the stream", "iterator.go")])
p("C10", "A captured raw value is exactly the value's bytes",
  "Reading a value raw (SkipRaw, AppendRaw, json.RawMessage targets, values handed to UnmarshalJSON) yields exactly the bytes of that value, from its first to its last, whatever is read before and after, however long it is and wherever the reads fall. What is documented as a copy (ReadRaw, AppendRaw, json.RawMessage) stays the same when the iterator goes on reading or is reused and when the caller overwrites the input it was read from.",
  "inputs histories", "every value, every split into reads",
  "captures interact with refills at 64 and 512 bytes; tests have few captures over readers",
  "iterator_raw.go iterator.go val_decoder_json_rawmessage.go val_decoder_json_unmarshaler.go",
  [("capture flag makes readMore append instead of overwrite", "iterator.go, iterator_raw.go")],
  ["Iterator.SkipRaw", "AppendRaw", "Unmarshal/Decode into json.RawMessage"])
p("C11", "The pull API reads the same document in every style",
  "NextValueType tells the kind of the next value without consuming it, and a document walked with the array and object functions, the callback functions, the readers of single values or skips gives the same members, elements and values in the same order as reading it at once; malformed separators, missing names or trailing commas are errors in each style. The readers for null, booleans and strings accept exactly that kind.",
  "inputs", "every text, every way to walk it",
  "tests walk a few small documents",
  "iterator.go iterator_array.go iterator_object.go iterator_null.go iterator_bool.go value_type.go iterator_skip.go",
  [("ReadArrayBegin/More, ReadObjectBegin/More, CB variants", "iterator_array.go, iterator_object.go")],
  ["Iterator.ReadArray*", "ReadObject*", "NextValueType", "ReadBool", "ReadNull"])
p("C12", "Objects decode into the struct fields their names select",
  "Decoding an object into a struct stores each member into the field encoding/json's naming rules select (exact name first, else case-insensitive fold, tags, embedded structs, duplicate-name hiding), leaves every other field unchanged and skips unknown members. With unknown fields disallowed an unknown member is an error, with case sensitivity only exact names match, and null leaves the struct unchanged.",
  "inputs configurations", "every object, every struct shape, every option",
  "three different decoders exist depending on the number of fields; folding has special Unicode cases",
  "val_decoder_native_struct.go val_decoder_native_struct_one_field.go val_decoder_native_struct_small.go struct.go struct_field.go struct_field_fold.go struct_tag.go",
  [("one-field, small and general struct decoders", "val_decoder_native_struct*.go"), ("fold functions", "struct_field_fold.go")],
  ["Unmarshal into structs"])
p("C13", "Containers decode to exactly the elements in the text",
  "Decoding into slices, arrays, maps, pointers, []byte and interfaces gives what encoding/json documents: slices get exactly the elements in order, arrays are filled and zeroed or surplus skipped, maps keep their other entries, nil pointers are allocated, []byte takes base64, null clears what can be nil, and an interface holding a non-nil pointer is decoded into. A text of another kind is an error.",
  "inputs histories", "every text, every previous content of the target",
  "previous contents, lengths around capacities and element kinds combine",
  "val_decoder_native_slice.go val_decoder_native_array.go val_decoder_native_map.go val_decoder_native_ptr.go val_decoder_native_interface.go val_decoder_native.go",
  [("reflect and unsafe slice/map access", "val_decoder_native_*.go, link_reflect.go")],
  ["Unmarshal into slices, arrays, maps, pointers, interfaces"])
p("C14", "A streamer writes what it was told, in order and well-formed",
  "A sequence of correctly nested streamer calls produces the JSON text those calls describe: commas, names and brackets exactly where they belong, whatever the nesting and however often it is flushed in between. After an error nothing more is written and the first error stays, and what reaches the writer over all flushes is each byte exactly once.",
  "histories fault_sequences", "every sequence of streamer calls, every flush point, every writer failure",
  "call sequences are unbounded; tests run a few fixed ones",
  "streamer.go streamer_str.go streamer_int.go streamer_float.go streamer_val.go streamer_pool.go",
  [("poped flag decides on the comma", "streamer.go"), ("sticky Error", "streamer.go")],
  ["Streamer methods", "Flush"])
p("C15", "Marshal writes the JSON encoding/json documents for a value",
  "Marshaling structs (tags, omitempty, string option, embedding), maps (nil, empty, key kinds), slices, arrays, []byte, pointers, interfaces, json.Number and json.RawMessage writes a well-formed text that holds exactly the fields, names, elements and values encoding/json documents, members in field order. Unmarshaling that text into the same type gives an equal value.",
  "inputs configurations", "every value of every supported type",
  "field contents, emptiness and options combine",
  "val_encoder_native_struct.go val_encoder_native_map.go val_encoder_native_slice.go val_encoder_native_array.go val_encoder_native_ptr.go val_encoder_native_interface.go val_encoder_native_base64.go is_empty.go struct.go",
  [("encoders cached per type", "encoder_config.go"), ("IsEmpty", "is_empty.go")],
  ["Marshal", "Encoder.Encode"])
p("C16", "Reuse and release never leak one document into another",
  "A decode or encode gives the same result whatever the same iterator, streamer, Decoder, Encoder or a pooled one did before, including failed operations and reset or released objects. Results already handed out never change later, input bytes are never modified, and a result not documented as temporary never aliases the caller's input or the iterator's buffers. User methods may use the package themselves.",
  "histories", "every history of operations on reused objects",
  "state left behind by one operation shows only in particular following ones",
  "iterator_pool.go streamer_pool.go iterator.go streamer.go stack.go node.go decoder.go encoder.go",
  [("reset on release", "iterator_pool.go, streamer_pool.go")],
  ["Iterator.Reset/Release", "Unmarshal twice", "Marshal twice"])
p("C17", "No input makes decoding panic, hang or read outside its bounds",
  "Decoding any byte string (nested no deeper than the stack holds for self-referring types) into any target, supported or not, by any entry point and any sequence of iterator calls, returns a value or an error: it never panics, never loops forever and never touches memory outside its buffers. A truncated or malformed text is an error, never success, and the input is left unchanged.",
  "inputs", "every byte string, every target",
  "crashes need particular bytes at particular positions",
  "iterator.go errors_decoder.go iterator_skip.go iterator_str.go val_decoder_native.go",
  [("bounds handled through head/tail", "iterator.go"), ("error location", "iterator.go, errors_decoder.go")],
  ["Unmarshal", "Iterator", "Decoder"])
p("C18", "User-defined marshal and unmarshal methods are honoured",
  "A type's MarshalJSON/MarshalText/UnmarshalJSON/UnmarshalText is called wherever a value of that type occurs (value, pointer, field, element, map value, interface), with exactly the value's JSON text on decoding and with its result embedded on encoding. Each occurrence calls it once. Its errors are reported and give no output, texts are written as escaped JSON strings (also as map keys) and taken from decoded ones, and nil pointers and null follow encoding/json.",
  "inputs configurations", "every result or error of the user's methods, every place of the value",
  "the method's behaviour is arbitrary user code",
  "val_encoder_json_marshaler.go val_encoder_text_marshaler.go val_decoder_json_unmarshaler.go val_decoder_text_unmarshaler.go val_encoder_direct.go encoder_config.go decoder_config.go",
  [("interface checks when the encoder of a type is built", "encoder_config.go, decoder_config.go")],
  ["Marshal", "Unmarshal"])
p("C19", "Configurations are independent and custom codecs apply everywhere",
  "A decoder or encoder registered for a type in a configuration is used for every value of that type, however deep and wherever it stands (top, pointer, field, element, map value, interface), and by no other configuration. It serves no other types, except that one registered for a basic type also serves the types defined from it. An encoder's IsEmpty decides omitempty. What a configuration produces does not depend on which types it handled before or in which order, and options (case sensitivity, unknown fields, only-tagged, escaping, tag name, numbers) act exactly within it, overrides of a Decoder or Encoder within that one alone.",
  "configurations histories", "every set of options and registered codecs, every order of use",
  "caches fill in the order of use; tests use each configuration once",
  "decoder_config.go encoder_config.go decoder_config_adaptor.go encoder_config_adaptor.go type_queue.go",
  [("per-configuration type caches", "decoder_config.go, encoder_config.go")],
  ["NewDecoderConfig", "NewEncoderConfig"])
p("C20", "Concurrent use of a configuration behaves as sequential use",
  "Any number of goroutines may marshal, unmarshal, use iterators, streamers, decoders and encoders of the same configuration at once, including the first use of a type and values or inputs they share: each gets the result it would get alone, without a data race, and no call waits forever. An object one of them has taken from a pool belongs to it alone until it is released, and what the configuration has cached afterwards is as after sequential use.",
  "schedules inputs", "every interleaving of any number of goroutines",
  "tests run few goroutines and the schedule is not controlled",
  "decoder_config.go encoder_config.go iterator_pool.go streamer_pool.go stack.go node.go",
  [("copy-on-write caches behind atomic loads and a mutex", "decoder_config.go, encoder_config.go"), ("sync.Pool", "iterator_pool.go, streamer_pool.go")],
  ["Marshal", "Unmarshal", "NewDecoder", "NewEncoder", "NewIterator", "NewStreamer"])

TECH = "bounded symbolic execution of the real code's SSA, decided by an SMT solver (z3, cvc5), counterexamples replayed natively"
NOTE = ("Every input within the stated bounds is covered: symbolic bytes and values go through the SSA regenerated from /repo's current source, each branch and assertion is decided by the solver, and a counterexample is reported only after the compiled code reproduced it. "
        "Trusted: go/ssa, the engine's instruction semantics and its models of sync, reflect and runtime entry points (cross-checked by replaying path models natively on every run), the harness's reference. Nothing is claimed outside the bounds: ")
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for q in P:
    i = q["id"]
    if i in jobs:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "other", "level_note": NOTE + jobs[i]["bounds"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "its symbolic check is not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: harnesses call the public API. Repairs of /repo are listed in known-findings.txt."},
          open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", len(na), "not")
# ---- DESIGN.md from its template
out = []
for q in P:
    i = q["id"]
    out.append(f"### {i} {q['title']}\n\n{q['statement']}\n")
    if i in jobs:
        j = jobs[i]
        out.append(f"* Decided over: {j['bounds']}.\n* Outside: {j['outside']}.")
        if j["assume"]: out.append("* Assumed: " + "; ".join(j["assume"]) + ".")
        if j.get("oracle"): out.append("* Oracle: " + j["oracle"] + ".")
        out.append(f"* {len(j['quick'])} quick jobs, {len(j['thorough'])} more in the thorough tier. Why tests cannot: {q['why_tests_cant']}.\n")
    else:
        out.append(f"* Not claimed: {NA.get(i, 'not built yet')}.\n")
seeds = ["| change | property | caught by | needs |", "|---|---|---|---|"]
sd = os.path.join(D, "seeded")
caught = {}
cf = os.path.join(D, "caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        a = l.split()
        if len(a) >= 2: caught[a[0]] = " ".join(a[1:])
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeds.append(f"| {s} | {m['property']} | {caught.get(s, '?')} | {m['needs']} |")
t = open(os.path.join(D, "DESIGN.tpl.md")).read()
if len(seeds) > 2:
    open(os.path.join(D, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
