#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "prost-reflect/src/dynamic/"
B = "prost-reflect/src/descriptor/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique="", note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe or [], technique=technique, note=note, state=state or []))

prop("C01", "Wire decoding follows the protobuf encoding for every valid input",
 "Decoding or merging any valid wire bytes for any schema yields exactly the message the protobuf encoding specification prescribes: last scalar wins, embedded messages, groups and oneof members merge, packed and unpacked forms are both accepted, varints are truncated to the field width and non-canonical encodings accepted, map entries may omit, reorder or repeat key and value with the last entry winning, and unknown enum numbers are kept. Decoding a concatenation A+B equals decoding A and then merging B, and merging into an already populated message behaves like decoding the concatenation.",
 ["inputs", "programs"], "for all schemas, all message values and all (canonical and non-canonical) valid encodings of them, split at any field boundary",
 "Tests decode a few fixed messages produced by prost's own encoder, so non-canonical orders, splits, duplicate and partial map entries, oversized varints and merges into populated messages are never seen.",
 [D+"message.rs", D+"fields.rs"], [("Value::merge_field dispatch on kind and wire type", D+"message.rs"), ("map entry merge with defaults", D+"message.rs"), ("oneof clearing on merge", D+"fields.rs")],
 ["DynamicMessage::decode", "DynamicMessage::merge", "public getters"],
 "runtime monitoring: online comparison with an independent reference wire decoder over generated schemas and non-canonical byte streams")

prop("C02", "Encoding is faithful, presence-exact and its length is exact",
 "Encoding a message built by any means emits exactly its present fields, extensions and unknown fields (presence-tracking fields iff set even when equal to the default, implicit-presence fields iff non-default), with the schema's wire types, packed where the schema says packed, so that an independent decoder recovers the identical message. encoded_len always equals the number of bytes written, and a buffer of exactly that size suffices.",
 ["inputs", "programs"], "for all schemas and all message values, including ones built through the mutable accessors",
 "Tests compare a few messages with prost's encoder; they cannot cover every combination of kind, presence, packing, extension, group and map over schemas nobody wrote.",
 [D+"message.rs", D+"fields.rs", B+"build/resolve.rs", B+"api.rs"], [("encode_raw / encoded_len per kind", D+"message.rs"), ("is_packed and supports_presence computation", B+"build/resolve.rs")],
 ["Message::encode_to_vec", "Message::encoded_len", "Message::encode_length_delimited"],
 "runtime monitoring: encoded bytes parsed by an independent reference decoder that also checks wire types, packing and presence")

prop("C03", "Unknown fields are preserved",
 "Data under field numbers the schema does not know, of every wire type including nested groups, survives decode, merge and re-encode: re-encoding yields all of it with unchanged contents and unchanged relative order per field number, at the message level where it was found (including in submessages, list elements and map values), and a reader with the full schema recovers from it exactly the original data. Unknown fields are observable and removable only through the unknown-field accessors, and never appear as known fields.",
 ["inputs", "programs"], "for all schemas, reduced schemas with fields removed, and byte streams with unknown fields at any depth",
 "Tests contain two small unknown-field messages; interleavings, nesting, repeated numbers and reduced schemas are unbounded.",
 [D+"unknown.rs", D+"fields.rs", D+"message.rs"], [("UnknownFieldSet insert/encode", D+"unknown.rs"), ("add_unknown", D+"fields.rs")],
 ["unknown_fields", "take_unknown_fields", "encode_to_vec"],
 "runtime monitoring: conservation check (unknown records in = out) against a reference decoder, plus reduced-schema passthrough")

prop("C04", "Malformed wire data is rejected cleanly",
 "For any schema and any byte string at all, decoding, merging and length-delimited decoding terminate without panic or abort, and report an error whenever the bytes are not a valid encoding: truncated fields or lengths, varints longer than ten bytes, field number zero or out of range, reserved wire types, unbalanced or mismatched group tags, and invalid UTF-8 in strings or map keys. A message that decodes successfully can be re-encoded, formatted as JSON and text, cloned and compared without panicking.",
 ["inputs"], "for all schemas and all byte strings (mutated encodings, truncations at every offset, random bytes)",
 "The malformed input space is unbounded and tests cover a handful of cases.",
 [D+"message.rs", D+"unknown.rs", D+"fields.rs"], [("wire type checks and length checks", D+"message.rs"), ("UnknownFieldValue::decode_value", D+"unknown.rs")],
 ["DynamicMessage::decode", "merge", "decode_length_delimited"],
 "runtime monitoring: crash/panic monitor plus reference validity oracle over mutated encodings, on an overflow-checked build")

prop("C05", "Dynamic and generated messages agree",
 "For every generated message type and every value of it, transcoding to a dynamic message and back is the identity, both sides encode to semantically identical bytes, and each field read from the dynamic message equals the generated struct's field. The descriptor reported by a generated type (via the build script and derive macro, and for the bundled well-known types) has the type's own full name and definition, in the configured descriptor pool; a message nested more deeply than the recursion limit of prost cannot be transcoded. The build script adds to the code of every message exactly one derive, with the message's name and the configured pool, whatever other messages there are, and nothing else.",
 ["inputs", "programs"], "for all generated message types in the harness's schemas and all values",
 "Tests transcode a few literals; each kind, cardinality, map, oneof and option combination has its own path in both code generators.",
 ["prost-reflect/src/dynamic/mod.rs", "prost-reflect/src/reflect/", "prost-reflect-build/src/lib.rs", "prost-reflect-derive/src/lib.rs"],
 [("transcode_from/transcode_to", D+"mod.rs"), ("Builder::configure", "prost-reflect-build/src/lib.rs"), ("derive(ReflectMessage)", "prost-reflect-derive/src/lib.rs")],
 ["transcode_to_dynamic", "transcode_to", "ReflectMessage::descriptor"],
 "runtime monitoring: differential check of dynamic against prost-generated code over random values, and of the generated code against that of prost-build alone over random schemas")

prop("C06", "Field access behaves like an ideal record under any operation history",
 "Under any sequence of set, get, get_mut, has, clear, take and the bulk iterators (by descriptor, number, name, or extension), a message behaves like a map from field numbers to values: get returns the last value stored or else the field's default, has is true exactly when the field is present (explicit presence: set; implicit presence: non-default; repeated and map: non-empty), take and clear remove, operations on one field never disturb another field or unknown data, and all access paths to a field agree. Iterators yield exactly the present fields, each once.",
 ["histories", "programs"], "for all schemas and all operation histories over all fields",
 "Tests run short fixed sequences; interactions between operations (mutate through a reference, take, then query; oneofs; extension and field paths) need arbitrary histories.",
 [D+"mod.rs", D+"fields.rs"], [("DynamicMessageFieldSet get/get_mut/set/clear/take/iter", D+"fields.rs")],
 ["the DynamicMessage accessor API"],
 "runtime monitoring: model-based history checking against an executable reference record")

prop("C07", "At most one member of a oneof is ever present",
 "After any sequence of field sets, mutable accesses, takes, clears, wire merges, JSON or text parses, at most one member of each oneof is present, and it is the member written last; clearing or taking it leaves none present. JSON and text input that sets two members of the same oneof is rejected, and wire input keeps the last one.",
 ["histories", "inputs"], "for all schemas with oneofs (including proto3 optional fields) and all histories and inputs",
 "Tests set two members once; stale members can survive through any of several independent write paths.",
 [D+"fields.rs", D+"message.rs", D+"serde/de/mod.rs", D+"text_format/parse/mod.rs"], [("clear_oneof_fields", D+"fields.rs"), ("duplicate oneof detection in parsers", D+"serde/de/kind.rs")],
 ["has_field", "fields()", "encode_to_vec"],
 "runtime monitoring: invariant monitor on every observable state of generated histories and inputs")

prop("C08", "Ill-typed values never enter a message",
 "A value is accepted for a field or extension exactly when its variant, its cardinality, its map keys, and the variant of every list element and map value match the declaration; as documented, only what affects encoding is checked, so any enum number and an embedded message of any type are accepted. A rejected checked set returns an error naming the problem and leaves the message unchanged, the panicking set panics, and a checked set of an unknown field number or name is rejected. The typed accessors of values and map keys succeed exactly on their own variant, and default values are well typed and report themselves as default.",
 ["inputs", "programs"], "for all pairs of field and value, including nested values",
 "The field kind by value shape product, nested inside lists and maps, is far larger than the tests' samples.",
 [D+"mod.rs", D+"fields.rs"], [("Value::is_valid_for_field / is_valid", D+"mod.rs"), ("try_set_field*", D+"mod.rs")],
 ["try_set_field*", "Value::is_valid*", "MapKey::is_valid"],
 "runtime monitoring: independent type checker as oracle over generated well- and ill-typed values")

prop("C09", "JSON output is canonical ProtoJSON under every option",
 "For any schema, message and combination of serialize options, the JSON written is exactly the canonical mapping: each present field (or each field, when defaults are not skipped, except unset presence-tracking ones) appears exactly once under its JSON or proto name, 64-bit integers are strings or numbers as configured, enums are names or numbers as configured with unknown numbers as numbers, floats including NaN and infinities, bytes base64, map keys as strings, and extensions under [full.name]. Unknown fields are omitted, and every value printed denotes exactly the stored value.",
 ["inputs", "configurations", "programs"], "for all schemas, messages and all 16 option combinations",
 "Tests snapshot some messages with some options; they cannot cover every kind, cardinality, presence and option product.",
 [D+"serde/ser/mod.rs", D+"serde/ser/wkt.rs", D+"serde/mod.rs"], [("SerializeWrapper for message/value", D+"serde/ser/mod.rs")],
 ["serialize_with_options output"],
 "runtime monitoring: output compared with an independent reference ProtoJSON writer, duplicate keys detected")

prop("C10", "JSON parsing accepts every valid ProtoJSON form",
 "Every JSON document that the ProtoJSON mapping permits for a message parses to exactly the denoted message: JSON or proto field names, extensions by bracketed name, any member order, null for unset fields, integers as numbers (including exponent and .0 forms) or as decimal strings, floats as numbers or strings including NaN and infinities, enums by name or number, base64 in standard or URL-safe alphabet with or without padding, and map keys as strings. Results do not depend on the deserializer's form of delivery.",
 ["inputs", "programs"], "for all schemas, messages and all permitted spellings of each value",
 "The spellings multiply per field and tests sample single fields.",
 [D+"serde/de/mod.rs", D+"serde/de/kind.rs", D+"serde/de/wkt.rs"], [("per-kind visitors", D+"serde/de/kind.rs")],
 ["DynamicMessage::deserialize"],
 "runtime monitoring: generated JSON spellings of known messages, parsed result compared with the source message")

prop("C11", "Invalid JSON is rejected",
 "A JSON document that does not denote a message under the ProtoJSON mapping is rejected with an error, never accepted with altered data and never a panic: wrong JSON types, out-of-range or fractional integers, unknown enum names, bad base64, map keys of the wrong form, two members of one oneof, malformed well-known-type strings, and unknown fields when they are denied. When unknown fields are allowed, they (and unknown enum names) are ignored and everything else parses as if they were absent. A repeated member of an object is either rejected or its last value counts. Numbers are judged by the value the JSON reader delivers (an integer beyond 64 bits arrives as a double).",
 ["inputs", "programs"], "for all schemas and all single-point corruptions of valid JSON documents",
 "Tests cover selected literals of selected kinds; each kind and position has its own visitor.",
 [D+"serde/de/mod.rs", D+"serde/de/kind.rs", D+"serde/de/wkt.rs"], [("visitor rejection paths", D+"serde/de/kind.rs"), ("deny_unknown_fields", D+"serde/de/mod.rs")],
 ["DynamicMessage::deserialize_with_options"],
 "runtime monitoring: mutation of valid JSON at a chosen point with a known-invalid token; monitor requires an error")

prop("C12", "JSON round trip is lossless",
 "For any schema, any message without unknown fields whose well-known types are in their valid range, and any serialize options, parsing the produced JSON with the default options gives back an equal message, through text and through an in-memory value tree alike.",
 ["inputs", "configurations", "programs"], "for all schemas, messages and option combinations",
 "Round-trip holds only if writer and parser agree for every kind and option; tests use a few messages.",
 [D+"serde/"], [("serialize and deserialize", D+"serde/mod.rs")],
 ["serialize_with_options then deserialize"],
 "runtime monitoring: round-trip oracle over generated schemas, messages and options, with model comparison of the result")

prop("C13", "Well-known types follow their JSON mapping exactly",
 "Timestamp, Duration, FieldMask, Struct, Value, ListValue, the wrappers, Empty and Any use their special JSON forms in any position (top level, field, repeated, map value, oneof, inside Any): every in-range value prints in the canonical form and parses back to itself, every permitted spelling (offsets, fraction digits) parses to the denoted instant or value, and values outside the specified range or form are rejected in both directions.",
 ["inputs"], "for all values of the well-known types in all positions, and all permitted and corrupted spellings",
 "Calendar arithmetic, fractions, signs and case conversions have boundary cases no sample settles.",
 [D+"serde/ser/wkt.rs", D+"serde/de/wkt.rs", D+"serde/case.rs"], [("serialize_timestamp/duration/...", D+"serde/ser/wkt.rs"), ("deserialize_*", D+"serde/de/wkt.rs")],
 ["JSON text of WKT values"],
 "runtime monitoring: independent calendar, duration and case-conversion reference over boundary and random values")

prop("C14", "Text format output parses back to the same message",
 "For any schema, message and combination of format options, the text produced is valid text format (as an independent parser reads it), lists exactly the present fields with their exact values (plus default-valued ones when not skipped), and parsing it back gives an equal message, apart from unknown fields, which appear only when requested. Strings and bytes of any content, all float values, groups, extensions, maps and expanded Any survive.",
 ["inputs", "configurations", "programs"], "for all schemas, messages and all 32 format option combinations",
 "Escaping, float printing, group naming and Any expansion each have input spaces the tests only sample.",
 [D+"text_format/format.rs", D+"text_format/parse/"], [("Writer::fmt_message", D+"text_format/format.rs"), ("Parser", D+"text_format/parse/mod.rs")],
 ["to_text_format_with_options", "parse_text_format"],
 "runtime monitoring: output checked by an independent text-format parser and by round trip through the library parser")

prop("C15", "The text parser accepts all valid text format syntax",
 "Any valid text-format document for a message parses (or merges) to exactly the denoted message: either bracket style, optional colons before messages, comma or semicolon or no separators, comments and whitespace anywhere, list syntax for repeated fields, all integer bases and signs, float spellings, adjacent string concatenation in either quote style, every escape sequence, group names, bracketed extension names and expanded Any.",
 ["inputs", "programs"], "for all schemas, messages and all permitted spellings",
 "The grammar's productions multiply per field; tests sample single fields.",
 [D+"text_format/parse/mod.rs", D+"text_format/parse/lex.rs"], [("Token lexer", D+"text_format/parse/lex.rs"), ("Parser::parse_value", D+"text_format/parse/mod.rs")],
 ["parse_text_format", "merge_text_format"],
 "runtime monitoring: generated spellings of known messages, parsed result compared with the source message")

prop("C16", "Invalid text format is rejected with a usable error",
 "Any string that is not a valid text-format document for the message is rejected with an error and never panics, including syntax errors, unknown fields, enum values or extensions, wrong value types, out-of-range numbers, invalid escapes or UTF-8, duplicate singular fields and duplicate oneof members. The error's labelled span lies inside the input on character boundaries.",
 ["inputs", "programs"], "for all schemas and all strings: corruptions of valid documents and random strings over the token alphabet",
 "Error paths multiply by position; tests check about forty literals.",
 [D+"text_format/parse/mod.rs", D+"text_format/parse/lex.rs", D+"text_format/parse/error.rs"], [("ParseErrorKind construction with spans", D+"text_format/parse/mod.rs")],
 ["parse_text_format errors"],
 "runtime monitoring: independent text-format parser as acceptance oracle over corrupted documents; span monitor")

prop("C17", "Descriptors mirror the definitions exactly",
 "Every element of every accepted file (message, field, oneof, enum, value, extension, service, method, import) is reachable from the pool by every documented route (by name, number, JSON name, index, parent and child iteration) and reports exactly what its definition says: names, full names, numbers, kind, cardinality, presence, packedness, default value, JSON name, containing oneof, ranges, streaming flags, source path and parent file. Elements that do not exist are never found, and iteration yields each element exactly once in the documented order.",
 ["programs"], "for all valid descriptor sets",
 "Tests walk a fixed set of protos; indices, lookups and computed attributes depend on the structure of the whole set.",
 [B+"api.rs", B+"build/visit.rs", B+"build/names.rs", B+"build/resolve.rs", B+"types.rs", B+"mod.rs"], [("two-pass index building", B+"build/")],
 ["the descriptor accessor API"],
 "runtime monitoring: exhaustive walk of each generated pool compared with an independent reading of the definitions")

prop("C18", "Type names resolve by protobuf scoping and import visibility",
 "A relative type name resolves to the innermost enclosing scope's match, a leading dot means fully qualified, and only the file itself, its direct imports, and files they import publicly (transitively) are visible. A reference to a name that is missing, not visible, or not of a usable kind is rejected, and unrelated files in the pool never change how a name resolves.",
 ["programs"], "for all descriptor sets with relative names and import graphs",
 "Scoping and visibility are graph properties; tests cover a few fixed graphs.",
 [B+"build/resolve.rs", B+"build/names.rs", B+"build/mod.rs"], [("resolve_name / resolve_relative_name", B+"build/resolve.rs")],
 ["add_file_descriptor_protos result and resolved kinds"],
 "runtime monitoring: independent implementation of the scoping rules compared with what each reference resolved to")

prop("C19", "Invalid definitions are rejected",
 "A descriptor set with one of these faults, at whichever element and position, is rejected: missing names, numbers or type names, unknown syntax, duplicate names in any scope, duplicate, out-of-range or reserved field numbers, two extensions of one message with the same number, field numbers in and extension numbers outside extension ranges, duplicate JSON (or, in proto3, case-insensitive) field names, empty enums, proto3 enums not starting at zero, duplicate or reserved enum numbers, missing imports, bad import or oneof indices, duplicate file names with other content, unresolvable or wrong-kind types, invalid default values, and unknown, ill-typed or repeated options. The corresponding fault-free set is accepted.",
 ["programs"], "for all valid descriptor sets and all single faults injected at any element",
 "Each rule has its own check at its own place; tests have one example per rule at one position.",
 [B+"build/", B+"error.rs"], [("check_* and error reporting", B+"build/")],
 ["add_file_descriptor_* results"],
 "runtime monitoring: fault injection into valid generated descriptor sets; monitor requires acceptance before and rejection after")

prop("C20", "A failed add leaves the pool untouched",
 "If adding files to a pool fails for any reason, the pool is observably identical to what it was before: same files, messages, enums, extensions (including those listed per message), services, lookups and encoding, and any subsequent operation, including adding a corrected version of the same files, behaves as if the failed call had never happened. This also holds for every clone of the pool and every descriptor obtained from it.",
 ["histories", "fault_sequences"], "for all pools, all failing batches (fault at any element) and all later operations",
 "Rollback must undo every kind of index entry from every failure point; tests try two.",
 [B+"build/mod.rs", B+"mod.rs"], [("DescriptorPoolOffsets rollback", B+"build/mod.rs")],
 ["complete observable state of the pool before and after"],
 "runtime monitoring: full state snapshot before and after injected failures, then continued history against a control pool")

prop("C21", "Clones and descriptors are snapshots, unaffected by later additions",
 "Adding files to one handle of a pool never changes what any other clone, or any descriptor or message obtained earlier, observes: lists, lookups, extensions of a message, encodings and options stay as they were, and equality and identity behave by pool. Old descriptors stay fully usable after later additions and after all pool handles are dropped.",
 ["histories"], "for all interleavings of clone, add, fail, drop and read operations on pools sharing state",
 "Copy-on-write sharing is history-dependent; tests have one fixed scenario.",
 [B+"mod.rs", B+"build/mod.rs", B+"api.rs"], [("Arc::make_mut copy-on-write", B+"build/mod.rs")],
 ["descriptor snapshots"],
 "runtime monitoring: recorded snapshots re-verified after every later operation of a generated history")

prop("C22", "How files are batched and ordered does not change the result",
 "Adding the same files in one batch, one by one in any dependency-respecting order, as encoded bytes, or as a set in any order, gives pools that describe every element identically, and adding an identical file again is a no-op. A set whose dependencies are missing is rejected in every arrangement.",
 ["histories", "programs"], "for all descriptor sets and all partitions and orders of their files",
 "Index offsets and visibility depend on the arrangement; tests add sets one way.",
 [B+"build/mod.rs", B+"api.rs"], [("build_files", B+"build/mod.rs"), ("decode_file_descriptor_set", B+"api.rs")],
 ["complete observable state of pools built in different ways"],
 "runtime monitoring: metamorphic comparison of full pool snapshots across arrangements")

prop("C23", "Descriptor sets and their options are kept losslessly and interpreted correctly",
 "Encoding a pool or file built from encoded descriptors yields an equivalent descriptor set with all data, including custom options, retained (only documented normalisation such as absolute type names and interpreted options differs), and rebuilding a pool from it gives the same descriptors. options() returns every option with its value as a dynamic message, and uninterpreted options written by name resolve to exactly the option fields they denote, for scalars, nested paths, extensions, enums and aggregates.",
 ["programs"], "for all descriptor sets with standard, custom and uninterpreted options on any element",
 "Options exist on ten element kinds with arbitrary extension types; tests use a few.",
 [B+"build/options.rs", B+"types.rs", B+"api.rs"], [("Options<T> encoded retention", B+"types.rs"), ("OptionsVisitor", B+"build/options.rs")],
 ["encode_to_vec", "options()"],
 "runtime monitoring: conservation check on encoded sets and reference interpretation of options")

prop("C24", "Extensions behave like ordinary fields",
 "For every extension in a pool, wherever declared, the extended message lists it, finds it by number, full name and JSON name, and stores, encodes, decodes, prints and parses its values exactly as a field of that type would, in wire, JSON and text formats; an extension is never applied to another message, and an extension unknown to the message's pool is treated as an unknown field.",
 ["programs", "inputs"], "for all schemas with extensions of any kind at any scope and all values",
 "Extensions take separate code paths in every format; tests use a few.",
 [B+"api.rs", B+"build/resolve.rs", D+"fields.rs", D+"message.rs", D+"serde/", D+"text_format/"], [("get_extension*", B+"api.rs"), ("FieldDescriptorLike", D+"fields.rs")],
 ["extension accessor API and all formats"],
 "runtime monitoring: twin-schema differential: each extension mirrored by an ordinary field with the same type and number")

prop("C25", "Pools and messages are safe to use from many threads",
 "Concurrent additions to and reads of the global pool are linearizable: every successful addition is visible in every later read, no addition is lost or duplicated, a reader sees each file entirely or not at all, and failed additions have no effect. Descriptors, pools and messages shared between threads give the same answers as in one thread, with no data race, deadlock or undefined behaviour.",
 ["schedules", "histories"], "for all interleavings of adding, cloning, reading, decoding and dropping across threads",
 "Tests are single-threaded with respect to a pool; races need particular schedules.",
 [B+"global.rs", B+"mod.rs", B+"api.rs", "prost-reflect/src/reflect/wkt.rs"], [("global Mutex and copy-on-write", B+"global.rs")],
 ["history of global() / add_global_* calls"],
 "runtime monitoring: recorded concurrent histories checked for linearizability; ThreadSanitizer and Miri executions")

prop("C26", "Hostile descriptors never crash the library",
 "Any bytes or descriptor structure given to a pool either fail with an error or are accepted, without panic, abort or endless loop; and every pool that was accepted can be fully walked (all descriptors, kinds, defaults, options), and messages of all its types created, encoded, decoded, printed, parsed, without panicking.",
 ["inputs", "programs"], "for all byte strings and descriptor structures, including contradictory and corrupted ones",
 "Tests use descriptors a compiler accepted, or single faults; hostile combinations are unbounded.",
 [B+"build/", B+"types.rs", B+"api.rs"], [("validation during build", B+"build/")],
 ["process exit, panics, accessor API"],
 "runtime monitoring: crash monitor over mutated descriptor sets followed by a full walk and use of accepted pools")

prop("C27", "Deeply nested input never exhausts the stack",
 "Input nested to any depth either is read or is rejected with an error; neither reading it nor using what was read (encoding, cloning, comparing, dropping, writing as JSON, text or debug output) ever overflows the stack of a thread with the default 2 MiB. This covers messages, groups, unknown fields, maps, Any, Struct, option values and option names, and nested or chained descriptors. Messages nested up to 100 levels, the limit of the binary decoder, are accepted in binary and text format, and text written for a message read from the wire is read back.",
 ["inputs"], "for all nesting depths and nesting mixtures, with a default-sized thread stack",
 "Tests never nest deeper than a few levels.",
 [D+"message.rs", D+"unknown.rs", D+"text_format/parse/mod.rs", D+"serde/de/"], [("DecodeContext recursion limit", D+"message.rs")],
 ["process exit status"],
 "runtime monitoring: crash monitor over depth sweeps on a thread with a fixed stack")

prop("C28", "Equality and cloning are coherent",
 "Descriptor equality is an equivalence that holds exactly for handles to the same element of the same pool, and is the same whichever route produced the handle. A clone of a message equals it and is independent of it: mutating either never changes the other; and messages with the same type and observably identical contents, whatever history produced them, compare equal while messages that differ in any present field, extension or unknown field do not.",
 ["histories", "programs"], "for all pairs of descriptors, and all pairs of messages produced by different histories",
 "Tests compare a handful of values; equality must be independent of construction history.",
 [B+"mod.rs", B+"api.rs", D+"mod.rs", D+"fields.rs"], [("derived PartialEq/Hash on handles", B+"mod.rs"), ("DynamicMessage PartialEq", D+"mod.rs")],
 ["==, Hash, Clone"],
 "runtime monitoring: algebraic-law monitor over handles gathered by all routes and messages built by different histories")

prop("C29", "Descriptor errors point at the offending element",
 "Every rejection caused by a specific element reports the file that contains it and, where the library reports a location, the path and the source position (line, column) recorded for that element in the file's source information, and with source attached the labelled snippet covers it (and the other element, when two clash); errors never name an unrelated file or element.",
 ["programs", "configurations"], "for all single faults at any element of any file, with and without source info",
 "Location bookkeeping is separate per rule; tests snapshot one position per rule.",
 [B+"error.rs", B+"tag.rs", B+"build/"], [("Label::new / find_file_proto path lookup", B+"error.rs")],
 ["DescriptorError::file/line/column/path, miette labels"],
 "runtime monitoring: fault injection at known elements, reported location compared with the injected location")

prop("C30", "Interoperates with the reference implementation",
 "For any schema, binary encodings, JSON and text produced by this library are read by the protobuf reference implementation as the identical message, and those produced by the reference implementation (and other spellings and encodings the reference reads) are read by this library as the identical message; definitions the reference accepts are accepted, and both compute the same attributes (names, JSON names, kinds, packedness, presence, defaults, oneofs, ranges, resolved references) for every definition and interpret custom options alike. Where the reference is knowingly laxer or stricter than the specification, the specification counts.",
 ["inputs", "programs"], "for all generated schemas and messages",
 "Tests never consult another implementation at run time.",
 [D+"message.rs", D+"serde/", D+"text_format/", B+"build/"], [("all codecs", D)],
 ["encoded bytes, JSON and text exchanged with libprotobuf"],
 "runtime monitoring: differential execution against libprotobuf (C++)")

NOT_APPLICABLE = {}
CLAIMED = None  # None = all
NOTES = {}

def load_claimed():
    p = os.path.join(ROOT, "tools", "claimed.txt")
    if os.path.exists(p):
        return open(p).read().split()
    return []

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    claimed = load_claimed()
    checks = []
    na = []
    for p in P:
        if p["id"] in claimed:
            checks.append({
                "property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                "thorough_cmd": f"./check.sh {p['id']}",
                "technique": p["technique"], "level": "exploration",
                "level_note": p["note"] or "Held on the executions listed in the evidence file; the oracle is independent of the code under test; nothing is claimed for inputs the generators do not produce.",
            })
        else:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction; not claimed yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every property is observed through the public API. Tiers are selected by VERIF_TIER."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()
