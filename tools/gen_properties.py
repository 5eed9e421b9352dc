#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the statements can be edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Schema codec mirrors the wire format of every reflected Rust type",
  "For every value of a Rust type that was reflected into a compiled type library, the bytes the Rust type itself encodes to are decoded by the schema-driven decoder, consumed completely, and re-encoded by the schema-driven encoder to exactly the same bytes. Different values of one Rust type never decode to the same schema value. (Set aside: floats and the integers which the decoder reports as not implemented.)",
  ["inputs", "programs"],
  "All values (boundary values of every scalar width, every enum/union variant, every collection length at the bounds) of a family of reflected Rust types that covers every type constructor, alone and nested.",
  "Tests encode one nominal record and one defaulted struct; the claim is over every value of every type constructor and every length-prefix width.",
  ["src/value/decode.rs", "src/value/encode.rs", "src/typelib/transpile.rs", "src/typesys/translate.rs"],
  [("schema-driven decoder", "src/value/decode.rs strict_read_type"), ("schema-driven encoder", "src/value/encode.rs strict_write_ty"), ("reflection of Rust types", "src/typelib/transpile.rs")])

p("C02", "Schema decoding accepts exactly well-formed encodings",
  "For every type and every byte string, schema-driven decoding accepts the string if and only if it is a complete well-formed strict encoding of that type - known tags, collection, string and byte-string lengths within the declared bounds, characters within the declared character set, no repeated set element or map key, nothing left over - and the accepted value re-encodes to exactly the same bytes. Every other string is refused with an error: decoding never panics, hangs, or allocates memory out of proportion to the input. (Set aside: floats and the integer widths which the decoder reports as not implemented, and lists of elements which take no bytes.)",
  ["inputs"],
  "All byte strings over a type-derived alphabet up to a length bound, explored as a prefix tree, for every type term up to a nesting bound and every length-prefix width (8, 16, 24, 32 and 64 bit).",
  "No test feeds a malformed, truncated, over-long, out-of-bounds or trailing-garbage string to the schema-driven decoder.",
  ["src/value/decode.rs", "src/typesys/type_sys.rs"],
  [("dispatch on type and length width", "src/value/decode.rs strict_read_type"), ("restricted string detection", "src/typesys/type_sys.rs is_rstring")])

p("C03", "Type-checked values always encode, to the bytes of what they denote",
  "Every untyped value accepted by the type checker for a type can be serialized without failure or panic, and the bytes are the canonical strict encoding of the element of that type which the value denotes. Those bytes decode against the same type to a value that serializes to the same bytes again.",
  ["inputs"],
  "All untyped value terms up to a size bound (all constructors, boundary numbers, names, ordinals, strings, nested forms) against all type terms up to a nesting bound.",
  "Two hand-written structs are type-checked by tests; accept-then-encode has no test for unions, maps, sets, arrays, big numbers or alternative notations.",
  ["src/value/typify.rs", "src/value/encode.rs"],
  [("type checker", "src/value/typify.rs typify"), ("serializer relying on the checker's guarantees", "src/value/encode.rs strict_write_ty")])

p("C04", "The type checker accepts exactly the members of a type",
  "The type checker accepts a value for a type if and only if the value denotes a member of it: right constructor (or one of the documented shorthands), integers within the range of the width, lengths within the declared bounds, text within the character set, existing enum and union tags, every struct field present exactly once, and no repeated set elements or map keys. Anything else is refused with an error and never a panic; checking a value that was already checked, or that came from the schema-driven decoder, succeeds and leaves it unchanged.",
  ["inputs"],
  "All untyped value terms up to a size bound against all type terms up to a nesting bound, plus all decoded values of every type term.",
  "Tests type-check two well-formed values and no ill-formed one; whether out-of-range, too short, duplicate or missing parts are refused is never exercised.",
  ["src/value/typify.rs", "src/typesys/type_sys.rs"],
  [("type checker", "src/value/typify.rs typify"), ("restricted string detection", "src/typesys/type_sys.rs is_rstring")])

p("C05", "Semantic type ids are a function of name and structure, and separate types",
  "The semantic id of a type depends on nothing but its name and its structure (constructor, field and variant names and tags, order of fields, lengths and bounds, ids of the types it is made of), by the published commitment scheme, so the same definition has the same id however it was produced: reflected, converted from symbolic form, decoded, written inline at any level, or linked. Any two definitions which differ in any of those have different ids.",
  ["inputs", "programs"],
  "All pairs of type definitions among all type terms up to a size bound over small name, tag and bound alphabets; all derivation routes of each.",
  "Tests pin ids of two libraries; collision freedom and route independence are quantified over all pairs of definitions.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typelib/symbolic.rs"],
  [("commitment of types", "src/ast/id.rs SemCommit"), ("commitment of references", "src/typelib/id.rs")])

p("C06", "Library and type system ids commit to exactly their content",
  "A library id is determined by the library name, the ids of its dependencies and the names and definitions of its types, whatever the order in which they were added, and changes when any of these changes; it survives every round trip through a serialized form. A type system id is determined by the set of type definitions in it in the same sense.",
  ["inputs", "histories"],
  "All libraries over small alphabets of names, dependencies and definitions built by all insertion orders; all pairs of them; all subsets of a pool of types for type systems.",
  "Tests pin two constants; independence of order and sensitivity to each component are universally quantified.",
  ["src/typelib/id.rs", "src/typesys/id.rs", "src/typelib/type_lib.rs"],
  [("library commitment", "src/typelib/id.rs"), ("type system commitment", "src/typesys/id.rs")])

p("C07", "Compiling a library is deterministic in the set of reflected types",
  "A library compiled from a given set of Rust types and dependencies is the same - same definitions, same dependencies, same id, same bytes - whatever the order in which the types and the dependencies were added and however often a type was added, and every definition in it equals the reflection of its Rust type. Adding a type brings in every type it is composed of.",
  ["histories", "programs"],
  "All orders with repetition of adding types from a pool (with shared, nested and cross-library parts) and all orders of the dependency list.",
  "Tests compile each library in one fixed order; internal maps are hash maps with random iteration order, so one run proves nothing about another.",
  ["src/typelib/transpile.rs", "src/typelib/symbolic.rs", "src/typelib/compile.rs"],
  [("reflection builder", "src/typelib/transpile.rs LibBuilder"), ("symbol compilation", "src/typelib/symbolic.rs compile_symbols, compile")])

p("C08", "Library compilation terminates with a closed library or a precise error",
  "Compiling any symbolic library ends in bounded time with either a library in which every reference is to a type the library defines or to a type of a declared dependency, or an error; references to undefined names at any nesting depth, cyclic definitions, undeclared libraries, dependencies that lack the type, and nesting deeper than the format supports are all errors. Compilation never panics, hangs, or drops a definition.",
  ["inputs", "configurations"],
  "All reference graphs over up to four names with inline nesting up to five levels, with dangling and cyclic edges, and all combinations of declared/undeclared/incomplete dependencies.",
  "Tests cover one missing dependency type; cyclic, dangling and deep graphs are not tested and the compile loop has no termination argument in release builds.",
  ["src/typelib/symbolic.rs", "src/typelib/compile.rs"],
  [("fixed point over names", "src/typelib/symbolic.rs SymbolicLib::compile"), ("inline nesting limit", "src/typelib/compile.rs")])

p("C09", "Compiled and symbolic libraries convert into each other without loss",
  "Converting a compiled library to symbolic form and compiling it again gives back an equal library with the same id, and converting a compiled symbolic library back gives an equal symbolic library. Conversion of a library with references that resolve nowhere fails with an error rather than inventing a name.",
  ["inputs"],
  "All libraries over a pool of definitions (every constructor, inline, named and external references at every nesting level), with zero to two dependencies.",
  "One test round-trips one library; the claim is over every reference kind at every nesting level.",
  ["src/typelib/translate.rs", "src/typelib/symbolic.rs", "src/typelib/compile.rs"],
  [("de-compilation", "src/typelib/translate.rs"), ("compilation", "src/typelib/compile.rs")])

p("C10", "Linking libraries is order independent and yields only complete systems",
  "Importing libraries and finalizing produces the same type system in whichever order the libraries are imported and even when one is imported repeatedly, and each of its types is the definition from its library with references replaced by ids. Finalizing succeeds exactly when all dependencies were imported and every referenced type is present; otherwise it reports each missing dependency or type.",
  ["histories", "configurations"],
  "All sequences of imports (subsets, all orders, repetitions) of pools of mutually dependent libraries, including ones with missing dependencies and with references to absent types.",
  "Tests import fixed complete sets in one order and never an incomplete one.",
  ["src/typesys/translate.rs", "src/typesys/symbols.rs"],
  [("import and finalize", "src/typesys/translate.rs SystemBuilder")])

p("C11", "Name resolution and id lookup agree in a linked system",
  "In a linked system every named type of every imported library resolves by its fully qualified name to the id of its definition, looking that id up gives a name that resolves to the same id, and unknown names and ids resolve to nothing. All entry points that take a name behave exactly as they do for the id the name resolves to.",
  ["inputs", "configurations"],
  "All names and ids of all systems linked from a pool of libraries, including equal definitions under different names and libraries, plus absent names.",
  "Tests resolve two or three names in one system.",
  ["src/typesys/symbols.rs", "src/typesys/translate.rs"],
  [("symbol table", "src/typesys/symbols.rs Symbols")])

p("C12", "Extracting and merging type systems preserves closure",
  "Extracting a set of ids from a type system yields exactly those types and everything reachable from them, unchanged, and fails if and only if some reachable type is missing. Merging a type system into another keeps every type of both and nothing else, in any order, and values decode identically in the extract and in the original.",
  ["inputs", "histories"],
  "All subsets of root ids over systems built from a pool of type graphs (shared, diamond-shaped and dangling references), and all merge sequences of their extracts.",
  "No test exercises extraction or merging at all.",
  ["src/typesys/type_sys.rs"],
  [("closure walk", "src/typesys/type_sys.rs extract"), ("merge", "src/typesys/type_sys.rs extend")])

p("C13", "Binary form of libraries and systems is canonical and robust",
  "Every library, symbolic library, type system, symbolic system and type definition decodes from its binary encoding to an equal object, and any byte string that decodes at all re-encodes to itself, so no two strings denote the same object; no definition decodes which gives one name to two fields or variants. Truncated, corrupted or arbitrary input gives an error or such an object and never a panic.",
  ["inputs", "fault_sequences"],
  "All objects of the library and system pools; all truncations and all single-byte (quick: selected values, thorough: all values) substitutions of their encodings; all short byte strings for definitions.",
  "Tests only round-trip the two pinned standard libraries without any corruption.",
  ["src/ast/encoding.rs", "src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typelib/symbolic.rs", "src/typesys/symbols.rs"],
  [("hand-written union codec", "src/ast/encoding.rs"), ("derived codecs", "src/ast/ty.rs")])

p("C14", "Armored text form round-trips and detects corruption",
  "Armoring any compiled library, type system or symbolic system and parsing the armored text gives back an equal object with the same id; the headers state the id and, for a library, its name and every one of its dependencies. Text in which any payload or id character was altered, or lines were lost, is refused or yields the identical object - never a different one - and parsing never panics.",
  ["inputs", "fault_sequences"],
  "All pool objects; all single-character substitutions (over a set of replacement characters), deletions and line drops of their armored texts.",
  "No test armors anything; the fault quantifier is out of reach of examples.",
  ["src/typelib/serialize.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs"],
  [("armor headers and ids", "src/typelib/serialize.rs StrictArmor")])

p("C15", "Libraries and systems survive JSON, YAML and other serde formats",
  "Every library, symbolic library, type system, symbolic system, id and semantic definition serialized with serde to JSON deserializes to an equal object with the same id. The same holds for YAML wherever the YAML serializer is able to represent the object (it refuses enums nested in enums with an error).",
  ["inputs"],
  "All pool objects and all type terms up to a nesting bound, for each text format.",
  "Tests serialize one library to one format.",
  ["src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typelib/symbolic.rs", "src/typesys/symbols.rs"],
  [("serde derives and renames", "src/ast/ty.rs, src/typelib/*.rs, src/typesys/*.rs")])

p("C16", "Value paths address exactly the element they spell",
  "Following a path of any length through a value yields the sub-value obtained by taking its steps one after another from the root, the empty path yields the value itself, and each field, item and map value of a value whose key a path step can express (an unsigned number of up to 64 bits, an ordinal of an enum, a byte string or a text of up to 255 bytes) is reachable by its path. A path that leaves the value at any step gives an error that names the failing step, never another sub-value and never a panic.",
  ["inputs"],
  "All value terms up to a nesting bound and all paths up to length four over all step kinds with in-range, boundary and out-of-range positions.",
  "No test uses value paths.",
  ["src/value/path.rs"],
  [("path resolution", "src/value/path.rs at_path")])

p("C17", "Type paths address exactly the member type they spell",
  "Following a path of any length through a type definition with inline members yields the member type obtained by taking its steps one after another from the root, the empty path yields the type itself, and every member of every composite is reachable. A path with a step that does not exist gives an error carrying the steps up to and including the failing one, never another type and never a panic.",
  ["inputs"],
  "All type terms up to a nesting bound and all paths up to length four over all step kinds.",
  "No test uses type paths.",
  ["src/ast/path.rs", "src/ast/ty.rs"],
  [("path resolution", "src/ast/path.rs at_path")])

p("C18", "Type introspection agrees with the definition",
  "Iterating over the members of a type yields each member reference exactly once, in declaration or tag order, labelled with its true position, field name, or variant name and tag, and the reported member count equals the number yielded. All lookups (by position, name or tag) and classifications (optional, newtype, byte array, character enum, collection, compound) agree with that list, for every number of members up to the maximum the format allows.",
  ["inputs"],
  "All type terms of every class with 1 to 4 members, the extreme sizes 254 and 255, and all small tag/name assignments.",
  "Tests iterate no type directly; the boundary sizes and sparse tags are never reached.",
  ["src/ast/iter.rs", "src/ast/ty.rs", "src/ast/path.rs"],
  [("member iteration", "src/ast/iter.rs"), ("positional access and labels", "src/ast/ty.rs ty_at, case_at")])

p("C19", "The type tree lists every part of a type, in order, at its depth",
  "Walking the tree of any type of a linked system visits each part of the definition exactly once, in declaration order, parents before children, at its nesting depth, with the name it has in its parent, its qualified type name if it has one, and the transparent layers (newtype, optional, text or byte string) wrapped around it. The memory layout consists of precisely these entries, and building it never panics.",
  ["inputs"],
  "All type terms up to a nesting bound as roots, with and without names on inner types.",
  "One test prints one tree and asserts nothing on it.",
  ["src/typesys/iter.rs", "src/layout/memory.rs"],
  [("tree walk", "src/typesys/iter.rs TypeTreeIter"), ("layout", "src/layout/memory.rs")])

p("C20", "The printed memory layout states true names, tags, sizes and classes",
  "The vesper layout of any type has one expression per part of the type, nested as the parts are nested, with the part's name, class, length or length bounds, enum variants with their tags, and the tag of each union variant as they are in the definition. Rendering it to text never panics.",
  ["inputs"],
  "All type terms up to a nesting bound as roots, with sparse and dense tags.",
  "One test prints a layout and asserts nothing on it.",
  ["src/layout/translate.rs", "src/layout/vesper.rs", "src/layout/memory.rs"],
  [("layout to expressions", "src/layout/memory.rs to_vesper"), ("attributes", "src/layout/translate.rs")])

p("C21", "Editing a library keeps names unique and never overwrites",
  "Adding a type or a dependency to a library succeeds if and only if no type of that name, respectively no dependency of that id, is present and the size limit is not exceeded; success adds exactly that item and changes nothing else. A refused addition leaves the library exactly as it was, after any sequence of operations.",
  ["histories"],
  "All sequences up to a depth bound of add-type and add-dependency operations over small pools with clashing names and ids, explored as a state graph; the capacity limits.",
  "No test edits a library.",
  ["src/typelib/type_lib.rs"],
  [("import and populate", "src/typelib/type_lib.rs")])

p("C22", "Textual ids parse back to themselves and nothing else",
  "Every semantic type id, library id and type system id printed in any of its textual forms parses back to the same id, and distinct ids print differently; a resource name (URN) is the prefix of the kind of the id followed by the text of the id. Altered or malformed text is refused or parses to a different id than the original only if it is the text of that other id, and never panics.",
  ["inputs", "fault_sequences"],
  "Ids with every byte value at every position, all formatting flags, and all single-character edits of printed ids.",
  "Tests compare two printed constants; parsing is not tested.",
  ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"],
  [("text encoding of ids", "src/ast/id.rs, src/typelib/id.rs, src/typesys/id.rs")])

p("C23", "Value accessors return what constructors put in",
  "For every value built by the public constructors and notation macros, each accessor returns exactly the content that was put in (numbers at every width, strings, bytes, fields by name and position, items by position and key, option content, tags), looking through any number of newtype wrappers. Accessors do not confuse one kind of value with another.",
  ["inputs"],
  "All value terms up to a nesting bound, each wrapped in zero to three newtype layers, against every accessor.",
  "One test constructs values and reads none of them.",
  ["src/value/val.rs"],
  [("accessors", "src/value/val.rs unwrap_*"), ("constructors", "src/value/val.rs")])

p("C24", "Typed values written with serde to JSON and YAML are never read as others",
  "A value of a type which is written with serde to JSON or YAML, read back and checked against the same type is either the same member of the type (it encodes to the same bytes) or is refused; it is never another member. Values made of integers of up to 64 bits, characters, texts, enums, unions, options, structs, newtypes and sequences always come back, save for sequences of two items of which the first is a name or a small number, and texts of exactly 256 hexadecimal digits (a 1024-bit number). (Byte strings, sets, maps and such pairs are not distinguished from other values by the untagged notation and may be refused. Set aside: enums and unions where the one-letter name of a variant is the character of the tag of another variant.)",
  ["inputs"],
  "All values of all type terms up to a nesting bound in all accepted notations, all tags, all widths of numbers and all short texts over characters with a meaning in the formats, through each text format.",
  "One test round-trips one default struct through YAML; untagged deserialization is ambiguous in general and depends on the values.",
  ["src/value/val.rs", "src/value/typify.rs"],
  [("untagged serde representation", "src/value/val.rs"), ("re-typing", "src/value/typify.rs")])

p("C25", "JSON, YAML and TOML documents convert to strict values faithfully",
  "Converting a JSON, YAML or TOML document made of nulls, booleans, integers, strings, arrays and tables preserves every scalar exactly (including the extreme integers), every array element in order and every table entry with its key. Converting any parsed document, whatever it contains, never panics.",
  ["inputs"],
  "All documents up to a nesting bound over boundary scalars for each of the three formats.",
  "No test converts a document.",
  ["src/value/convert.rs"],
  [("conversions", "src/value/convert.rs")])

p("C26", "Text notation of typed values is unambiguous",
  "Two different values of the same type never render to the same text in strict object notation, and rendering is total. The rendered text contains every scalar, tag, field name and element in order.",
  ["inputs"],
  "All pairs of values of each type term up to a nesting bound with scalar domains that include quotes, separators and brackets in strings.",
  "Tests compare seven rendered constants.",
  ["src/value/ston.rs"],
  [("rendering", "src/value/ston.rs")])

p("C27", "Library files are written completely and under predictable names",
  "Writing a library to a directory creates exactly one file, named by the library name, an at sign, the given version and the extension of the format; its content is the complete serialization: the binary and armored forms load back an equal library, the source form has a header with the name, the version and the given header text, followed by the source of the library. Writing again replaces the content and touches no other file. Without a directory the same content goes to the standard output. Any failure to write, after whatever number of bytes, is reported as an error and not as success.",
  ["configurations", "histories", "fault_sequences"],
  "All combinations of format, version and header over a pool of libraries; all histories up to a depth of writes into the same directory with differing sizes and formats; unwritable targets; a device which gets full after every number of bytes, for files and for the standard output.",
  "Tests write no files.",
  ["src/typelib/serialize.rs", "src/util.rs"],
  [("file output", "src/typelib/serialize.rs serialize"), ("formats and arguments", "src/util.rs StlFormat, parse_args")])

p("C28", "Version numbers print and encode by the rules of semantic versioning",
  "A version prints as major.minor.patch, followed by the pre-release fragments after a hyphen and then the build fragments after a plus sign, each list joined by dots and present only when non-empty. Distinct versions encode to distinct bytes and decode back equal.",
  ["inputs"],
  "All versions over boundary numbers with zero to two pre-release and build fragments.",
  "No test touches versions.",
  ["src/util.rs"],
  [("version text", "src/util.rs SemVer")])

p("C29", "Source text of libraries and type systems can be read back",
  "The source form of a library contains its name, its id or the mnemonics of its types, an import line for each dependency and exactly one definition for each type in name order; the source form of a type system contains its id and one definition for each type, under its id or one of its names. From each definition in which composite types stand by reference, every field name, variant name, variant tag, array length, collection bound and referenced type can be read back exactly, so different definitions are written differently. Rendering never panics.",
  ["inputs"],
  "All libraries of the pool, all single-definition libraries over type terms up to a nesting bound, all sets of tags, lengths and bounds over boundary values, each rendered with all formatting options and read back by a reader of the notation.",
  "One test compares the rendering of one struct.",
  ["src/typelib/serialize.rs", "src/ast/ty.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs"],
  [("definition rendering", "src/ast/ty.rs Display"), ("library rendering", "src/typelib/serialize.rs Display"), ("type system rendering", "src/typesys/type_sys.rs, src/typesys/symbols.rs Display")])

p("C30", "Typed values are read from and written to streams exactly",
  "Values written one after another to a stream are read back one after another: reading a value takes exactly the bytes of its encoding and leaves what follows, writing a value puts exactly its encoding, however the stream divides the data into portions or interrupts the transfer. When the stream fails or ends after whatever number of bytes, that failure is returned and never a value or a success, and nothing but the beginning of the encoding was written. Serialization with a limit succeeds if and only if the encoding is within the limit.",
  ["inputs", "schedules", "fault_sequences"],
  "All sequences of two values over type terms up to a nesting bound, for a set of portion schedules with interruptions, and for a failure of each of four kinds after every number of bytes, on reading and on writing; all limits over a set of lengths.",
  "Tests read two values from memory.",
  ["src/value/decode.rs", "src/value/encode.rs"],
  [("stream reading", "src/value/decode.rs strict_read_type"), ("stream writing", "src/value/encode.rs strict_write_value, strict_serialize_value, strict_serialize_type")])

p("C31", "The crate's own data obeys its published StrictTypes schema",
  "Every type library, type system, symbolic system, type definition (in each of its reference forms), memory layout, type entry, symbol, dependency, reference, sizing, identifier and name which the crate can produce is encoded exactly as the corresponding type of the published StrictTypes library says: the bytes are read by that schema to the end, the value which is read has every field of the object under its published name, in every collection in order, and nothing else; writing that value, or a description of the object which is checked against the schema, gives the same bytes. So any other implementation which knows only the schema can read and write this data.",
  ["inputs", "configurations"],
  "All objects made by compiling, linking, laying out and naming a pool of libraries, all type definitions up to a nesting bound with all tags, primitive codes and boundary lengths, in each reference form; all layout entries.",
  "Encoding, decoding and the schema are separate code; a symmetric change of both codecs keeps every round trip and no test reads an object through the schema.",
  ["src/stl.rs", "src/ast/encoding.rs", "src/ast/ty.rs", "src/typelib/type_lib.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/layout/memory.rs", "src/typesys/tree.rs"],
  [("published schema", "src/stl.rs strict_types_stl"), ("codecs of type definitions", "src/ast/encoding.rs"), ("derived codecs", "src/typelib/type_lib.rs, src/typesys/*.rs, src/layout/memory.rs")])

p("C32", "Paths, steps and keys keep their meaning in binary and text forms",
  "Every path, path step, map key and type class encodes to a fixed layout (tag of the case, then its content, numbers in little-endian, lengths before texts), decodes back to the same path from exactly those bytes and from no other bytes, and comes back equal from JSON. YAML gives the same path or refuses to write it. Truncated or damaged bytes are refused or decode to a path with that encoding; nothing panics.",
  ["inputs"],
  "All keys over boundary numbers, blobs and texts, all field positions, all paths up to a length over steps of each kind and paths up to the longest; every truncation and substituted byte of each short encoding.",
  "No test encodes or serializes a path.",
  ["src/value/path.rs", "src/ast/path.rs", "src/ast/ty.rs"],
  [("value paths", "src/value/path.rs Path, Step, KeyStep"), ("type path steps", "src/ast/path.rs Step"), ("classes", "src/ast/ty.rs Cls")])

p("C33", "A library is built only against dependencies which provide what it uses",
  "Building a library from Rust types succeeds if each external type it mentions is declared by the dependency of that library name, whatever else the dependencies declare and in whatever number and order they are given, and fails otherwise with an error that names a library, a type and an id which are really missing. The library which is built is the reference one: it lists the dependencies it uses with their ids, and no dependencies it never met. The same dependencies always give the same result, also when several versions of one library are among them.",
  ["inputs", "configurations"],
  "All types of a catalogue of Rust types, each with complete dependencies, without each type, without each subset of types, with types declared by other dependencies, with crowds of unrelated types and dependencies, with several versions of a dependency; repeated runs.",
  "Tests build libraries against complete dependencies only.",
  ["src/typelib/symbolic.rs", "src/typelib/transpile.rs"],
  [("completeness of dependencies", "src/typelib/symbolic.rs LibBuilder::compile_symbols"), ("builder", "src/typelib/transpile.rs LibBuilder::with")])

p("C34", "Equality, order and hashes of the crate's data agree with their content",
  "Two values of one data type of the crate (semantic, library and system ids, resource names, qualified names, symbols, references, formats, type definitions and their members, libraries, type systems with and without names, keys, steps and paths, parts of types, versions, tags, numbers, typed-data values) are equal exactly if they have the same content: every id byte, name, tag, bound, position and member counts, except that the order in which the fields of a structure value were given does not. A dependency is its id. Equality is symmetric and `!=` its negation; equal things have equal hashes; orders are total and linear, and say 'equal' exactly for equal things, so that sets and maps of them neither merge nor duplicate members.",
  ["inputs"],
  "All pairs from pools of each data type: ids which differ in one byte at any place, definitions with all their single-edit neighbours, all small enums, unions and structs over few names and tags, libraries and systems with their neighbours, all keys, steps and short paths over boundary values, all small values. Linearity of each order over all pairs.",
  "Tests compare a few equal results; equality which ignores a component merges or overwrites members silently and only for pairs which differ in that component.",
  ["src/ast/ty.rs", "src/ast/path.rs", "src/typelib/type_lib.rs", "src/typelib/transpile.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs", "src/value/path.rs", "src/value/val.rs", "src/semver.rs", "src/util.rs"],
  [("definitions and members", "src/ast/ty.rs Ty, EnumVariants, UnionVariants, NamedFields, UnnamedFields"), ("dependencies", "src/typelib/type_lib.rs Dependency"), ("symbols", "src/typesys/symbols.rs TypeSymbol, TypeFqn"), ("paths", "src/value/path.rs, src/ast/path.rs"), ("values", "src/value/val.rs StrictVal, StrictNum, EnumTag")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
