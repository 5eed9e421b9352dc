#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

mod codec;
mod core;
mod ids;
mod libs;
mod edit;
mod files;
mod link;
mod model;
mod order;
mod own;
mod paths;
mod reflect;
mod serdes;
mod source;
mod streams;
mod symb;
mod sysb;
mod tree;
mod universe;
mod vals;
mod values;

use crate::core::Prop;

fn main() {
    if let Some(code) = files::child() {
        std::process::exit(code);
    }
    let props: &[Prop] = &[
        Prop { id: "C01", check: reflect::c01, rule: "One case is one value of one reflected Rust type: it is encoded by the Rust type, decoded against the linked schema, compared with the reference denotation and encoded again. Values are the product of boundary values of the parts. Non-trivial: the value has at least one byte.", assumptions: &["floats and the integers which the decoder reports as not implemented are set aside", "the Rust types' own StrictEncode (crate strict_encoding) is trusted as the definition of the wire format"] },
        Prop { id: "C07", check: reflect::c07, rule: "One case is one sequence of builder operations and one order of the dependencies.", assumptions: &["a run executes one iteration order of the hash maps inside of the builder; shards and repeated builds give several"] },
        Prop { id: "C02", check: values::c02, rule: "One case is one byte string decoded against one type: nodes of the prefix tree, single-byte neighbours and truncations of valid encodings, long collections, announced lengths. The reference grammar gives the verdict (member, malformed, incomplete).", assumptions: &["floats and unimplemented integers are set aside", "lists of elements which take no bytes are set aside"] },
        Prop { id: "C03", check: values::c03, rule: "One case is one untyped value checked against one type; accepted values are encoded and compared with the reference encoding of what they denote, and decoded again.", assumptions: &["notations whose acceptance isn't specified (`denote` says Unspecified) may be refused or accepted, but an accepted one still has to encode to a member"] },
        Prop { id: "C04", check: values::c04, rule: "One case is one untyped value checked against one type, with the verdict of the reference membership model; decoded and checked values are checked again.", assumptions: &["notations whose acceptance isn't specified are not judged"] },
        Prop { id: "C05", check: ids::c05, rule: "One case is one definition (with its derivation routes) or one pair of definitions which differ in one or two edits.", assumptions: &["SHA-256 is collision free", "the published commitment scheme is the one of the pinned commit"] },
        Prop { id: "C06", check: ids::c06, rule: "One case is one library or system (built in one order) or one single-edit neighbour of it.", assumptions: &["SHA-256 is collision free"] },
        Prop { id: "C22", check: ids::c22, rule: "One case is one text given to the parser of one kind of id, or one id printed in one form.", assumptions: &["the checksum distinguishes texts up to its length: a text with a matching checksum is the text of another id"] },
        Prop { id: "C08", check: symb::c08, rule: "One case is one symbolic library with one set of dependencies; the reference tells the defects it has.", assumptions: &[] },
        Prop { id: "C09", check: symb::c09, rule: "One case is one library converted into the other form and back.", assumptions: &[] },
        Prop { id: "C10", check: link::c10, rule: "One case is one sequence of imports, followed by finalization.", assumptions: &[] },
        Prop { id: "C11", check: link::c11, rule: "One case is one name or id asked for in one system through all entry points.", assumptions: &["libraries of one system have distinct names"] },
        Prop { id: "C12", check: link::c12, rule: "One case is one set of ids extracted from one system, or one pair of systems merged.", assumptions: &[] },
        Prop { id: "C13", check: codec::c13, rule: "One case is one byte string given to the decoder of one kind of object.", assumptions: &["strict_encoding's primitive codecs are trusted"] },
        Prop { id: "C14", check: codec::c14, rule: "One case is one armored text: the original one or one with a single fault.", assumptions: &[] },
        Prop { id: "C15", check: codec::c15, rule: "One case is one object written to and read from one text format.", assumptions: &["serde_json, serde_yaml, toml are trusted"] },
        Prop { id: "C16", check: paths::c16, rule: "One case is one path followed through one value.", assumptions: &[] },
        Prop { id: "C17", check: paths::c17, rule: "One case is one path followed through one definition.", assumptions: &[] },
        Prop { id: "C18", check: paths::c18, rule: "One case is one definition with all its lookups.", assumptions: &[] },
        Prop { id: "C19", check: tree::c19, rule: "One case is the tree of one type.", assumptions: &["chains of 256 newtypes are a known finding"] },
        Prop { id: "C20", check: tree::c20, rule: "One case is the printed layout of one type.", assumptions: &["chains of 256 newtypes are a known finding"] },
        Prop { id: "C21", check: edit::c21, rule: "One case is one operation in one reachable state of a library.", assumptions: &[] },
        Prop { id: "C23", check: vals::c23, rule: "One case is one value with all accessors.", assumptions: &[] },
        Prop { id: "C24", check: serdes::c24, rule: "One case is one value of one type in one notation through one text format.", assumptions: &["byte strings read as text are a known finding"] },
        Prop { id: "C25", check: vals::c25, rule: "One case is one document of one format.", assumptions: &["floats and dates are known findings"] },
        Prop { id: "C26", check: vals::c26, rule: "One case is one typed value rendered and looked up in the table of all texts of its type.", assumptions: &[] },
        Prop { id: "C29", check: source::c29, rule: "One case is one definition or library rendered with all formatting options and read back.", assumptions: &["definitions with inline composites are rendered but not read back"] },
        Prop { id: "C27", check: files::c27, rule: "One case is one configuration, one write of one history, or one failing byte offset.", assumptions: &["failures are injected through limits on the size of files and through closed or unwritable targets"] },
        Prop { id: "C28", check: vals::c28, rule: "One case is one version.", assumptions: &[] },
        Prop { id: "C30", check: streams::c30, rule: "One case is one behaviour of a stream (portions, interruptions, a failure after a number of bytes) for one sequence of values.", assumptions: &[] },
        Prop { id: "C31", check: own::c31, rule: "One case is one object of one type of the StrictTypes library: its bytes are read by the schema, compared field by field, written back, and its description is type checked and written.", assumptions: &[] },
        Prop { id: "C32", check: own::c32, rule: "One case is one path, step or class in one form, or one byte string given to the decoder of one of them.", assumptions: &["serde_json and serde_yaml are trusted"] },
        Prop { id: "C33", check: reflect::c33, rule: "One case is one build of a library of one Rust type against one set of dependencies with the types they declare.", assumptions: &[] },
        Prop { id: "C34", check: order::c34, rule: "One case is one pair of things of one kind, compared both ways; each pool of things with an order is also compared with one linear arrangement of it.", assumptions: &["the id of a library commits to its name, so that dependencies with one id have one name", "single variants (crate strict_encoding) are equal by name or tag and are not judged"] },
    ];
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--nested") {
        codec::nested(args[2].parse().unwrap());
        return;
    }
    std::process::exit(crate::core::main(props));
}
