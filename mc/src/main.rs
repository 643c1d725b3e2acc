//! Explicit-state and stateless model checking of the certified-vars crate: the real code is
//! driven through every history, input and fault of a bounded space and compared with independent
//! reference models. See /verif/DESIGN.md.
mod alloc;
mod engine;
mod hist;
mod prefix;
mod nested;
mod seq;
mod paged;
mod group;
mod enc;
mod persist;
mod mem;
mod faults;
mod determinism;
mod binding;
mod spec;
mod tree;

use engine::{PropDef, Scen};

#[global_allocator]
static A: alloc::Checked = alloc::Checked;

const PARTS: &str = "see parts: what each part enumerated completely, with the bounds it used";

static SCENS: &[Scen] = &[
    Scen { name: "hist", f: hist::hist, ops_from: Some(2) },
    Scen { name: "dirty", f: hist::dirty, ops_from: None },
    Scen { name: "collected", f: hist::collected, ops_from: Some(1) },
    Scen { name: "family", f: hist::family, ops_from: None },
    Scen { name: "again", f: hist::again, ops_from: None },
    Scen { name: "bulk", f: hist::bulk, ops_from: None },
    Scen { name: "perms", f: hist::perms, ops_from: Some(2) },
    Scen { name: "prefix-shape", f: prefix::shape, ops_from: Some(3) },
    Scen { name: "prefix-long", f: prefix::long, ops_from: None },
    Scen { name: "prefix-arrays", f: prefix::arrays, ops_from: None },
    Scen { name: "prefix-chars", f: prefix::chars, ops_from: None },
    Scen { name: "prefix-sets", f: prefix::sets, ops_from: None },
    Scen { name: "nested2", f: nested::nested2, ops_from: Some(1) },
    Scen { name: "nested3", f: nested::nested3, ops_from: Some(0) },
    Scen { name: "vlong", f: enc::vlong, ops_from: None },
    Scen { name: "llong", f: enc::llong, ops_from: None },
    Scen { name: "dbig", f: determinism::bigreads, ops_from: None },
    Scen { name: "own-dangling", f: mem::dangling, ops_from: None },
    Scen { name: "nestdeep", f: nested::nestdeep, ops_from: Some(1) },
    Scen { name: "nestbig", f: nested::nestbig, ops_from: None },
    Scen { name: "nestwrap", f: nested::nestwrap, ops_from: None },
    Scen { name: "mapseq", f: nested::mapseq, ops_from: Some(0) },
    Scen { name: "seq", f: seq::seq, ops_from: Some(1) },
    Scen { name: "seqlen", f: seq::seqlen, ops_from: None },
    Scen { name: "paged-unread", f: paged::unread, ops_from: Some(3) },
    Scen { name: "paged-sizes", f: paged::sizes, ops_from: Some(2) },
    Scen { name: "paged", f: paged::paged, ops_from: Some(3) },
    Scen { name: "glayout", f: group::layout, ops_from: Some(1) },
    Scen { name: "gselect", f: group::selection, ops_from: None },
    Scen { name: "gwide", f: group::wide, ops_from: Some(3) },
    Scen { name: "gwidelayout", f: group::widelayout, ops_from: None },
    Scen { name: "gbig", f: group::big, ops_from: None },
    Scen { name: "gbiglayout", f: group::biglayout, ops_from: None },
    Scen { name: "gname", f: group::name, ops_from: None },
    Scen { name: "gvast", f: group::vast, ops_from: None },
    Scen { name: "glong", f: group::long, ops_from: None },
    Scen { name: "gmutate", f: group::mutate, ops_from: Some(1) },
    Scen { name: "gnested", f: group::nested, ops_from: None },
    Scen { name: "htree", f: enc::htree, ops_from: None },
    Scen { name: "hlen", f: enc::hlen, ops_from: None },
    Scen { name: "hdeep", f: enc::hdeep, ops_from: None },
    Scen { name: "hreal", f: enc::hreal, ops_from: None },
    Scen { name: "vnum", f: enc::vnum, ops_from: None },
    Scen { name: "vbytes", f: enc::vbytes, ops_from: None },
    Scen { name: "vchars", f: enc::vchars, ops_from: None },
    Scen { name: "lchars", f: enc::lchars, ops_from: None },
    Scen { name: "shaped", f: tree::shaped, ops_from: None },
    Scen { name: "equal", f: tree::equal, ops_from: Some(1) },
    Scen { name: "vptr", f: enc::vptr, ops_from: None },
    Scen { name: "lnum", f: enc::lnum, ops_from: None },
    Scen { name: "lbytes", f: enc::lbytes, ops_from: None },
    Scen { name: "lnonnull", f: enc::lnonnull, ops_from: None },
    Scen { name: "lpaged", f: enc::lpaged, ops_from: None },
    Scen { name: "pmap", f: persist::pmap, ops_from: Some(1) },
    Scen { name: "pforeign", f: persist::pforeign, ops_from: Some(1) },
    Scen { name: "pforeignbig", f: persist::pforeignbig, ops_from: None },
    Scen { name: "pwrap", f: persist::pwrap, ops_from: None },
    Scen { name: "pbig", f: persist::pbig, ops_from: None },
    Scen { name: "pseq", f: persist::pseq, ops_from: None },
    Scen { name: "own", f: mem::own, ops_from: Some(1) },
    Scen { name: "own-liar", f: mem::own_liar, ops_from: Some(5) },
    Scen { name: "own-big", f: mem::big, ops_from: None },
    Scen { name: "own-seq", f: mem::own_seq, ops_from: Some(0) },
    Scen { name: "own-paged", f: mem::own_paged, ops_from: Some(1) },
    Scen { name: "own-group", f: mem::own_group, ops_from: Some(1) },
    Scen { name: "own-fault", f: mem::own_fault, ops_from: None },
    Scen { name: "fmap", f: faults::fmap, ops_from: Some(5) },
    Scen { name: "ftrait", f: faults::ftrait, ops_from: Some(6) },
    Scen { name: "fseq", f: faults::fseq, ops_from: None },
    Scen { name: "fdeep", f: faults::fdeep, ops_from: Some(5) },
    Scen { name: "fgroup", f: faults::fgroup, ops_from: None },
    Scen { name: "fdata", f: faults::data, ops_from: None },
    Scen { name: "fevery", f: faults::every, ops_from: None },
    Scen { name: "ftyped", f: faults::typed, ops_from: None },
    Scen { name: "fcandid", f: faults::candid_typed, ops_from: None },
    Scen { name: "dreads", f: determinism::reads, ops_from: Some(4) },
    Scen { name: "drepeat", f: determinism::repeat, ops_from: Some(5) },
    Scen { name: "dagain", f: determinism::again, ops_from: Some(1) },
    Scen { name: "dgroup", f: determinism::greads, ops_from: Some(4) },
    Scen { name: "dgagain", f: determinism::gagain, ops_from: None },
    Scen { name: "dseq", f: determinism::sreads, ops_from: Some(2) },
    Scen { name: "dpaged", f: determinism::preads, ops_from: Some(3) },
    Scen { name: "dnested", f: determinism::nreads, ops_from: Some(3) },
    Scen { name: "dproc", f: determinism::processes, ops_from: None },
    Scen { name: "bone", f: binding::one, ops_from: Some(2) },
    Scen { name: "bpair", f: binding::pair, ops_from: None },
];

static PROPS: &[PropDef] = &[
    PropDef { id: "C01", level: "model_checking", explore: tree::c01, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C02", level: "model_checking", explore: tree::c02, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C03", level: "model_checking", explore: tree::c03, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C04", level: "model_checking", explore: tree::c04, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C05", level: "model_checking", explore: tree::c05, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C18", level: "model_checking", explore: tree::c18, bounds: tree::BOUNDS, assumptions: tree::ASSUME },
    PropDef { id: "C06", level: "model_checking", explore: prefix::c06, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C07", level: "model_checking", explore: nested::c07, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C08", level: "model_checking", explore: seq::c08, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C09", level: "model_checking", explore: paged::c09, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C10", level: "model_checking", explore: paged::c10, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C11", level: "model_checking", explore: group::c11, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C12", level: "model_checking", explore: group::c12, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C13", level: "exploration", explore: enc::c13, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C14", level: "exploration", explore: enc::c14, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C15", level: "exploration", explore: enc::c15, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C16", level: "model_checking", explore: persist::c16, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C17", level: "model_checking", explore: mem::c17, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C19", level: "fault_enumeration", explore: faults::c19, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C20", level: "model_checking", explore: determinism::c20, bounds: PARTS, assumptions: tree::ASSUME },
    PropDef { id: "C21", level: "model_checking", explore: binding::c21, bounds: PARTS, assumptions: tree::ASSUME },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "corpus" {
        match determinism::corpus(a[2].parse().expect("part")) {
            Ok(h) => println!("{h}"),
            Err(e) => panic!("{e}"),
        }
        return;
    }
    if a.len() == 3 && a[1] == "dangling" {
        return mem::dangle(a[2].parse().expect("number"));
    }
    std::process::exit(engine::main(PROPS, SCENS));
}
