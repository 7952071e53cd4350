pub mod astc;
pub mod blocks;
pub mod builds;
pub mod crunch;
pub mod formats;
pub mod hosts;
pub mod image;
pub mod pvrtc;
pub mod python;

use crate::engine::{Prop, Relation};

/// The relations a coverage-guided search can drive: those whose cases are
/// small, in this process.
pub fn fuzzable(p: &Prop) -> Vec<&Relation> {
    match p.id {
        "C17" | "C18" | "C19" | "C20" => vec![],
        _ => p.relations.iter().filter(|r| r.quick >= 50_000).collect(),
    }
}
/// A fuzzer's input: the relation its first byte chooses, and the draws.
pub fn fuzz_relation<'a, 'b>(p: &'a Prop, input: &'b [u8]) -> Option<(&'a Relation, &'b [u8])> {
    let r = fuzzable(p);
    let (&k, draws) = input.split_first()?;
    Some((r[k as usize % r.len()], draws))
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(blocks::props());
    v.extend(pvrtc::props());
    v.extend(astc::props());
    v.extend(image::props());
    v.extend(crunch::props());
    v.extend(builds::props());
    v.extend(python::props());
    v.extend(hosts::props());
    v
}
