//! C28: the sans-IO interface without the standard library.
use super::{crypto, hs, secrets};
use crate::runner::Property;

pub fn properties() -> Vec<Property> {
    let mut families = Vec::new();
    for p in crypto::properties().into_iter().chain(hs::properties()).chain(secrets::properties()) {
        families.extend(p.families);
    }
    families.push(hs::v1_sans());
    families.push(hs::search());
    vec![Property {
        id: "C28",
        level: "exploration",
        rule: "The cases of the sans-IO families of C01 to C09, C16 and C30, with their reference model and oracles, against a build of the crate without the standard library (no `std` feature in the crate or in what it depends on). Non-trivial: as in those properties, family by family.",
        assumptions: &["the target is the 64-bit machine of the sandbox: no other architecture can be built here"],
        families,
    }]
}
