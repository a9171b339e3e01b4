//! Known findings: genuine defects recorded rather than repaired (see /verif/known_findings.md).

use crate::run::Violation;

pub struct Known {
    pub property: &'static str,
    /// The violation class and a text its detail must contain.
    pub class: &'static str,
    pub detail: &'static str,
    pub what: &'static str,
}

pub static KNOWN: &[Known] = &[];

pub fn matches(id: &str, v: &Violation) -> Option<&'static str> {
    KNOWN
        .iter()
        .find(|k| k.property == id && k.class == v.class && v.detail.contains(k.detail))
        .map(|k| k.what)
}

pub fn lines(id: &str) -> Vec<String> {
    KNOWN
        .iter()
        .filter(|k| k.property == id)
        .map(|k| format!("KNOWN-FINDING: property={} {}", k.property, k.what))
        .collect()
}
