use crate::case::{Case, Verdict};

pub mod content;
pub mod divide;
pub mod forms;
pub mod interact;
pub mod layout;
pub mod names;
pub mod memory;
pub mod reading;
pub mod robust;
pub mod styles;
pub mod time;
pub mod twins;

pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> Verdict,
}

pub struct Property {
    pub id: &'static str,
    pub run: fn(&mut Case) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub probes: fn() -> Vec<Probe>,
}

pub fn no_probes() -> Vec<Probe> {
    vec![]
}

pub fn all() -> Vec<Property> {
    let mut all = vec![];
    all.extend(content::properties());
    all.extend(divide::properties());
    all.extend(forms::properties());
    all.extend(names::properties());
    all.extend(interact::properties());
    all.extend(styles::properties());
    all.extend(layout::properties());
    all.extend(reading::properties());
    all.push(reading::conversions());
    all.extend(memory::properties());
    all.extend(robust::properties());
    all.extend(time::properties());
    all.extend(twins::properties());
    all
}
