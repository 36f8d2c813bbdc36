//! A single case: its random source, what it observed and its verdict.

use crate::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub index: u64,
    pub rng: Rng,
    pub tier: Tier,
    /// Small workloads for slow interpreters.
    pub tiny: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    sig: std::collections::hash_map::DefaultHasher,
    pub trace: Vec<String>,
    /// When set, `log` prints at once, so that the trace survives a crash of the process.
    pub verbose: bool,
}

pub type Verdict = Result<(), String>;

impl Case {
    /// Count of updates of a history, a few histories are long.
    pub fn updates(&mut self, tiny: usize, lo: usize, hi: usize) -> usize {
        let n = self.rng.range(lo, hi);
        match self.index % 211 {
            _ if self.tiny => tiny,
            17 => n * 20,
            _ => n,
        }
    }

    pub fn new(property: &str, seed: u64, index: u64, tier: Tier) -> Self {
        let mut h = mix(seed ^ 0x5eed);
        for b in property.bytes() {
            h = mix(h ^ b as u64);
        }
        Case {
            index,
            rng: Rng::new(mix(h ^ mix(index))),
            tier,
            tiny: false,
            stats: BTreeMap::new(),
            nontrivial: false,
            sig: Default::default(),
            trace: vec![],
            verbose: false,
        }
    }

    /// Counts something observed by the monitor.
    pub fn count(&mut self, what: &'static str, n: usize) {
        *self.stats.entry(what).or_default() += n as u64;
    }

    /// Adds to the description of the case, which also identifies it.
    pub fn log(&mut self, line: String) {
        line.hash(&mut self.sig);
        if self.verbose {
            println!("{line}");
        }
        self.trace.push(line);
    }

    /// Adds something observed to the identity of the case.
    pub fn observe(&mut self, h: u64) {
        h.hash(&mut self.sig);
    }

    pub fn sig(&self) -> u64 {
        self.sig.finish()
    }
}

#[macro_export]
macro_rules! bail {
    ($($arg:tt)*) => {
        return Err(format!($($arg)*))
    };
}
