//! What a batch of runs reached. Everything in here adds up the same way whatever order the runs
//! are executed in, so the totals do not depend on the number of workers.
use crate::obs::Fnv;
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub clean_runs: u64,
    pub sim_us: u64,
    pub events: u64,
    pub captures: u64,
    pub short_captures: u64,
    pub entries: u64,
    pub values: u64,
    pub evals: u64,
    pub faults: HashMap<&'static str, u64>,
    pub reach: HashMap<u64, (String, u64)>,
    pub shapes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub histories: HashSet<u64>,
    pub fault_seqs: HashSet<u64>,
    /// order-independent digest of all runs
    pub digest: u64,
    pub max_std: usize,
    pub max_ext: usize,
    pub samples: Vec<(u64, String)>,
}

impl Stats {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn reach(&mut self, pre: &'static str, name: &str) {
        let mut h = Fnv::new();
        h.bytes(pre.as_bytes());
        h.bytes(name.as_bytes());
        match self.reach.get_mut(&h.0) {
            Some(e) => e.1 += 1,
            None => {
                self.reach.insert(h.0, (format!("{}{}", pre, name), 1));
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.clean_runs += o.clean_runs;
        self.sim_us += o.sim_us;
        self.events += o.events;
        self.captures += o.captures;
        self.short_captures += o.short_captures;
        self.entries += o.entries;
        self.values += o.values;
        self.evals += o.evals;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, (n, v)) in o.reach {
            self.reach.entry(k).or_insert((n, 0)).1 += v;
        }
        self.shapes.extend(o.shapes);
        self.nontrivial.extend(o.nontrivial);
        self.histories.extend(o.histories);
        self.fault_seqs.extend(o.fault_seqs);
        self.digest = self.digest.wrapping_add(o.digest);
        self.max_std = self.max_std.max(o.max_std);
        self.max_ext = self.max_ext.max(o.max_ext);
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(8);
    }
}
