//! Shrinks a violating plan while it keeps violating in the same way.
use crate::engine;
use crate::plan::{Ev, Fault, Plan, Store};
use crate::stats::Stats;
use std::time::{Duration, Instant};

pub fn violates(p: &Plan, prop: u8, class: &str) -> bool {
    let mut st = Stats::default();
    matches!(engine::execute(p, prop, &mut st, u64::MAX).viol, Some(v) if v.class == class)
}

pub fn minimise(p: &Plan, limit: Duration, violates: impl Fn(&Plan) -> bool) -> (Plan, usize) {
    let t0 = Instant::now();
    let mut best = p.clone();
    let mut tries = 0usize;
    let mut test = |q: &Plan, best: &mut Plan| -> Option<bool> {
        if t0.elapsed() > limit || tries > 20_000 {
            return None;
        }
        tries += 1;
        let ok = violates(q);
        if ok {
            *best = q.clone();
        }
        Some(ok)
    };
    'all: loop {
        let size = (best.evs.len(), best.devs.iter().map(|d| d.bytes.iter().filter(|b| **b != 0).count()).sum::<usize>());
        // events
        let mut n = best.evs.len().next_power_of_two();
        while n >= 1 {
            let mut i = 0;
            while i < best.evs.len() {
                let mut q = best.clone();
                let e = (i + n).min(q.evs.len());
                q.evs.drain(i..e);
                match test(&q, &mut best) {
                    None => break 'all,
                    Some(true) => {}
                    Some(false) => i += n,
                }
            }
            n /= 2;
        }
        // faults
        for i in 0..best.evs.len() {
            let mut q = best.clone();
            let changed = match &mut q.evs[i].1 {
                Ev::Read { fault, .. } if *fault != Fault::None => {
                    *fault = Fault::None;
                    true
                }
                Ev::Finish { store, .. } if *store != Store::Ok => {
                    *store = Store::Ok;
                    true
                }
                Ev::Write { bytes, .. } | Ev::Corrupt { bytes, .. } | Ev::Damage { bytes, .. } if bytes.len() > 1 => {
                    bytes.pop();
                    true
                }
                _ => false,
            };
            if changed && test(&q, &mut best).is_none() {
                break 'all;
            }
            if best.evs[i].0 != 1 {
                let mut q = best.clone();
                q.evs[i].0 = 1;
                if test(&q, &mut best).is_none() {
                    break 'all;
                }
            }
        }
        // readings
        for i in 0..best.evs.len() {
            while let Ev::Poll { from, n, .. } = best.evs[i].1 {
                if n < 2 {
                    break;
                }
                let mut less = false;
                for (f, m) in [(from, n / 2), (from + n / 2, n - n / 2)] {
                    let mut q = best.clone();
                    if let Ev::Poll { from, n, .. } = &mut q.evs[i].1 {
                        (*from, *n) = (f, m);
                    }
                    match test(&q, &mut best) {
                        None => break 'all,
                        Some(true) => {
                            less = true;
                            break;
                        }
                        Some(false) => {}
                    }
                }
                if !less {
                    break;
                }
            }
        }
        if best.wide {
            let mut q = best.clone();
            q.wide = false;
            if test(&q, &mut best).is_none() {
                break 'all;
            }
        }
        // register contents
        for d in 0..best.devs.len() {
            let mut n = 2048usize;
            while n >= 1 {
                let mut i = 0;
                while i < best.devs[d].bytes.len() {
                    let e = (i + n).min(best.devs[d].bytes.len());
                    if best.devs[d].bytes[i..e].iter().any(|b| *b != 0) {
                        let mut q = best.clone();
                        q.devs[d].bytes[i..e].fill(0);
                        if test(&q, &mut best).is_none() {
                            break 'all;
                        }
                    }
                    i += n;
                }
                n /= 2;
            }
        }
        let now = (best.evs.len(), best.devs.iter().map(|d| d.bytes.iter().filter(|b| **b != 0).count()).sum::<usize>());
        if now == size {
            break;
        }
    }
    (best, tries)
}
