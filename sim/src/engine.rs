//! Executes a plan: devices, collectors, storage and readers in one process, one event after the
//! other, in simulated time. The library under test is the reader; it runs unmodified.
use crate::handles::{self, Arena, Walk};
use crate::obs::{Fnv, Obs, Sec};
use crate::plan::{Ev, Fault, Plan, Store};
use crate::stats::Stats;
use crate::walk::{self, Ctx, Step, Walked};
use pcics::capabilities::{Capabilities, Capability, CapabilityError};
use pcics::extended_capabilities::{ExtendedCapabilities, ExtendedCapability, ExtendedCapabilityError};
use pcics::header::{Header, HeaderType};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;

use crate::walk::{EXT_MAX, STD_MAX};
const SNAPS: usize = 48;
const HANDLES: usize = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// what kind of disagreement; stable under minimisation
    pub class: String,
    pub detail: String,
}
type Res = Result<(), Violation>;

fn bad(class: impl Into<String>, detail: impl Into<String>) -> Res {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// label up to its index or the first space
fn class_of(d: &str) -> String {
    d.split(|c| c == '[' || c == ':').next().unwrap_or("").to_string()
}

type StdR = Result<Capability<'static>, CapabilityError>;
type ExtR = Result<ExtendedCapability<'static>, ExtendedCapabilityError>;

/// One capture, and what the library made of it.
pub struct Snap {
    pub bytes: &'static [u8],
    pub dev: usize,
    hdr: Option<&'static Header>,
    std: Vec<StdR>,
    std_more: bool,
    ext: Vec<ExtR>,
    ext_more: bool,
}

impl Snap {
    fn std_end(&self, wide: bool) -> usize {
        if wide { self.bytes.len() } else { self.bytes.len().min(0x100) }
    }
    fn std_data(&self, wide: bool) -> &'static [u8] {
        self.bytes.get(0x40..self.std_end(wide)).unwrap_or(&[])
    }
    fn ext_data(&self) -> &'static [u8] {
        self.bytes.get(0x100..).unwrap_or(&[])
    }
    fn ctx(&self) -> Ctx {
        match self.hdr {
            Some(h) => walk::ctx(h),
            None => Ctx { bridge: false, ids: (0, 0) },
        }
    }
    /// capabilities pointer as stored
    fn first(&self) -> u8 {
        let at = match self.bytes.get(0x0e).copied().unwrap_or(0) & 0x7f {
            0 | 1 => 0x34,
            2 => 0x14,
            _ => return 0,
        };
        self.bytes.get(at).copied().unwrap_or(0)
    }
    /// context from the bytes, without the library
    fn ref_ctx(&self) -> Ctx {
        let g = |i: usize| self.bytes.get(i).copied().unwrap_or(0) as u16;
        Ctx { bridge: g(0x0e) & 0x7f == 1, ids: (g(0) | g(1) << 8, g(2) | g(3) << 8) }
    }
    fn ref_std(&self, wide: bool) -> Walked {
        if self.bytes.len() < 0x40 {
            return Walked { steps: vec![], cyclic: false, back: None, places: vec![] };
        }
        walk::std_walk(self.bytes, self.first(), &self.ref_ctx(), self.std_end(wide))
    }
    fn ref_ext(&self) -> Walked {
        walk::ext_walk(self.bytes)
    }
}

struct Dev {
    ext: bool,
    now: Vec<u8>,
    old: Vec<u8>,
    here: bool,
    stored: Option<Vec<u8>>,
}
struct Col {
    dev: usize,
    size: usize,
    buf: Vec<u8>,
    dead: bool,
}
struct Held {
    w: Box<dyn Walk>,
    seq: std::rc::Rc<Vec<u64>>,
    pos: usize,
    origin: (usize, u8, u8),
}

pub struct World<'p> {
    // dropped in this order: what points into the arena goes first
    handles: Vec<Option<Held>>,
    snaps: Vec<Snap>,
    arena: Arena,
    plan: &'p Plan,
    prop: u8,
    wide: bool,
    devs: Vec<Dev>,
    cols: Vec<Option<Col>>,
    seqs: HashMap<(usize, u8, u8), std::rc::Rc<Vec<u64>>>,
    log: Fnv,
    hist: Fnv,
    faults: Fnv,
    faulty: u32,
    shape: Fnv,
    entries: u64,
    shown: String,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Panics are part of what is observed: remember where, print nothing.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((at, msg)));
    }));
}

pub struct Done {
    pub viol: Option<Violation>,
    /// the harness itself went wrong
    pub broken: Option<String>,
    pub digest: u64,
}

/// Execute `plan`, checking property `prop`.
pub fn execute(plan: &Plan, prop: u8, st: &mut Stats, index: u64) -> Done {
    let mut w = World {
        handles: (0..HANDLES).map(|_| None).collect(),
        snaps: vec![],
        arena: Arena::default(),
        plan,
        prop,
        wide: plan.wide && matches!(prop, 1 | 2 | 7),
        devs: plan
            .devs
            .iter()
            .map(|d| {
                let mut b = d.bytes.clone();
                b.resize(4096, 0);
                Dev { ext: d.ext, now: b.clone(), old: b, here: true, stored: None }
            })
            .collect(),
        cols: (0..8).map(|_| None).collect(),
        seqs: HashMap::new(),
        log: Fnv::new(),
        hist: Fnv::new(),
        faults: Fnv::new(),
        faulty: 0,
        shape: Fnv::new(),
        entries: 0,
        shown: String::new(),
    };
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(st)));
    let mut done = Done { viol: None, broken: None, digest: 0 };
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => done.viol = Some(v),
        Err(_) => {
            let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if at.starts_with("src/") {
                done.broken = Some(format!("{} at {}", msg, at));
            } else {
                done.viol = Some(Violation { class: format!("panic {}", at), detail: format!("panicked at {}: {}", at, msg) });
            }
        }
    }
    st.runs += 1;
    if w.faulty == 0 {
        st.clean_runs += 1;
    }
    w.log.u64(w.hist.0);
    w.log.u64(w.faults.0);
    if let Some(v) = &done.viol {
        w.log.bytes(v.class.as_bytes());
        w.log.bytes(v.detail.as_bytes());
    }
    done.digest = w.log.0;
    st.digest = st.digest.wrapping_add(w.log.0);
    st.shapes.insert(w.shape.0);
    if w.entries > 0 && (w.faulty > 0 || w.entries > 1) {
        let mut h = Fnv(w.shape.0);
        h.u64(w.hist.0);
        h.u64(w.faults.0);
        st.nontrivial.insert(h.0);
    }
    if w.faulty > 0 {
        st.fault_seqs.insert(w.faults.0);
    }
    if w.hist.0 != Fnv::new().0 {
        st.histories.insert(w.hist.0);
    }
    if index < 6 {
        st.samples.push((index, std::mem::take(&mut w.shown)));
    }
    done
}

impl World<'_> {
    fn is(&self, p: u8) -> bool {
        self.prop == p
    }
    fn fault(&mut self, st: &mut Stats, k: &'static str) {
        st.fault(k);
        self.faults.bytes(k.as_bytes());
        self.faulty += 1;
        if self.shown.len() < 1500 {
            let _ = write!(self.shown, "fault {}; ", k);
        }
    }

    fn run(&mut self, st: &mut Stats) -> Res {
        let plan = self.plan;
        for (dt, ev) in &plan.evs {
            st.sim_us += *dt as u64;
            st.events += 1;
            self.event(ev, st)?;
        }
        Ok(())
    }

    fn event(&mut self, ev: &Ev, st: &mut Stats) -> Res {
        match ev {
            Ev::Write { dev, off, bytes } | Ev::Corrupt { dev, off, bytes } => {
                let bad = matches!(ev, Ev::Corrupt { .. });
                if let Some(d) = self.devs.get_mut(*dev as usize) {
                    for (i, b) in bytes.iter().enumerate() {
                        if let Some(x) = d.now.get_mut(*off as usize + i) {
                            *x = *b
                        }
                    }
                    if bad {
                        self.fault(st, "register corruption");
                    } else {
                        *st.faults.entry("(register writes by the driver)").or_insert(0) += 1;
                    }
                }
            }
            Ev::Unplug { dev } => {
                if let Some(d) = self.devs.get_mut(*dev as usize) {
                    if d.here {
                        d.here = false;
                        self.fault(st, "surprise removal");
                    }
                }
            }
            Ev::Plug { dev } => {
                if let Some(d) = self.devs.get_mut(*dev as usize) {
                    d.here = true
                }
            }
            Ev::Begin { col, dev, size } => {
                let d = *dev as usize;
                if let (Some(c), Some(_)) = (self.cols.get_mut(*col as usize), self.devs.get(d)) {
                    *c = Some(Col { dev: d, size: (*size as usize).min(4096), buf: vec![], dead: false });
                }
            }
            Ev::Read { col, len, fault } => self.read(*col as usize, *len as usize, *fault, st),
            Ev::Finish { col, store } => return self.finish(*col as usize, *store, st),
            Ev::Damage { snap, off, bytes } => {
                if let Some(s) = self.snaps.get(*snap as usize) {
                    let (mut b, dev) = (s.bytes.to_vec(), s.dev);
                    let mut hit = false;
                    for (i, v) in bytes.iter().enumerate() {
                        if let Some(x) = b.get_mut(*off as usize + i) {
                            hit |= *x != *v;
                            *x = *v;
                        }
                    }
                    if hit {
                        self.fault(st, "stored bytes changed");
                    }
                    return self.arrive(b, dev, Some(*snap as usize), st);
                }
            }
            Ev::Cut { snap, len } => {
                if let Some(s) = self.snaps.get(*snap as usize) {
                    let n = s.bytes.len().min(*len as usize);
                    let (b, dev) = (s.bytes[..n].to_vec(), s.dev);
                    if n < s.bytes.len() {
                        self.fault(st, "stored tail lost later");
                    }
                    return self.arrive(b, dev, Some(*snap as usize), st);
                }
            }
            Ev::Pair { a, b } => {
                let (a, b) = (*a as usize, *b as usize);
                if a < self.snaps.len() && b < self.snaps.len() {
                    return self.pair(a, b, st);
                }
            }
            Ev::Relocate { snap, entry, to } => {
                if (*snap as usize) < self.snaps.len() && self.is(6) {
                    return self.relocate(*snap as usize, *entry as usize, *to as usize, st);
                }
            }
            Ev::WriteBack { snap, pick } => {
                if (*snap as usize) < self.snaps.len() && self.is(13) {
                    return self.write_back(*snap as usize, *pick, st);
                }
            }
            Ev::Alone { snap, entry, len } => {
                if (*snap as usize) < self.snaps.len() && self.is(15) {
                    return self.alone(*snap as usize, *entry as usize, *len as usize, st);
                }
            }
            Ev::Poll { snap, entry, len, seed, from, n } => {
                if (*snap as usize) < self.snaps.len() && matches!(self.prop, 1 | 5 | 10 | 11 | 12 | 13 | 15) {
                    return self.reread(*snap as usize, *entry as usize, *len as usize, *seed, (*from, *n), st);
                }
                if (*snap as usize) < self.snaps.len() && self.is(14) {
                    return self.poll(*snap as usize, *entry as usize, *len as usize, *seed, (*from, *n), st);
                }
            }
            Ev::Again { snap, shift, thread } => {
                if (*snap as usize) < self.snaps.len() && self.is(16) {
                    return self.again(*snap as usize, *shift as usize, *thread, st);
                }
            }
            Ev::Fresh { order } => {
                if !self.snaps.is_empty() && self.is(16) {
                    return self.fresh(*order, st);
                }
            }
            Ev::Restart => {
                if self.handles.iter().any(|h| h.is_some()) {
                    for h in &mut self.handles {
                        *h = None
                    }
                    self.hist.u64(0x7e57);
                    st.fault("reader restart");
                }
            }
            ev => {
                if self.is(7) {
                    return self.handle(ev, st);
                }
            }
        }
        Ok(())
    }

    fn read(&mut self, col: usize, len: usize, fault: Fault, st: &mut Stats) {
        let Some(Some(c)) = self.cols.get_mut(col) else { return };
        if c.dead {
            return;
        }
        let pos = c.buf.len();
        let len = len.min(c.size - pos.min(c.size));
        let d = &self.devs[c.dev];
        let mut fired = None;
        if fault == Fault::Interrupted {
            self.fault(st, "interrupted read");
            st.sim_us += 1000;
            return;
        }
        if fault == Fault::Abort {
            c.dead = true;
            if pos < c.size {
                self.fault(st, "collector crash");
            }
            return;
        }
        let mut v: Vec<u8> = d.now[pos..pos + len].to_vec();
        if !d.ext {
            // nothing behind the conventional space
            for (i, x) in v.iter_mut().enumerate() {
                if pos + i >= 256 {
                    *x = 0xff
                }
            }
        }
        let before = v.clone();
        match fault {
            Fault::Short(n) => {
                if (n as usize) < len {
                    v.truncate(n as usize);
                    c.dead = true;
                    fired = Some("short read");
                }
            }
            Fault::Ones => {
                v.fill(0xff);
                st.sim_us += 50_000;
                fired = Some("no completion, all ones");
            }
            Fault::Zeros => {
                v.fill(0);
                fired = Some("read as zeros");
            }
            Fault::Flip(b) => {
                if let Some(x) = v.get_mut(b as usize / 8) {
                    *x ^= 1 << (b % 8);
                    fired = Some("bit flip");
                }
            }
            Fault::Stale => {
                v.copy_from_slice(&d.old[pos..pos + len]);
                fired = Some("stale read");
            }
            Fault::Misdirect(o) => {
                for (i, x) in v.iter_mut().enumerate() {
                    *x = d.now[(o as usize + i) % 4096]
                }
                fired = Some("misdirected read");
            }
            _ => {}
        }
        if v == before && fault != Fault::Ones {
            fired = None;
        }
        if !d.here && !v.is_empty() {
            v.fill(0xff);
            fired = Some("read of a removed device");
        }
        c.buf.extend(v);
        if let Some(k) = fired {
            self.fault(st, k);
        }
    }

    fn finish(&mut self, col: usize, store: Store, st: &mut Stats) -> Res {
        let Some(Some(c)) = self.cols.get_mut(col).map(|c| c.take()) else { return Ok(()) };
        let mut b = c.buf;
        if b.len() < c.size && !c.dead {
            self.fault(st, "capture given up early");
        }
        let before = b.clone();
        let old = self.devs[c.dev].stored.clone();
        let kind = match store {
            Store::Ok => "",
            Store::LostTail(n) => {
                b.truncate(n as usize);
                "lost tail"
            }
            Store::TornSector(k) => {
                for x in b.iter_mut().skip(k as usize * 64).take(64) {
                    *x = 0
                }
                "torn write"
            }
            Store::ZeroTail(n) => {
                for x in b.iter_mut().skip(n as usize) {
                    *x = 0
                }
                "tail never written"
            }
            Store::Twice => {
                let mut t = b.clone();
                t.extend_from_slice(&b);
                t.truncate(4096);
                b = t;
                "written twice"
            }
            Store::OldSector(k) => {
                if let Some(o) = &old {
                    let at = k as usize * 64;
                    for i in at..(at + 64).min(b.len()).min(o.len()) {
                        b[i] = o[i]
                    }
                }
                "lost write, old sector"
            }
        };
        if b != before {
            self.fault(st, kind);
        }
        self.devs[c.dev].stored = Some(b.clone());
        st.captures += 1;
        if b.len() < 256 || (self.devs[c.dev].ext && b.len() < 4096) {
            st.short_captures += 1;
        }
        self.arrive(b, c.dev, None, st)
    }

    /// A capture reaches the reader: decode it, and check it right away.
    fn arrive(&mut self, b: Vec<u8>, dev: usize, parent: Option<usize>, st: &mut Stats) -> Res {
        if self.snaps.len() >= SNAPS {
            return Ok(());
        }
        let s = self.decode(b, dev)?;
        self.shape.u64(s.bytes.len().min(256) as u64 / 64);
        let sr: Vec<Step> = s.std.iter().map(walk::std_step).collect();
        let er: Vec<Step> = s.ext.iter().map(walk::ext_step).collect();
        for x in sr.iter() {
            let n = x.name();
            self.shape.bytes(n.as_bytes());
            st.reach("std ", &n);
        }
        self.shape.u64(0);
        for x in er.iter() {
            let n = x.name();
            self.shape.bytes(n.as_bytes());
            st.reach("ext ", &n);
        }
        if self.shown.len() < 1500 {
            let name = |v: &[Step]| v.iter().take(12).map(|x| x.name()).collect::<Vec<_>>().join(",");
            let _ = write!(self.shown, "capture of {} bytes: standard [{}] extended [{}]; ", s.bytes.len(), name(&sr), name(&er));
        }
        st.max_std = st.max_std.max(sr.len());
        st.max_ext = st.max_ext.max(er.len());
        st.entries += (sr.len() + er.len()) as u64;
        self.entries += (sr.len() + er.len()) as u64;
        self.log.u64(s.bytes.len() as u64);
        for x in sr.iter().chain(er.iter()) {
            self.log.u64(crate::obs::digest(x));
        }
        let k = self.snaps.len();
        self.snaps.push(s);
        self.audit(k, &sr, &er, st)?;
        if let Some(p) = parent {
            self.pair(p, k, st)?;
        } else if self.is(14) {
            if let Some(p) = (0..k).rev().find(|i| self.snaps[*i].dev == dev) {
                self.pair(p, k, st)?;
            }
        }
        Ok(())
    }

    fn decode(&mut self, b: Vec<u8>, dev: usize) -> Result<Snap, Violation> {
        let bytes: &'static [u8] = self.arena.keep(b.into_boxed_slice());
        self.decode_at(bytes, dev)
    }

    fn decode_at(&mut self, bytes: &'static [u8], dev: usize) -> Result<Snap, Violation> {
        let h = Header::try_from(bytes);
        let mut s = Snap { bytes, dev, hdr: None, std: vec![], std_more: false, ext: vec![], ext_more: false };
        if h.is_ok() != (bytes.len() >= 64) {
            return Err(Violation {
                class: "header acceptance".into(),
                detail: format!("a capture of {} bytes is {} as a header", bytes.len(), if h.is_ok() { "accepted" } else { "refused" }),
            });
        }
        if let Ok(h) = h {
            let h = self.arena.keep(h);
            s.hdr = Some(h);
            let more = beyond(self.prop);
            let mut it = Capabilities::new(s.std_data(self.wide), h);
            (s.std, s.std_more) = gather(&mut it, STD_MAX, more, |x| x.as_ref().ok().map(|c| c.pointer as usize));
            if !s.std_more && self.is(2) && (0..64).any(|_| it.next().is_some()) {
                return Err(Violation { class: "standard list resumes".into(), detail: "the list yields entries again after it ended".into() });
            }
            let mut it = ExtendedCapabilities::new(s.ext_data());
            (s.ext, s.ext_more) = gather(&mut it, EXT_MAX, more, |x| x.as_ref().ok().map(|c| c.offset as usize));
            if !s.ext_more && self.is(2) && (0..64).any(|_| it.next().is_some()) {
                return Err(Violation { class: "extended list resumes".into(), detail: "the list yields entries again after it ended".into() });
            }
            if self.is(2) {
                self.strides(&s, h)?;
            }
        }
        Ok(s)
    }

    /// Walks that leave entries out end as well.
    fn strides(&mut self, s: &Snap, h: &'static Header) -> Result<(), Violation> {
        let k = s.bytes.iter().step_by(61).fold(s.bytes.len(), |a, b| a + *b as usize);
        let endless = |what: &str| Err(Violation { class: format!("{} does not end", what), detail: format!("{}: taking every {}th item never ends", what, 1 + k % 5) });
        let mut it = Capabilities::new(s.std_data(self.wide), h);
        if (0..=STD_MAX).all(|_| it.nth(k % 5).is_some()) {
            return endless("the standard list");
        }
        if s.ext.len() < 100 || k % 4 == 0 {
            let mut it = ExtendedCapabilities::new(s.ext_data());
            if (0..=EXT_MAX).all(|_| it.nth(k % 5).is_some()) {
                return endless("the extended list");
            }
        }
        if k % 16 == 0 {
            let mut own = Arena::default();
            for mut w in handles::nested(s.std_data(self.wide), h, s.ext_data(), &mut own) {
                if (0..=handles::LIMIT).all(|_| w.nth(k / 16 % 5).is_some()) {
                    return endless(w.kind());
                }
            }
        }
        Ok(())
    }

    fn obs_std(&self, s: &Snap, i: usize) -> Option<(usize, Obs)> {
        obs_std(s, i, self.wide)
    }
    fn obs_ext(&self, s: &Snap, i: usize) -> Option<(usize, Obs)> {
        obs_ext(s, i)
    }

    fn steps(&self, s: &Snap, got: &[Step], std: bool, st: &mut Stats) -> Res {
        st.evals += 1;
        let (what, more) = if std { ("standard list", s.std_more) } else { ("extended list", s.ext_more) };
        if s.hdr.is_none() {
            return Ok(());
        }
        let want = if std { s.ref_std(self.wide) } else { s.ref_ext() };
        for (i, w) in want.steps.iter().enumerate() {
            match got.get(i) {
                Some(g) if same_step(g, w) => {}
                Some(g) => {
                    let part = if g.at != w.at {
                        "place"
                    } else if g.out != w.out {
                        "outcome"
                    } else {
                        "version"
                    };
                    return bad(
                        format!("{} {} {}", what, part, w.name().split('(').next().unwrap_or("")),
                        format!("{}, entry {}: reported {:?}, the captured bytes hold {:?}", what, i, g, w),
                    );
                }
                None => return bad(format!("{} stops early", what), format!("{} ends after {} entries, expected {:?}", what, got.len(), w)),
            }
        }
        if let (Some(back), true) = (want.back, got.len() > want.steps.len()) {
            // a list that comes back to a place goes on as it did from there, for as long as it is walked
            let period = want.steps.len() - back;
            for i in want.steps.len()..got.len() {
                let w = &want.steps[back + (i - back) % period];
                if got[i] != *w {
                    return bad(format!("{} after a return {}", what, w.name().split('(').next().unwrap_or("")), format!("{}, entry {}: reported {:?}, the captured bytes hold {:?}", what, i, got[i], w));
                }
            }
        }
        if !want.cyclic && (got.len() > want.steps.len() || more) {
            return bad(format!("{} goes on", what), format!("{} yields {} entries, expected {}: {:?}", what, got.len(), want.steps.len(), got[want.steps.len()]));
        }
        if !std {
            for c in s.ext.iter().flatten() {
                let p = c.offset as usize;
                let raw = s.bytes.get(p..p + 2).map(|b| b[0] as u16 | (b[1] as u16) << 8);
                if Some(c.id()) != raw {
                    return bad("extended id", format!("entry at {:#x} reports id {:#x}, stored {:x?}", p, c.id(), raw));
                }
            }
        }
        Ok(())
    }

    /// Checks of one capture.
    fn audit(&mut self, k: usize, sr: &[Step], er: &[Step], st: &mut Stats) -> Res {
        let s = &self.snaps[k];
        let (p, end) = (self.prop, s.std_end(self.wide));
        let mut log = Fnv::new();
        if p == 2 {
            st.evals += 2;
            if s.std_more {
                return bad("standard list too long", format!("more than {} entries out of a region that holds {}", STD_MAX, STD_MAX));
            }
            if s.ext_more {
                return bad("extended list too long", format!("more than {} entries out of a region that holds {}", EXT_MAX, EXT_MAX));
            }
        }
        if matches!(p, 3 | 5 | 6 | 10) {
            self.steps(s, sr, true, st)?;
        }
        if matches!(p, 4 | 5 | 6 | 11) {
            self.steps(s, er, false, st)?;
        }
        if p == 15 {
            return self.all_alone(s, st);
        }
        if matches!(p, 3 | 4 | 7 | 16) {
            return Ok(());
        }
        let all = |_: Sec| true;
        if matches!(p, 1 | 5 | 8 | 13) {
            if let Some(h) = s.hdr {
                let mut o = Obs::default();
                crate::regs_hdr::header(h, s.bytes, &mut o);
                st.evals += o.rules + o.wbacks + o.flds.len() as u64;
                st.values += o.flds.len() as u64;
                log.u64(o.values());
                match &h.header_type {
                    HeaderType::Normal(_) => st.reach("header ", "endpoint"),
                    HeaderType::Bridge(_) => st.reach("header ", "bridge"),
                    HeaderType::Cardbus(_) => st.reach("header ", "cardbus"),
                    HeaderType::Reserved(_) => st.reach("header ", "unassigned"),
                }
                if p == 1 {
                    log.u64(show(h));
                }
                if matches!(p, 5 | 8) {
                    if let Some(d) = o.check(s.bytes, all) {
                        return bad(format!("header {}", class_of(&d)), format!("header: {}", d));
                    }
                }
                if p == 13 {
                    note("header write-back", &o.wback)?;
                }
            } else {
                st.reach("header ", "!Header");
            }
        }
        if p == 9 {
            if let Some(h) = s.hdr {
                let mut o = Obs::default();
                match &h.header_type {
                    HeaderType::Normal(n) => crate::bars::observe(&n.base_addresses, s.bytes, 0x10, &mut o),
                    HeaderType::Bridge(n) => crate::bars::observe(&n.base_addresses, s.bytes, 0x10, &mut o),
                    HeaderType::Cardbus(n) => crate::bars::observe(&n.base_addresses, s.bytes, 0x10, &mut o),
                    HeaderType::Reserved(_) => {}
                }
                for w in crate::bars::windows(s.bytes, 0x10, nbars(s.bytes)) {
                    st.reach("window ", w.1);
                }
                self.bars(&o, s.bytes, st, &mut log)?;
            }
            for i in 0..s.ext.len() {
                if let Ok(ExtendedCapability { kind: pcics::extended_capabilities::ExtendedCapabilityKind::SingleRootIoVirtualization(v), offset, .. }) = &s.ext[i] {
                    if let Some(b) = s.bytes.get(*offset as usize..) {
                        let mut o = Obs::default();
                        crate::bars::observe(&v.base_addresses, b, 0x24, &mut o);
                        st.reach("window ", "of a virtual function");
                        self.bars(&o, b, st, &mut log)?;
                    }
                }
            }
            self.log.u64(log.0);
            return Ok(());
        }
        let std = matches!(p, 1 | 2 | 5 | 10 | 12 | 13);
        let ext = matches!(p, 1 | 2 | 5 | 11 | 12 | 13);
        for list in [true, false] {
            if !(if list { std } else { ext }) {
                continue;
            }
            let n = if list { s.std.len() } else { s.ext.len() };
            let mut seen = [0u64; 64];
            for i in 0..n {
                let step = if list { &sr[i] } else { &er[i] };
                // a circular list comes back to entries that have been examined already
                if let Some(at) = step.at {
                    let (w, bit) = (at as usize / 64 % 64, 1u64 << (at % 64));
                    if seen[w] & bit != 0 {
                        continue;
                    }
                    seen[w] |= bit;
                }
                if p == 1 && (i < 6 || i % 40 == 0) {
                    log.u64(if list { show_res(&s.std[i]) } else { show_res(&s.ext[i]) });
                }
                if step.is_err() {
                    if p == 5 {
                        let b = step.at.and_then(|at| s.bytes.get(at as usize..if list { end } else { s.bytes.len() })).unwrap_or_default();
                        let said = match (list, s.std.get(i), s.ext.get(i)) {
                            (true, Some(Err(e)), _) => crate::errors::std(e, b),
                            (false, _, Some(Err(e))) => crate::errors::ext(e, b),
                            _ => Ok(()),
                        };
                        st.evals += 1;
                        if let Err(d) = said {
                            return bad(format!("error {}", step.name()), format!("error at {:x?}: {}", step.at, d));
                        }
                    }
                    continue;
                }
                let got = if list { self.obs_std(s, i) } else { self.obs_ext(s, i) };
                let Some((at, o)) = got else {
                    return bad("place", format!("entry {} claims to sit at {:x?}, outside of the capture", i, step.at));
                };
                let b = &s.bytes[at..if list { end } else { s.bytes.len() }];
                log.u64(o.values());
                st.values += o.flds.len() as u64;
                st.evals += o.rules + o.flds.len() as u64 + o.blobs.len() as u64;
                let name = step.name();
                match p {
                    5 | 10 | 11 => {
                        if let Some(d) = o.check(b, all) {
                            return bad(format!("{} {}", name, class_of(&d)), format!("{} at {:#x}: {}", name, at, d));
                        }
                    }
                    12 => {
                        if let Some(d) = o.check(b, |s| s == Sec::Tab) {
                            return bad(format!("{} {}", name, class_of(&d)), format!("{} at {:#x}: {}", name, at, d));
                        }
                    }
                    13 => {
                        st.evals += o.wbacks;
                        note(&name, &o.wback)?
                    }
                    _ => {}
                }
                if matches!(p, 2 | 12) {
                    note(&name, &o.runaway)?;
                    if o.flds.iter().any(|f| f.sec == Sec::Tab) {
                        st.reach("table of ", &name);
                    }
                }
            }
        }
        self.log.u64(log.0);
        Ok(())
    }

    fn bars(&self, o: &Obs, b: &[u8], st: &mut Stats, log: &mut Fnv) -> Res {
        st.evals += o.rules + o.flds.len() as u64;
        log.u64(o.values());
        note("base addresses", &o.runaway)?;
        match o.check(b, |_| true) {
            Some(d) => bad(class_of(&d), d),
            None => Ok(()),
        }
    }

    /// Two captures side by side.
    fn pair(&mut self, a: usize, b: usize, st: &mut Stats) -> Res {
        if !matches!(self.prop, 6 | 14) {
            return Ok(());
        }
        let (x, y) = (&self.snaps[a], &self.snaps[b]);
        let (Some(hx), Some(hy)) = (x.hdr, y.hdr) else { return Ok(()) };
        let same_ctx = x.ctx().bridge == y.ctx().bridge && x.ctx().ids == y.ctx().ids;
        let mut log = Fnv::new();
        if self.is(14) {
            st.evals += 1;
            let (e1, e2) = (hx == hy, hy == hx);
            if e1 != e2 {
                return bad("header equality one-sided", "a == b differs from b == a for two headers");
            }
            if !e1 && x.bytes[..64] == y.bytes[..64] {
                return bad("header unequal to itself", "headers of identical bytes compare unequal");
            }
            if e1 {
                let (mut p, mut q) = (Obs::default(), Obs::default());
                crate::regs_hdr::header(hx, &x.bytes[..64], &mut p);
                crate::regs_hdr::header(hy, &y.bytes[..64], &mut q);
                if p.values() != q.values() {
                    return bad("header change missed", format!("headers compare equal although {}", first_diff(&p, &q)));
                }
            }
            log.u64(e1 as u64);
        }
        for list in [true, false] {
            let n = if list { x.std.len() } else { x.ext.len() };
            let m = if list { y.std.len() } else { y.ext.len() };
            let place = |s: &Snap, i: usize| if list { walk::std_step(&s.std[i]) } else { walk::ext_step(&s.ext[i]) };
            let ends = |s: &Snap| if list { s.std_end(self.wide) } else { s.bytes.len() };
            if self.is(6) {
                let py: HashMap<usize, usize> = (0..m).rev().filter_map(|j| place(y, j).at.map(|p| (p as usize, j))).collect();
                let mut seen = std::collections::HashSet::new();
                for i in 0..n {
                    let sx = place(x, i);
                    let Some(at) = sx.at.map(|p| p as usize) else { continue };
                    let Some(&j) = py.get(&at) else { continue };
                    if !seen.insert(at) || ends(x) != ends(y) || (list && !same_ctx) {
                        continue;
                    }
                    let sy = place(y, j);
                    let (bx, by) = (&x.bytes[at.min(ends(x))..ends(x)], &y.bytes[at.min(ends(y))..ends(y)]);
                    if sx.is_err() || sy.is_err() {
                        if bx == by {
                            st.evals += 1;
                            if sx != sy {
                                return bad("neighbour changes an error", format!("entry at {:#x}: {:?} before, {:?} after a change elsewhere", at, sx, sy));
                            }
                        }
                        continue;
                    }
                    let (ox, oy) = if list { (self.obs_std(x, i), self.obs_std(y, j)) } else { (self.obs_ext(x, i), self.obs_ext(y, j)) };
                    let (Some((_, ox)), Some((_, oy))) = (ox, oy) else { continue };
                    let (mut tx, mut ty) = (vec![], vec![]);
                    ox.touched(&mut tx, bx.len());
                    oy.touched(&mut ty, bx.len());
                    // link bytes say where to go on, not what this entry is
                    let link = |i: usize| if list { i == 1 } else { i == 3 };
                    if (0..bx.len()).any(|i| (tx[i] || ty[i]) && bx[i] != by[i] && !link(i)) {
                        continue;
                    }
                    if !list && bx[2] & 15 != by[2] & 15 {
                        continue;
                    }
                    st.evals += 1;
                    st.reach("unaffected neighbour ", &sx.name());
                    log.u64(at as u64);
                    if sx != sy {
                        return bad(format!("neighbour changes {}", sx.name()), format!("entry at {:#x}: {:?} before, {:?} after a change elsewhere", at, sx, sy));
                    }
                    if ox.values() != oy.values() {
                        return bad(
                            format!("neighbour changes values of {}", sx.name()),
                            format!("{} at {:#x}: {} after a change elsewhere", sx.name(), at, first_diff(&ox, &oy)),
                        );
                    }
                }
                continue;
            }
            // equality
            for i in 0..n.min(64) {
                for j in 0..m.min(64) {
                    let (sx, sy) = (place(x, i), place(y, j));
                    if sx.at != sy.at && i != j {
                        continue;
                    }
                    let (e1, e2) = if list { (x.std[i] == y.std[j], y.std[j] == x.std[i]) } else { (x.ext[i] == y.ext[j], y.ext[j] == x.ext[i]) };
                    st.evals += 1;
                    log.u64(e1 as u64);
                    let ne = if list { x.std[i] != y.std[j] } else { x.ext[i] != y.ext[j] };
                    if ne == e1 {
                        return bad(format!("equality inconsistent {}", sx.name()), format!("a != b is not the opposite of a == b for {:?}", sx));
                    }
                    if e1 != e2 {
                        return bad(format!("equality one-sided {}", sx.name()), format!("a == b differs from b == a for {:?}", sx));
                    }
                    let tail = |s: &Snap, t: &Step| t.at.and_then(|p| s.bytes.get(p as usize..ends(s)));
                    if !e1 {
                        if sx.at.is_some() && sx.at == sy.at && (!list || same_ctx) && tail(x, &sx) == tail(y, &sy) {
                            return bad(format!("unequal to itself {}", sx.name()), format!("{:?} of identical bytes compare unequal", sx));
                        }
                        if i == j || sx.at == sy.at {
                            st.reach("told apart ", &sx.name());
                        }
                        continue;
                    }
                    if sx != sy {
                        return bad(format!("change missed {}", sx.name()), format!("{:?} and {:?} compare equal", sx, sy));
                    }
                    let (ox, oy) = if list { (self.obs_std(x, i), self.obs_std(y, j)) } else { (self.obs_ext(x, i), self.obs_ext(y, j)) };
                    if let (Some((_, ox)), Some((_, oy))) = (ox, oy) {
                        if ox.values() != oy.values() {
                            return bad(format!("change missed {}", sx.name()), format!("{} compare equal although {}", sx.name(), first_diff(&ox, &oy)));
                        }
                    }
                }
            }
        }
        self.log.u64(log.0);
        Ok(())
    }

    /// The same entry, alone, at two places with as many bytes behind it.
    fn relocate(&mut self, k: usize, entry: usize, to: usize, st: &mut Stats) -> Res {
        let s = &self.snaps[k];
        if s.hdr.is_none() {
            return Ok(());
        }
        let (ws, we) = (s.ref_std(false), s.ref_ext());
        let n = ws.places.len() + we.places.len();
        if n == 0 {
            return Ok(());
        }
        let e = entry % n;
        let list = e < ws.places.len();
        let p1 = if list { ws.places[e] } else { we.places[e - ws.places.len()] };
        let (lo, max) = if list { (0x40, 0x100) } else { (0x100, 0x1000) };
        let end = if list { s.std_end(false) } else { s.bytes.len() };
        let p2 = lo + 4 * (to % ((max - lo) / 4));
        if p1 + 4 > end || p1 % 4 != 0 {
            return Ok(());
        }
        let len = (end - p1).min(max - p2);
        let build = |p: usize| -> Vec<u8> {
            let mut b = s.bytes[..0x40].to_vec();
            b.resize(p + len, 0);
            if list {
                let at = if b[0x0e] & 0x7f == 2 { 0x14 } else { 0x34 };
                b[at] = p as u8;
            } else {
                let at = if b[0x0e] & 0x7f == 2 { 0x14 } else { 0x34 };
                b[at] = 0;
                if p > 0x100 {
                    // an entry without registers leads there
                    b[0x100..0x104].copy_from_slice(&(0x0001_0011u32 | (p as u32) << 20).to_le_bytes());
                }
            }
            b[p..p + len].copy_from_slice(&s.bytes[p1..p1 + len]);
            if list {
                b[p + 1] = 0;
            } else {
                b[p + 2] &= 15;
                b[p + 3] = 0;
            }
            b
        };
        let (ba, bb) = (build(p1), build(p2));
        if !list && p2 != 0x100 && p2 < 0x104 {
            return Ok(());
        }
        let dev = s.dev;
        self.fault(st, "entry moved");
        let (x, y) = (self.decode(ba, dev)?, self.decode(bb, dev)?);
        let pick = |s: &Snap, p: usize| -> Option<(usize, Step)> {
            if list {
                s.std.iter().map(walk::std_step).enumerate().find(|(_, t)| t.at == Some(p as u16))
            } else {
                s.ext.iter().map(walk::ext_step).enumerate().find(|(_, t)| t.at == Some(p as u16))
            }
        };
        let (a, b) = (pick(&x, p1), pick(&y, p2));
        st.evals += 1;
        match (&a, &b) {
            (None, None) => Ok(()),
            (Some((i, sa)), Some((j, sb))) => {
                st.reach("moved ", &sa.name());
                if sa.out != sb.out || sa.version != sb.version {
                    return bad(format!("depends on its place {}", sa.name()), format!("the same bytes at {:#x} are {:?}, at {:#x} {:?}", p1, sa, p2, sb));
                }
                let (oa, ob) = if list { (self.obs_std(&x, *i), self.obs_std(&y, *j)) } else { (self.obs_ext(&x, *i), self.obs_ext(&y, *j)) };
                if let (Some((_, oa)), Some((_, ob))) = (oa, ob) {
                    if oa.values() != ob.values() {
                        return bad(
                            format!("depends on its place {}", sa.name()),
                            format!("{} at {:#x} and at {:#x}: {}", sa.name(), p1, p2, first_diff(&oa, &ob)),
                        );
                    }
                }
                Ok(())
            }
            _ => bad("depends on its place", format!("the same bytes at {:#x} are {:?}, at {:#x} {:?}", p1, a, p2, b)),
        }
    }

    /// One entry through the conversions of its own type, from a slice of any length.
    fn alone(&mut self, k: usize, entry: usize, len: usize, st: &mut Stats) -> Res {
        let s = &self.snaps[k];
        let Some(h) = s.hdr else { return Ok(()) };
        let (ws, we) = (s.ref_std(false), s.ref_ext());
        let n = ws.places.len() + we.places.len();
        if n == 0 {
            return Ok(());
        }
        let e = entry % n;
        let list = e < ws.places.len();
        let at = if list { ws.places[e] } else { we.places[e - ws.places.len()] };
        let end = if list { s.std_end(false) } else { s.bytes.len() };
        let room = end.saturating_sub(at).min(len);
        let b = s.bytes.get(at..at + room).unwrap_or(&[]);
        if room < if list { 2 } else { 4 } {
            return Ok(());
        }
        let (step, want, obs) = if list {
            let Some(r) = crate::alone::std(b, at as u8, h) else { return Ok(()) };
            let mut o = Obs::default();
            if let Ok(c) = &r {
                walk::std_observe(&c.kind, b, &s.ctx(), &mut o);
                if crate::alone::std_array(b, &c.kind) == Some(false) {
                    return bad("array conversion differs", format!("{:?} from an array differs from that from a slice", walk::std_step(&r)));
                }
            }
            if let Err(d) = r.as_ref().err().map_or(Ok(()), |e| crate::errors::std(e, b)) {
                return bad("alone error", format!("error at {:#x}: {}", at, d));
            }
            (walk::std_step(&r), walk::std_outcome(b, &s.ref_ctx()), o)
        } else {
            let Some(r) = crate::alone::ext(b, at as u16) else { return Ok(()) };
            let mut o = Obs::default();
            if let Ok(c) = &r {
                walk::ext_observe(&c.kind, b, &mut o);
                if crate::alone::ext_array(b, &c.kind) == Some(false) {
                    return bad("array conversion differs", format!("{:?} from an array differs from that from a slice", walk::ext_step(&r)));
                }
            }
            if let Err(d) = r.as_ref().err().map_or(Ok(()), |e| crate::errors::ext(e, b)) {
                return bad("alone error", format!("error at {:#x}: {}", at, d));
            }
            // this module has a serial number of its own
            let sn = pcics::extended_capabilities::root_complex_link_declaration::DeviceSerialNumber::try_from(b);
            let dw = |i: usize| crate::obs::get_bits(b, i as u32 * 32, 32).map(|x| x as u32);
            let held = if b.len() < 8 { None } else { dw(0).zip(dw(1)) };
            if sn.as_ref().ok().map(|x| (x.lower_dword, x.upper_dword)) != held {
                return bad("alone serial number", format!("{:?} from {} bytes that hold {:x?}", sn, b.len(), held));
            }
            (walk::ext_step(&r), walk::ext_outcome(b), o)
        };
        if room < end - at {
            self.fault(st, "entry handed over short");
        }
        let name = step.name();
        st.reach("alone ", &name);
        st.evals += 1 + obs.rules + obs.flds.len() as u64;
        if step.out != want {
            return bad(format!("alone outcome {}", class_of(&name)), format!("{} bytes from {:#x} on: {:?}, they hold {:?}", room, at, step.out, want));
        }
        if let Some(d) = obs.check(b, |_| true) {
            return bad(format!("alone {} {}", name, class_of(&d)), format!("{} decoded on its own from {} bytes: {}", name, room, d));
        }
        let mut log = Fnv::new();
        log.u64(obs.values());
        self.log.u64(log.0);
        Ok(())
    }

    /// The registers of one entry, read again and again; each reading compared with the first.
    fn poll(&mut self, k: usize, entry: usize, len: usize, seed: u32, (from, n): (u16, u16), st: &mut Stats) -> Res {
        let s = &self.snaps[k];
        let Some(h) = s.hdr else { return Ok(()) };
        let std: Vec<usize> = s.std.iter().take(48).flatten().map(|c| c.pointer as usize).collect();
        let ext: Vec<usize> = s.ext.iter().take(256).flatten().map(|c| c.offset as usize).collect();
        let e = entry % (1 + std.len() + ext.len());
        let (what, at, end) = match e {
            0 => (0, 0, 64),
            e if e <= std.len() => (1, std[e - 1], s.std_end(self.wide)),
            e => (2, ext[e - 1 - std.len()], s.bytes.len()),
        };
        let Some(b) = s.bytes.get(at..end.min(at + len.max(if e == 0 { 64 } else { 4 }))) else { return Ok(()) };
        let mut base = b.to_vec();
        let mut r = crate::gen::Rng::new(seed as u64 ^ 0x5eed_0000_0000);
        if r.chance(25) {
            // other contents behind the entry's first registers
            let skip = r.pick(&[4usize, 8, 0x10, 0x20]);
            if let Some(v) = base.get_mut(skip..) {
                crate::gen::fill(&mut r, v);
            }
        }
        let c = s.ctx();
        let mut obs = Obs::default();
        macro_rules! decode {
            ($b:expr) => {
                match what {
                    0 => Header::try_from($b).ok().map(One::Head),
                    1 => crate::alone::std($b, at as u8, h).filter(|r| r.is_ok()).map(One::Std),
                    _ => crate::alone::ext($b, at as u16).filter(|r| r.is_ok()).map(One::Ext),
                }
            };
        }
        let Some(first) = decode!(&base[..]) else { return Ok(()) };
        first.observe(&base, &c, &mut obs);
        let name = first.name();
        let hot = crate::poll::bits(&obs, if what == 0 { 0 } else { 2 * what }, base.len());
        st.reach("polled ", &name);
        let mut log = Fnv::new();
        let mut other = base.clone();
        for k in from..from.saturating_add(n) {
            let mut r = crate::gen::Rng::new((seed as u64) << 16 ^ k as u64);
            other.copy_from_slice(&base);
            if k > 0 {
                crate::poll::change(&mut r, &mut other, &hot);
            }
            st.evals += 1;
            if what == 2 {
                let dw = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                let (a, mut z) = (dw(&base), dw(&other));
                for _ in 0..k % 4 {
                    z ^= 1 << r.below(32);
                }
                if let Some(d) = crate::poll::heads(a, z) {
                    return bad("extended header equality", d);
                }
            }
            let Some(then) = decode!(&other[..]) else { continue };
            let (e1, e2, ne) = first.compare(&then);
            log.u64(e1 as u64);
            if e1 != e2 || ne == e1 {
                return bad(format!("equality inconsistent {}", name), format!("reading {}: a == b is {}, b == a is {}, a != b is {}", k, e1, e2, ne));
            }
            if e1 {
                let mut o = Obs::default();
                then.observe(&other, &c, &mut o);
                if o.values() != obs.values() {
                    return bad(format!("change missed {}", name), format!("{} at {:#x} and its reading {} compare equal although {}", name, at, k, first_diff(&obs, &o)));
                }
            } else if base == other {
                return bad(format!("unequal to itself {}", name), format!("two readings of {} at {:#x} from identical bytes compare unequal", name, at));
            }
            if k % 4 < 2 {
                if let Some(d) = first.parts(&then) {
                    return bad(format!("change missed in a part of {}", name), format!("{} at {:#x}, reading {}: {}", name, at, k, d));
                }
            }
        }
        st.sim_us += n as u64 * 10;
        self.log.u64(log.0);
        Ok(())
    }

    /// The registers of one entry, programmed and read again and again; each reading decoded on its own.
    fn reread(&mut self, k: usize, entry: usize, len: usize, seed: u32, (from, n): (u16, u16), st: &mut Stats) -> Res {
        let p = self.prop;
        let s = &self.snaps[k];
        let Some(h) = s.hdr else { return Ok(()) };
        let std = if p == 11 { vec![] } else { s.ref_std(false).places };
        let ext = if p == 10 { vec![] } else { s.ref_ext().places };
        if std.len() + ext.len() == 0 {
            return Ok(());
        }
        let e = entry % (std.len() + ext.len());
        let list = e < std.len();
        let (at, end) = if list { (std[e], s.std_end(false)) } else { (ext[e - std.len()], s.bytes.len()) };
        let head = if list { 2 } else { 4 };
        let Some(base) = s.bytes.get(at..end.min(at + len)) else { return Ok(()) };
        if base.len() < head {
            return Ok(());
        }
        let c = s.ref_ctx();
        let hot = {
            let mut o = Obs::default();
            if list {
                if let Some(Ok(x)) = crate::alone::std(base, at as u8, h) {
                    walk::std_observe(&x.kind, base, &c, &mut o);
                }
            } else if let Some(Ok(x)) = crate::alone::ext(base, at as u16) {
                walk::ext_observe(&x.kind, base, &mut o);
            }
            crate::poll::bits(&o, head, base.len())
        };
        let mut log = Fnv::new();
        let (mut short, mut reads) = (0, 0);
        for k in from..from.saturating_add(n) {
            let mut r = crate::gen::Rng::new((seed as u64) << 16 ^ k as u64);
            let mut b = base.to_vec();
            crate::poll::program(&mut r, &mut b, &hot, list, c.bridge);
            if b.len() > head && r.chance(15) {
                b.truncate(r.range(head, b.len()));
                short += 1;
            }
            let b = &b[..];
            reads += 1;
            let mut o = Obs::default();
            let (step, want, said, shown) = if list {
                let Some(x) = crate::alone::std(b, at as u8, h) else { break };
                if let Ok(x) = &x {
                    walk::std_observe(&x.kind, b, &c, &mut o);
                }
                let said = x.as_ref().err().map_or(Ok(()), |e| crate::errors::std(e, b));
                (walk::std_step(&x), walk::std_outcome(b, &c), said, if p == 1 { show_res(&x) } else { 0 })
            } else {
                let Some(x) = crate::alone::ext(b, at as u16) else { break };
                if let Ok(x) = &x {
                    walk::ext_observe(&x.kind, b, &mut o);
                }
                let said = x.as_ref().err().map_or(Ok(()), |e| crate::errors::ext(e, b));
                (walk::ext_step(&x), walk::ext_outcome(b), said, if p == 1 { show_res(&x) } else { 0 })
            };
            let name = step.name();
            if k == from {
                st.reach("programmed ", &name);
            }
            st.evals += 1 + o.rules + o.wbacks + o.flds.len() as u64;
            st.values += o.flds.len() as u64;
            log.u64(o.values() ^ shown);
            let place = || format!("{} at {:#x}, reading {} of {} bytes", name, at, k, b.len());
            if !matches!(p, 1 | 12 | 13) && step.out != want {
                return bad(format!("outcome {}", class_of(&name)), format!("{}: they hold {:?}", place(), want));
            }
            if let (true, Err(d)) = (matches!(p, 5 | 15), said) {
                return bad(format!("error {}", name), format!("{}: {}", place(), d));
            }
            match p {
                5 | 10 | 11 | 15 => {
                    if let Some(d) = o.check(b, |_| true) {
                        return bad(format!("{} {}", name, class_of(&d)), format!("{}: {}", place(), d));
                    }
                }
                12 => {
                    if let Some(d) = o.check(b, |s| s == Sec::Tab) {
                        return bad(format!("{} {}", name, class_of(&d)), format!("{}: {}", place(), d));
                    }
                    note(&name, &o.runaway)?;
                }
                13 => note(&name, &o.wback)?,
                _ => {}
            }
        }
        for _ in 0..short {
            self.fault(st, "reading cut short");
        }
        st.sim_us += reads * 10;
        self.log.u64(log.0);
        Ok(())
    }

    /// Each entry of a capture, decoded on its own, is what the list reports.
    fn all_alone(&self, s: &Snap, st: &mut Stats) -> Res {
        let Some(h) = s.hdr else { return Ok(()) };
        let array: [u8; 64] = s.bytes[..64].try_into().unwrap_or([0; 64]);
        st.evals += 1;
        if Header::from(array) != *h {
            return bad("alone header", "a header made from an array differs from one made from a slice");
        }
        for (i, r) in s.std.iter().enumerate().take(STD_MAX) {
            let Some(at) = walk::std_step(r).at else { continue };
            let Some(b) = s.bytes.get(at as usize..s.std_end(self.wide)) else { continue };
            let Some(own) = crate::alone::std(b, at as u8, h) else { continue };
            st.evals += 1;
            let (a, z) = (walk::std_step(&own), walk::std_step(r));
            if a != z {
                return bad(format!("list differs from {}", class_of(&a.name())), format!("entry {} at {:#x}: {:?} on its own, {:?} in the list", i, at, a, z));
            }
            if let (Ok(c), Some((_, z))) = (&own, obs_std(s, i, self.wide)) {
                let mut o = Obs::default();
                walk::std_observe(&c.kind, b, &s.ctx(), &mut o);
                if o.values() != z.values() {
                    return bad(format!("list differs from {}", a.name()), format!("entry {} at {:#x}, on its own and in the list: {}", i, at, first_diff(&o, &z)));
                }
            }
        }
        for (i, r) in s.ext.iter().enumerate().take(40) {
            let Some(at) = walk::ext_step(r).at else { continue };
            let Some(b) = s.bytes.get(at as usize..) else { continue };
            if b.len() >= 4 {
                let raw = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                let e = pcics::extended_capabilities::ExtendedCapabilityHeader::from(raw);
                st.evals += 1;
                if (e.extended_capability_id as u32, e.capability_version as u32, e.next_capability_offset as u32) != (raw & 0xffff, raw >> 16 & 15, raw >> 20) {
                    return bad("alone entry header", format!("{:#x} is decoded as {:?}", raw, e));
                }
            }
            let Some(own) = crate::alone::ext(b, at) else { continue };
            st.evals += 1;
            let (a, z) = (walk::ext_step(&own), walk::ext_step(r));
            if a != z {
                return bad(format!("list differs from {}", class_of(&a.name())), format!("entry {} at {:#x}: {:?} on its own, {:?} in the list", i, at, a, z));
            }
            if let (Ok(c), Some((_, z))) = (&own, obs_ext(s, i)) {
                let mut o = Obs::default();
                walk::ext_observe(&c.kind, b, &mut o);
                if o.values() != z.values() {
                    return bad(format!("list differs from {}", a.name()), format!("entry {} at {:#x}, on its own and in the list: {}", i, at, first_diff(&o, &z)));
                }
            }
        }
        Ok(())
    }

    /// A capture decoded once more has to give what it gave the first time.
    /// The reader process is restarted and decodes what is stored, in another order.
    fn fresh(&mut self, order: u8, st: &mut Stats) -> Res {
        use std::io::Write;
        use std::process::{Command, Stdio};
        let n = self.snaps.len();
        let mut turn: Vec<usize> = (0..n).collect();
        turn.rotate_left((order >> 1) as usize % n);
        if order & 1 == 0 {
            turn.reverse();
        }
        let mut input = vec![self.wide as u8, n as u8];
        for k in &turn {
            let b = self.snaps[*k].bytes;
            input.extend((b.len() as u16).to_le_bytes());
            input.extend(b);
        }
        let out = std::env::current_exe().and_then(|exe| {
            let mut c = Command::new(exe).arg("decode").env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
            let sent = c.stdin.take().map_or(Ok(()), |mut i| i.write_all(&input));
            c.wait_with_output().and_then(|o| sent.map(|_| o))
        });
        let out = match out {
            Ok(o) => o,
            // no process to be had: nothing is decided
            Err(_) => return Ok(()),
        };
        let text = String::from_utf8_lossy(&out.stdout);
        if let Some(p) = text.strip_prefix("panic ") {
            return bad("panic in a new process", format!("panicked: {}", p));
        }
        if !out.status.success() {
            return Ok(());
        }
        let mut parts = text.split("--\n");
        self.hist.u64(0xf7e5);
        st.fault("reader process restart");
        st.reach("again ", "by a new process");
        for k in turn {
            let got = parts.next().unwrap_or("");
            let want = render(&summary(&self.snaps[k], self.wide));
            st.evals += 1;
            if got != want {
                let d = got.lines().zip(want.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
                return bad("a new process differs", format!("a new process decodes capture {} to {:?} instead of {:?}", k, d.0, d.1));
            }
        }
        Ok(())
    }

    /// The same bytes once more, elsewhere.
    fn again(&mut self, k: usize, shift: usize, thread: bool, st: &mut Stats) -> Res {
        let (dev, len) = (self.snaps[k].dev, self.snaps[k].bytes.len());
        // other bytes around it, another alignment
        let mut buf: Vec<u8> = (0..shift + len + 16).map(|i| (i as u8).wrapping_mul(37) ^ shift as u8).collect();
        buf[shift..shift + len].copy_from_slice(self.snaps[k].bytes);
        let keep: &'static [u8] = self.arena.keep(buf.into_boxed_slice());
        let bytes = &keep[shift..shift + len];
        let first = summary(&self.snaps[k], self.wide);
        let second = if thread {
            self.hist.u64(0x7ead);
            let wide = self.wide;
            let r = std::thread::scope(|t| {
                t.spawn(|| {
                    std::panic::catch_unwind(|| summary_of(bytes, wide)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
                })
                .join()
            });
            match r {
                Ok(Ok(v)) => v,
                Ok(Err((at, msg))) => return bad(format!("panic {}", at), format!("panicked at {}: {}", at, msg)),
                Err(_) => return bad("panic", "decoding thread died"),
            }
        } else {
            let s = self.decode_at(bytes, dev)?;
            let x = &self.snaps[k];
            st.evals += 1;
            if x.hdr != s.hdr {
                return bad("header differs", "decoded again, the header of the same bytes compares unequal");
            }
            if let Some(i) = (0..x.std.len().max(s.std.len())).find(|i| x.std.get(*i) != s.std.get(*i)) {
                return bad("standard entry differs", format!("decoded again, entry {} is {:?}, before it was {:?}", i, s.std.get(i), x.std.get(i)));
            }
            if let Some(i) = (0..x.ext.len().max(s.ext.len())).find(|i| x.ext.get(*i) != s.ext.get(*i)) {
                return bad("extended entry differs", format!("decoded again, entry {} is {:?}, before it was {:?}", i, s.ext.get(i), x.ext.get(i)));
            }
            if x.hdr.is_some_and(|h| h.clone() != *h) {
                return bad("header copy", "a copy of a header compares unequal to it");
            }
            for c in x.std.iter().flatten() {
                if crate::alone::std_copy(&c.kind) == Some(false) {
                    return bad("structure copy", format!("a copy differs from {:?}", c));
                }
            }
            for c in x.ext.iter().take(40).flatten() {
                let d = c.clone();
                if d != *c || crate::obs::digest(&d) != crate::obs::digest(c) {
                    return bad("structure copy", format!("a copy differs from {:?}", c));
                }
            }
            self.hist.u64(0xa9a1);
            summary(&s, self.wide)
        };
        st.evals += first.len() as u64;
        st.reach("again ", if thread { "by another thread" } else if shift % 4 == 0 { "aligned" } else { "unaligned" });
        let n = first.iter().zip(&second).position(|(a, b)| a != b);
        if n.is_some() || first.len() != second.len() {
            let i = n.unwrap_or(first.len().min(second.len()));
            let (x, y) = (first.get(i).map_or("nothing", |x| &x.0), second.get(i).map_or("nothing", |x| &x.0));
            return bad("values differ", if x == y { format!("decoded again, {} are others than before", x) } else { format!("decoded again, {} instead of {}", y, x) });
        }
        for x in &first {
            self.log.u64(x.1);
        }
        Ok(())
    }

    /// Registers rewritten from their decoded form, on the device, and read again.
    fn write_back(&mut self, k: usize, pick: u8, st: &mut Stats) -> Res {
        let s = &self.snaps[k];
        let Some(h) = s.hdr else { return Ok(()) };
        let dev = s.dev;
        let mut img = s.bytes.to_vec();
        let put = |img: &mut Vec<u8>, at: usize, v: &[u32]| {
            for (i, r) in v.iter().enumerate() {
                img[at + 4 * i..at + 4 * i + 4].copy_from_slice(&r.to_le_bytes());
            }
        };
        let n = match &h.header_type {
            HeaderType::Normal(n) => {
                if pick & 1 == 0 {
                    let r: [u32; 6] = n.base_addresses.clone().collect();
                    put(&mut img, 0x10, &r);
                }
                put(&mut img, 0x30, &[u32::from(n.expansion_rom.clone())]);
                6
            }
            HeaderType::Bridge(n) => {
                if pick & 1 == 0 {
                    let r: [u32; 2] = n.base_addresses.clone().collect();
                    put(&mut img, 0x10, &r);
                }
                put(&mut img, 0x38, &[u32::from(n.expansion_rom.clone())]);
                2
            }
            HeaderType::Cardbus(n) => {
                let r: [u32; 1] = n.base_addresses.clone().collect();
                put(&mut img, 0x10, &r);
                1
            }
            HeaderType::Reserved(_) => 0,
        };
        st.reach("history ", "read, write back, read again");
        self.hist.u64(0xb0 + n as u64);
        st.evals += 1;
        let before = crate::bars::windows(s.bytes, 0x10, n);
        if let Some(d) = self.devs.get_mut(dev) {
            d.now[..64].copy_from_slice(&img[..64]);
        }
        let t = self.decode(img, dev)?;
        let Some(h2) = t.hdr else { return bad("write-back loses the header", "header no longer decodes") };
        let win = |h: &Header| -> Vec<crate::bars::Win> {
            match &h.header_type {
                HeaderType::Normal(n) => n.base_addresses.clone().map(|w| crate::bars::flat(&w)).collect(),
                HeaderType::Bridge(n) => n.base_addresses.clone().map(|w| crate::bars::flat(&w)).collect(),
                HeaderType::Cardbus(n) => n.base_addresses.clone().map(|w| crate::bars::flat(&w)).collect(),
                HeaderType::Reserved(_) => vec![],
            }
        };
        if win(h) != win(h2) {
            return bad("windows changed by write-back", format!("windows {:x?} became {:x?} (registers hold {:x?})", win(h), win(h2), before));
        }
        let roms = |h: &Header| match &h.header_type {
            HeaderType::Normal(n) => Some(n.expansion_rom.clone()),
            HeaderType::Bridge(n) => Some(n.expansion_rom.clone()),
            _ => None,
        };
        if roms(h) != roms(h2) {
            return bad("ROM window changed by write-back", format!("{:x?} became {:x?}", roms(h), roms(h2)));
        }
        Ok(())
    }

    fn open(&mut self, snap: usize, what: u8, sel: u8) -> Option<Box<dyn Walk>> {
        let s = &self.snaps[snap];
        let h = s.hdr?;
        let (d, e) = (s.std_data(self.wide), s.ext_data());
        match what {
            0 => Some(handles::caps(d, h)),
            1 => Some(handles::ecaps(e)),
            2 => Some(handles::bars(h)),
            _ => {
                let mut v = handles::nested(d, h, e, &mut self.arena);
                if v.is_empty() {
                    return None;
                }
                let i = sel as usize % v.len();
                Some(v.swap_remove(i))
            }
        }
    }

    fn handle(&mut self, ev: &Ev, st: &mut Stats) -> Res {
        match ev {
            Ev::Open { h, snap, what, sel } => {
                let (h, snap) = (*h as usize % HANDLES, *snap as usize);
                if snap >= self.snaps.len() {
                    return Ok(());
                }
                let Some(w) = self.open(snap, *what, *sel) else { return Ok(()) };
                let key = (snap, *what, if *what < 3 { 0 } else { *sel });
                let seq = std::rc::Rc::new(w.rest());
                st.reach("handle ", w.kind());
                st.evals += 1;
                if seq.len() > handles::LIMIT {
                    return bad(format!("endless {}", w.kind()), format!("{} does not end", w.kind()));
                }
                if let Some(old) = self.seqs.get(&key) {
                    if **old != *seq {
                        return bad(format!("not repeatable {}", w.kind()), format!("{} opened again yields {} items instead of {}", w.kind(), seq.len(), old.len()));
                    }
                }
                self.seqs.insert(key, seq.clone());
                self.hist.bytes(w.kind().as_bytes());
                self.hist.u64(h as u64);
                for d in seq.iter() {
                    self.log.u64(*d);
                }
                self.handles[h] = Some(Held { w, seq, pos: 0, origin: key });
            }
            Ev::Step { h } => {
                let Some(x) = &mut self.handles[*h as usize % HANDLES] else { return Ok(()) };
                let got = x.w.step();
                let want = x.seq.get(x.pos).copied();
                self.hist.u64(1 << 8 | *h as u64);
                st.evals += 1;
                if got != want {
                    return bad(
                        format!("step {}", x.w.kind()),
                        format!("{}: step {} of {} yields {}", x.w.kind(), x.pos, x.seq.len(), if got.is_none() { "nothing" } else if want.is_none() { "an item past its end" } else { "another item than a walk of its own" }),
                    );
                }
                x.pos = (x.pos + 1).min(x.seq.len());
                return hint(x);
            }
            Ev::Near { h, left } => {
                let h = *h as usize % HANDLES;
                while let Some(x) = &self.handles[h] {
                    if x.pos + *left as usize >= x.seq.len() {
                        break;
                    }
                    self.handle(&Ev::Step { h: h as u8 }, st)?;
                }
            }
            Ev::Nth { h, k } => {
                let Some(x) = &mut self.handles[*h as usize % HANDLES] else { return Ok(()) };
                let got = x.w.nth(*k as usize);
                let want = x.seq.get(x.pos + *k as usize).copied();
                self.hist.u64(2 << 8 | *h as u64 | (*k as u64) << 16);
                st.evals += 1;
                if got != want {
                    return bad(format!("nth {}", x.w.kind()), format!("{}: nth({}) at {} of {} differs from stepping there", x.w.kind(), k, x.pos, x.seq.len()));
                }
                x.pos = (x.pos + *k as usize + 1).min(x.seq.len());
                return hint(x);
            }
            Ev::Dup { h, into } => {
                let (h, into) = (*h as usize % HANDLES, *into as usize % HANDLES);
                let Some(x) = &self.handles[h] else { return Ok(()) };
                let w = x.w.dup();
                self.hist.u64(3 << 8 | h as u64 | (into as u64) << 16);
                st.evals += 1;
                if w.same(&*x.w) == Some(false) || x.w.same(&*w) == Some(false) {
                    return bad(format!("copy differs {}", w.kind()), format!("a copy of {} at {} of {} compares unequal to it", w.kind(), x.pos, x.seq.len()));
                }
                if w.rest() != x.seq[x.pos..] {
                    return bad(format!("copy yields {}", w.kind()), format!("a copy of {} at {} of {} yields other items", w.kind(), x.pos, x.seq.len()));
                }
                st.reach("copy at ", if x.pos == 0 { "the start" } else if x.pos >= x.seq.len() { "the end" } else { "the middle" });
                let held = Held { w, seq: x.seq.clone(), pos: x.pos, origin: x.origin };
                self.handles[into] = Some(held);
            }
            Ev::Cmp { a, b } => {
                let (a, b) = (*a as usize % HANDLES, *b as usize % HANDLES);
                let (Some(x), Some(y)) = (&self.handles[a], &self.handles[b]) else { return Ok(()) };
                let (e1, e2) = (x.w.same(&*y.w), y.w.same(&*x.w));
                self.hist.u64(4 << 8 | a as u64 | (b as u64) << 16);
                st.evals += 1;
                if e1 != e2 {
                    return bad(format!("compare one-sided {}", x.w.kind()), "a == b differs from b == a");
                }
                if e1.is_some() && x.w.differs(&*y.w) != e1.map(|e| !e) {
                    return bad(format!("compare inconsistent {}", x.w.kind()), "a != b is not the opposite of a == b");
                }
                if let Some(e) = e1 {
                    st.reach("handles compare ", if e { "equal" } else { "unequal" });
                    if e && x.seq[x.pos..] != y.seq[y.pos..] {
                        return bad(
                            format!("compare {}", x.w.kind()),
                            format!("two {} compare equal but have {} and {} items to come, which differ", x.w.kind(), x.seq.len() - x.pos, y.seq.len() - y.pos),
                        );
                    }
                    // copies of both, side by side: with as many items to come, and with as many behind them
                    let (n, m) = (x.seq.len() - x.pos, y.seq.len() - y.pos);
                    for (i, j) in [(n.saturating_sub(m), m.saturating_sub(n)), (y.pos.saturating_sub(x.pos), x.pos.saturating_sub(y.pos))] {
                        let (i, j) = (i.min(n), j.min(m));
                        let (mut p, mut q) = (x.w.dup(), y.w.dup());
                        if i > 0 {
                            p.nth(i - 1);
                        }
                        if j > 0 {
                            q.nth(j - 1);
                        }
                        let (u, v) = (&x.seq[x.pos + i..], &y.seq[y.pos + j..]);
                        for k in 0..=u.len().max(v.len()).min(80) {
                            st.evals += 1;
                            let (u, v) = (u.get(k..).unwrap_or(&[]), v.get(k..).unwrap_or(&[]));
                            let (e1, e2) = (p.same(&*q), q.same(&*p));
                            if e1 != e2 || e1.is_some() && p.differs(&*q) != e1.map(|e| !e) {
                                return bad(format!("compare inconsistent {}", p.kind()), "a == b differs from b == a or from !(a != b)");
                            }
                            if e1 == Some(true) && u != v {
                                return bad(format!("compare {}", p.kind()), format!("two {} compare equal but have {} and {} items to come, which differ", p.kind(), u.len(), v.len()));
                            }
                            p.step();
                            q.step();
                        }
                    }
                }
            }
            Ev::Drain { h, how } => {
                let h = *h as usize % HANDLES;
                let Some(x) = self.handles[h].take() else { return Ok(()) };
                let (kind, rest) = (x.w.kind(), &x.seq[x.pos..]);
                self.hist.u64(5 << 8 | h as u64 | (*how as u64) << 16);
                st.evals += 1;
                st.reach("drained in way ", &(how % crate::handles::WAYS).to_string());
                if x.w.drain(*how) != crate::handles::drained(rest, *how) {
                    return bad(format!("drain {}", kind), format!("{}: taking the rest at {} of {} (way {}) differs from stepping", kind, x.pos, x.seq.len(), how % crate::handles::WAYS));
                }
            }
            Ev::Drop { h } => self.handles[*h as usize % HANDLES] = None,
            _ => {}
        }
        Ok(())
    }
}

/// One structure, decoded on its own.
enum One<'a> {
    Head(Header),
    Std(Result<Capability<'a>, CapabilityError>),
    Ext(Result<ExtendedCapability<'a>, ExtendedCapabilityError>),
}
impl<'a> One<'a> {
    fn observe(&self, b: &[u8], c: &Ctx, o: &mut Obs) {
        match self {
            One::Head(h) => crate::regs_hdr::header(h, &b[..64], o),
            One::Std(Ok(x)) => walk::std_observe(&x.kind, b, c, o),
            One::Ext(Ok(x)) => walk::ext_observe(&x.kind, b, o),
            _ => {}
        }
    }
    /// a == b, b == a, a != b
    fn compare(&self, z: &One<'a>) -> (bool, bool, bool) {
        match (self, z) {
            (One::Head(a), One::Head(b)) => (a == b, b == a, a != b),
            (One::Std(a), One::Std(b)) => (a == b, b == a, a != b),
            (One::Ext(a), One::Ext(b)) => (a == b, b == a, a != b),
            _ => (false, false, true),
        }
    }
    fn parts(&self, z: &One<'a>) -> Option<String> {
        match (self, z) {
            (One::Head(a), One::Head(b)) => crate::poll::header_parts(a, b),
            (One::Std(Ok(a)), One::Std(Ok(b))) => crate::poll::std_parts(&a.kind, &b.kind),
            (One::Ext(Ok(a)), One::Ext(Ok(b))) => crate::poll::ext_parts(&a.kind, &b.kind),
            _ => None,
        }
    }
    fn name(&self) -> String {
        match self {
            One::Head(_) => "header".into(),
            One::Std(x) => walk::std_step(x).name(),
            One::Ext(x) => walk::ext_step(x).name(),
        }
    }
}

fn obs_std(s: &Snap, i: usize, wide: bool) -> Option<(usize, Obs)> {
    let c = s.std.get(i)?.as_ref().ok()?;
    let p = c.pointer as usize;
    let b = s.bytes.get(p..s.std_end(wide))?;
    let mut o = Obs::default();
    walk::std_observe(&c.kind, b, &s.ctx(), &mut o);
    Some((p, o))
}
fn obs_ext(s: &Snap, i: usize) -> Option<(usize, Obs)> {
    let c = s.ext.get(i)?.as_ref().ok()?;
    let p = c.offset as usize;
    let b = s.bytes.get(p..)?;
    let mut o = Obs::default();
    walk::ext_observe(&c.kind, b, &mut o);
    Some((p, o))
}

/// what there is to see in a capture, in order
fn summary(s: &Snap, wide: bool) -> Vec<(String, u64)> {
    let mut v = vec![];
    if let Some(h) = s.hdr {
        v.push(("header".into(), crate::obs::digest(h)));
        let mut o = Obs::default();
        crate::regs_hdr::header(h, s.bytes, &mut o);
        v.push(("values of the header".into(), seen(&o)));
    }
    for i in 0..s.std.len() {
        let n = walk::std_step(&s.std[i]).name();
        v.push((n.clone(), crate::obs::digest(&s.std[i])));
        if let Err(e) = &s.std[i] {
            v.push((format!("text of {}", n), text(e)));
        }
        if let Some((_, o)) = obs_std(s, i, wide) {
            v.push((format!("values of {}", n), seen(&o)));
        }
    }
    for i in 0..s.ext.len().min(100) {
        let n = walk::ext_step(&s.ext[i]).name();
        v.push((n.clone(), crate::obs::digest(&s.ext[i])));
        if let Err(e) = &s.ext[i] {
            v.push((format!("text of {}", n), text(e)));
        }
        if let Some((_, o)) = obs_ext(s, i) {
            v.push((format!("values of {}", n), seen(&o)));
        }
    }
    v
}
/// every value and derived value of a structure
fn seen(o: &Obs) -> u64 {
    let mut h = Fnv::new();
    h.u64(o.values());
    for n in o.broken.iter().chain(&o.wback) {
        h.bytes(n.detail.as_bytes());
    }
    h.0
}
fn text<T: std::fmt::Display>(v: &T) -> u64 {
    use std::fmt::Write;
    let mut h = Fnv::new();
    let _ = write!(h, "{}", v);
    h.0
}
fn render(v: &[(String, u64)]) -> String {
    v.iter().map(|x| format!("{} {:016x}\n", x.0, x.1)).collect()
}

/// What the new process of [Ev::Fresh] does: decodes what it is given and prints what it sees.
pub fn decode_stdin() -> i32 {
    use std::io::Read;
    let mut v = vec![];
    if std::io::stdin().read_to_end(&mut v).is_err() || v.len() < 2 {
        return 2;
    }
    let (wide, n) = (v[0] != 0, v[1]);
    let mut rest = &v[2..];
    let mut out = String::new();
    for _ in 0..n {
        let Some((l, r)) = rest.split_first_chunk::<2>() else { return 2 };
        let Some((b, r)) = r.split_at_checked(u16::from_le_bytes(*l) as usize) else { return 2 };
        rest = r;
        let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        match std::panic::catch_unwind(|| summary_of(b, wide)) {
            Ok(s) => out += &(render(&s) + "--\n"),
            Err(_) => {
                let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                print!("panic {} {}", at, msg);
                return 0;
            }
        }
    }
    print!("{}", out);
    0
}

/// How far a reader goes on in a list that has come back to a place it has been at. Where the walk
/// itself is not what is decided, the same entries over and over show nothing new.
fn beyond(prop: u8) -> usize {
    match prop {
        2 => usize::MAX,
        3 | 4 => 100,
        _ => 2,
    }
}

/// The items of a walk, at most `max` and one more (then true), and `more` after the first return
/// to a place.
fn gather<I: Iterator>(it: &mut I, max: usize, more: usize, place: impl Fn(&I::Item) -> Option<usize>) -> (Vec<I::Item>, bool) {
    let mut been = [0u64; 64];
    let (mut v, mut again) = (vec![], 0usize);
    while let Some(x) = it.next() {
        if let Some(p) = place(&x) {
            let w = &mut been[p / 64 % 64];
            again += (*w >> (p % 64) & 1) as usize;
            *w |= 1 << (p % 64);
        }
        v.push(x);
        if v.len() > max {
            return (v, true);
        }
        if again > more {
            break;
        }
    }
    (v, false)
}

/// the same, decoded here
fn summary_of(bytes: &'static [u8], wide: bool) -> Vec<(String, u64)> {
    let mut arena = Arena::default();
    let mut s = Snap { bytes, dev: 0, hdr: None, std: vec![], std_more: false, ext: vec![], ext_more: false };
    if let Ok(h) = Header::try_from(bytes) {
        let h = arena.keep(h);
        s.hdr = Some(h);
        s.std = gather(&mut Capabilities::new(s.std_data(wide), h), STD_MAX, beyond(16), |x| x.as_ref().ok().map(|c| c.pointer as usize)).0;
        s.ext = gather(&mut ExtendedCapabilities::new(s.ext_data()), EXT_MAX, beyond(16), |x| x.as_ref().ok().map(|c| c.offset as usize)).0;
    }
    summary(&s, wide)
}

fn hint(x: &Held) -> Res {
    let left = x.seq.len() - x.pos;
    let (lo, hi) = x.w.hint();
    if lo > left || hi.map_or(false, |h| h < left) {
        return bad(format!("size hint {}", x.w.kind()), format!("{}: {} items left, size hint {:?}", x.w.kind(), left, (lo, hi)));
    }
    Ok(())
}

fn nbars(b: &[u8]) -> usize {
    match b[0x0e] & 0x7f {
        0 => 6,
        1 => 2,
        2 => 1,
        _ => 0,
    }
}

fn note(name: &str, v: &[crate::obs::Note]) -> Res {
    match v.first() {
        None => Ok(()),
        Some(n) => bad(format!("{} {}", name, n.label), format!("{}: {}[{}]: {}", name, n.label, n.idx, n.detail)),
    }
}

fn same_step(g: &Step, w: &Step) -> bool {
    g == w
}

fn first_diff(a: &Obs, b: &Obs) -> String {
    for (x, y) in a.flds.iter().zip(&b.flds) {
        if !x.raw && (x.label, x.idx, x.val) != (y.label, y.idx, y.val) {
            return format!("{}[{}] = {:#x} became {}[{}] = {:#x}", x.label, x.idx, x.val, y.label, y.idx, y.val);
        }
    }
    if a.flds.len() != b.flds.len() {
        return format!("{} values became {}", a.flds.len(), b.flds.len());
    }
    for (x, y) in a.blobs.iter().zip(&b.blobs) {
        if x.3 != y.3 {
            return format!("{} differ", x.0);
        }
    }
    "a derived value differs".to_string()
}

/// Print it every way there is.
fn show<T: std::fmt::Debug>(v: &T) -> u64 {
    let mut h = Fnv::new();
    let _ = write!(h, "{:?}", v);
    if h.0 % 8 == 0 { let _ = write!(h, "{:#?}", v); }
    h.0
}
fn show_res<T: std::fmt::Debug, E: std::fmt::Debug + std::fmt::Display>(r: &Result<T, E>) -> u64 {
    match r {
        Ok(v) => show(v),
        Err(e) => {
            let mut h = Fnv(show(e));
            let _ = write!(h, "{}", e);
            let _ = write!(h, "{:#}", e);
            h.0
        }
    }
}
