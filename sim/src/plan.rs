//! One simulated run, written down: the devices it starts from and every event, in order, with its
//! simulated delay. Executing a plan draws no random numbers, so a plan is its own replay file.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DevImg {
    /// has an extended configuration space
    pub ext: bool,
    pub bytes: Vec<u8>,
}

/// What goes wrong with one read of the configuration space.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// fewer bytes than asked for, and end of file afterwards
    Short(u16),
    /// no completion: all ones
    Ones,
    /// all zeros
    Zeros,
    /// one bit flipped on the way
    Flip(u32),
    /// an old copy of the registers
    Stale,
    /// another offset is read
    Misdirect(u16),
    /// nothing transferred; the collector tries again
    Interrupted,
    /// the collector dies here; what it had is what there is
    Abort,
}

/// What happens to a capture on its way to storage and back.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Store {
    Ok,
    LostTail(u16),
    /// a 64-byte sector never written (zeros)
    TornSector(u8),
    /// the tail allocated but never written
    ZeroTail(u16),
    /// written two times
    Twice,
    /// a 64-byte sector holds the previous capture
    OldSector(u8),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// the driver writes registers
    Write { dev: u8, off: u16, bytes: Vec<u8> },
    /// registers go bad
    Corrupt { dev: u8, off: u16, bytes: Vec<u8> },
    Unplug { dev: u8 },
    Plug { dev: u8 },
    /// a collector starts to capture `size` bytes
    Begin { col: u8, dev: u8, size: u16 },
    Read { col: u8, len: u16, fault: Fault },
    Finish { col: u8, store: Store },
    /// a stored capture, copied with some bytes changed
    Damage { snap: u8, off: u16, bytes: Vec<u8> },
    /// a stored capture, copied without its tail
    Cut { snap: u8, len: u16 },
    /// two captures compared
    Pair { a: u8, b: u8 },
    /// a capture copied with one of its entries moved elsewhere
    Relocate { snap: u8, entry: u8, to: u16 },
    /// decoded registers written back to the device and captured again
    WriteBack { snap: u8, pick: u8 },
    /// one entry decoded on its own, from at most `len` bytes
    Alone { snap: u8, entry: u8, len: u16 },
    /// one entry read again and again while its registers change: readings `from`.. of the sequence `seed` stands for,
    /// from at most `len` bytes
    Poll { snap: u8, entry: u8, len: u16, seed: u32, from: u16, n: u16 },
    /// the same bytes decoded once more, from elsewhere in memory, perhaps by another thread
    Again { snap: u8, shift: u8, thread: bool },
    /// a new process decodes all captures stored so far, in another order
    Fresh { order: u8 },
    /// iterator handles
    Open { h: u8, snap: u8, what: u8, sel: u8 },
    Step { h: u8 },
    Nth { h: u8, k: u8 },
    Dup { h: u8, into: u8 },
    Cmp { a: u8, b: u8 },
    Drain { h: u8, how: u8 },
    /// stepped until so many are left
    Near { h: u8, left: u8 },
    Drop { h: u8 },
    /// the reading process restarts; only captures survive
    Restart,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    /// the standard capabilities are given everything from 0x40 on
    pub wide: bool,
    pub devs: Vec<DevImg>,
    /// (simulated microseconds since the previous event, event)
    pub evs: Vec<(u32, Ev)>,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 == 1 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "wide {}", self.wide as u8);
        for d in &self.devs {
            let _ = writeln!(s, "dev {} {}", d.ext as u8, d.bytes.len());
            for (i, row) in d.bytes.chunks(16).enumerate() {
                if row.iter().any(|b| *b != 0) {
                    let _ = writeln!(s, "row {:03x} {}", i * 16, hex(row));
                }
            }
        }
        for (dt, e) in &self.evs {
            let _ = write!(s, "+{} ", dt);
            let _ = match e {
                Ev::Write { dev, off, bytes } => writeln!(s, "write {} {:#x} {}", dev, off, hex(bytes)),
                Ev::Corrupt { dev, off, bytes } => writeln!(s, "corrupt {} {:#x} {}", dev, off, hex(bytes)),
                Ev::Unplug { dev } => writeln!(s, "unplug {}", dev),
                Ev::Plug { dev } => writeln!(s, "plug {}", dev),
                Ev::Begin { col, dev, size } => writeln!(s, "begin {} {} {}", col, dev, size),
                Ev::Read { col, len, fault } => {
                    let f = match fault {
                        Fault::None => "ok 0".to_string(),
                        Fault::Short(n) => format!("short {}", n),
                        Fault::Ones => "ones 0".into(),
                        Fault::Zeros => "zeros 0".into(),
                        Fault::Flip(n) => format!("flip {}", n),
                        Fault::Stale => "stale 0".into(),
                        Fault::Misdirect(n) => format!("misdirect {}", n),
                        Fault::Interrupted => "interrupted 0".into(),
                        Fault::Abort => "abort 0".into(),
                    };
                    writeln!(s, "read {} {} {}", col, len, f)
                }
                Ev::Finish { col, store } => {
                    let f = match store {
                        Store::Ok => "ok 0".to_string(),
                        Store::LostTail(n) => format!("lost-tail {}", n),
                        Store::TornSector(n) => format!("torn-sector {}", n),
                        Store::ZeroTail(n) => format!("zero-tail {}", n),
                        Store::Twice => "twice 0".into(),
                        Store::OldSector(n) => format!("old-sector {}", n),
                    };
                    writeln!(s, "finish {} {}", col, f)
                }
                Ev::Damage { snap, off, bytes } => writeln!(s, "damage {} {:#x} {}", snap, off, hex(bytes)),
                Ev::Cut { snap, len } => writeln!(s, "cut {} {:#x}", snap, len),
                Ev::Pair { a, b } => writeln!(s, "pair {} {}", a, b),
                Ev::Relocate { snap, entry, to } => writeln!(s, "relocate {} {} {:#x}", snap, entry, to),
                Ev::WriteBack { snap, pick } => writeln!(s, "write-back {} {}", snap, pick),
                Ev::Alone { snap, entry, len } => writeln!(s, "alone {} {} {}", snap, entry, len),
                Ev::Poll { snap, entry, len, seed, from, n } => writeln!(s, "poll {} {} {} {:#x} {} {}", snap, entry, len, seed, from, n),
                Ev::Fresh { order } => writeln!(s, "fresh {}", order),
                Ev::Again { snap, shift, thread } => writeln!(s, "again {} {} {}", snap, shift, *thread as u8),
                Ev::Open { h, snap, what, sel } => writeln!(s, "open {} {} {} {}", h, snap, what, sel),
                Ev::Step { h } => writeln!(s, "step {}", h),
                Ev::Nth { h, k } => writeln!(s, "nth {} {}", h, k),
                Ev::Dup { h, into } => writeln!(s, "dup {} {}", h, into),
                Ev::Cmp { a, b } => writeln!(s, "cmp {} {}", a, b),
                Ev::Near { h, left } => writeln!(s, "near {} {}", h, left),
                Ev::Drain { h, how } => writeln!(s, "drain {} {}", h, how),
                Ev::Drop { h } => writeln!(s, "drop {}", h),
                Ev::Restart => writeln!(s, "restart"),
            };
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan { wide: false, devs: vec![], evs: vec![] };
        for (ln, line) in text.lines().enumerate() {
            let w: Vec<&str> = line.split_whitespace().collect();
            let bad = || format!("line {}: {}", ln + 1, line);
            let num = |i: usize| -> Result<u64, String> {
                let t = w.get(i).ok_or_else(bad)?;
                match t.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => t.parse(),
                }
                .map_err(|_| bad())
            };
            let b8 = |i: usize| num(i).map(|v| v as u8);
            let b16 = |i: usize| num(i).map(|v| v as u16);
            let bytes = |i: usize| w.get(i).and_then(|s| unhex(s)).ok_or_else(bad);
            match w.first().copied() {
                None => {}
                Some("wide") => p.wide = num(1)? != 0,
                Some("dev") => {
                    let n = num(2)? as usize;
                    if n > 65536 {
                        return Err(bad());
                    }
                    p.devs.push(DevImg { ext: num(1)? != 0, bytes: vec![0; n] })
                }
                Some("row") => {
                    let at = usize::from_str_radix(w.get(1).ok_or_else(bad)?, 16).map_err(|_| bad())?;
                    let v = bytes(2)?;
                    let d = p.devs.last_mut().ok_or_else(bad)?;
                    d.bytes.get_mut(at..at + v.len()).ok_or_else(bad)?.copy_from_slice(&v);
                }
                Some(t) if t.starts_with('+') => {
                    let dt: u32 = t[1..].parse().map_err(|_| bad())?;
                    let ev = match *w.get(1).ok_or_else(bad)? {
                        "write" => Ev::Write { dev: b8(2)?, off: b16(3)?, bytes: bytes(4)? },
                        "corrupt" => Ev::Corrupt { dev: b8(2)?, off: b16(3)?, bytes: bytes(4)? },
                        "unplug" => Ev::Unplug { dev: b8(2)? },
                        "plug" => Ev::Plug { dev: b8(2)? },
                        "begin" => Ev::Begin { col: b8(2)?, dev: b8(3)?, size: b16(4)? },
                        "read" => Ev::Read {
                            col: b8(2)?,
                            len: b16(3)?,
                            fault: match *w.get(4).ok_or_else(bad)? {
                                "ok" => Fault::None,
                                "short" => Fault::Short(b16(5)?),
                                "ones" => Fault::Ones,
                                "zeros" => Fault::Zeros,
                                "flip" => Fault::Flip(num(5)? as u32),
                                "stale" => Fault::Stale,
                                "misdirect" => Fault::Misdirect(b16(5)?),
                                "interrupted" => Fault::Interrupted,
                                "abort" => Fault::Abort,
                                _ => return Err(bad()),
                            },
                        },
                        "finish" => Ev::Finish {
                            col: b8(2)?,
                            store: match *w.get(3).ok_or_else(bad)? {
                                "ok" => Store::Ok,
                                "lost-tail" => Store::LostTail(b16(4)?),
                                "torn-sector" => Store::TornSector(b8(4)?),
                                "zero-tail" => Store::ZeroTail(b16(4)?),
                                "twice" => Store::Twice,
                                "old-sector" => Store::OldSector(b8(4)?),
                                _ => return Err(bad()),
                            },
                        },
                        "damage" => Ev::Damage { snap: b8(2)?, off: b16(3)?, bytes: bytes(4)? },
                        "cut" => Ev::Cut { snap: b8(2)?, len: b16(3)? },
                        "pair" => Ev::Pair { a: b8(2)?, b: b8(3)? },
                        "relocate" => Ev::Relocate { snap: b8(2)?, entry: b8(3)?, to: b16(4)? },
                        "write-back" => Ev::WriteBack { snap: b8(2)?, pick: b8(3)? },
                        "poll" => Ev::Poll { snap: b8(2)?, entry: b8(3)?, len: b16(4)?, seed: num(5)? as u32, from: b16(6)?, n: b16(7)? },
                        "alone" => Ev::Alone { snap: b8(2)?, entry: b8(3)?, len: b16(4)? },
                        "fresh" => Ev::Fresh { order: b8(2)? },
                        "again" => Ev::Again { snap: b8(2)?, shift: b8(3)?, thread: num(4)? != 0 },
                        "open" => Ev::Open { h: b8(2)?, snap: b8(3)?, what: b8(4)?, sel: b8(5)? },
                        "step" => Ev::Step { h: b8(2)? },
                        "nth" => Ev::Nth { h: b8(2)?, k: b8(3)? },
                        "dup" => Ev::Dup { h: b8(2)?, into: b8(3)? },
                        "cmp" => Ev::Cmp { a: b8(2)?, b: b8(3)? },
                        "near" => Ev::Near { h: b8(2)?, left: b8(3)? },
                        "drain" => Ev::Drain { h: b8(2)?, how: b8(3)? },
                        "drop" => Ev::Drop { h: b8(2)? },
                        "restart" => Ev::Restart,
                        _ => return Err(bad()),
                    };
                    p.evs.push((dt, ev));
                }
                Some(_) => return Err(bad()),
            }
        }
        Ok(p)
    }
}
