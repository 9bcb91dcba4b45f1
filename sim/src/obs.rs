//! Observation log of one decoded structure.
//!
//! An observer (see `regs_*.rs`) walks every public value of a decoded structure and records, for
//! each, the place in the configuration space that value has to come from. The same log then
//! answers several questions: is every value the one stored there (fidelity), was it stored there
//! at all (fabrication), did anything but those bytes influence it (locality).

/// What part of the structure a value belongs to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sec {
    /// plain register field
    Reg,
    /// element of a variable-length table
    Tab,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fld {
    pub label: &'static str,
    pub idx: u32,
    pub sec: Sec,
    /// bit offset from the beginning of the structure
    pub bit: u32,
    pub width: u32,
    pub shift: u32,
    pub val: u64,
    /// further stored codes that legitimately map to the same reported value
    pub alt: &'static [u64],
    /// raw copy of the bits, outside of what a comparison of decoded values covers
    pub raw: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Note {
    pub label: &'static str,
    pub idx: u32,
    pub sec: Sec,
    pub detail: String,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub flds: Vec<Fld>,
    /// reported byte ranges: (label, section, offset, bytes)
    pub blobs: Vec<(&'static str, Sec, usize, Vec<u8>)>,
    /// rules that did not hold (derived values, presence of optional parts, counts)
    pub broken: Vec<Note>,
    /// bytes the structure depends on besides those of the fields (e.g. the table it walked)
    pub deps: Vec<(usize, usize)>,
    /// iterators that did not stay finished, or ran past their declared bound
    pub runaway: Vec<Note>,
    /// write-back mismatches
    pub wback: Vec<Note>,
    /// number of derived-value / presence rules evaluated
    pub rules: u64,
    pub wbacks: u64,
    /// digest of the derived values that were reported
    pub facts: u64,
    sec: Option<Sec>,
    idx: u32,
}

/// FNV-1a over whatever is printed into it
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
        }
    }
    pub fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes())
    }
}
impl core::fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}
pub fn digest<T: core::fmt::Debug + ?Sized>(v: &T) -> u64 {
    use core::fmt::Write;
    let mut h = Fnv::new();
    let _ = write!(h, "{:?}", v);
    h.0
}

pub fn get_bits(b: &[u8], bit: u32, width: u32) -> Option<u64> {
    debug_assert!(width <= 64);
    let mut v = 0u64;
    let (mut got, mut pos) = (0u32, bit);
    while got < width {
        let byte = *b.get((pos / 8) as usize)?;
        let lo = pos % 8;
        let n = (8 - lo).min(width - got);
        let part = ((byte >> lo) as u64) & ((1u64 << n) - 1);
        v |= part << got;
        got += n;
        pos += n;
    }
    Some(v)
}

impl Obs {
    fn s(&self) -> Sec {
        self.sec.unwrap_or(Sec::Reg)
    }
    pub fn tab(&mut self, idx: usize) {
        self.sec = Some(Sec::Tab);
        self.idx = idx as u32;
    }
    pub fn reg(&mut self) {
        self.sec = None;
        self.idx = 0;
    }
    pub fn f(&mut self, label: &'static str, off: usize, lo: u32, width: u32, val: u64) {
        self.fs(label, off, lo, width, val, 0)
    }
    pub fn fs(&mut self, label: &'static str, off: usize, lo: u32, width: u32, val: u64, shift: u32) {
        let (sec, idx) = (self.s(), self.idx);
        self.flds.push(Fld { label, idx, sec, bit: off as u32 * 8 + lo, width, shift, val, alt: &[], raw: false });
    }
    /// raw copy of a register
    pub fn quiet(&mut self, label: &'static str, off: usize, lo: u32, width: u32, val: u64) {
        self.f(label, off, lo, width, val);
        self.flds.last_mut().unwrap().raw = true;
    }
    /// value that stands for several stored codes
    pub fn any(&mut self, label: &'static str, off: usize, lo: u32, width: u32, codes: &'static [u64]) {
        let (sec, idx) = (self.s(), self.idx);
        self.flds.push(Fld {
            label, idx, sec, bit: off as u32 * 8 + lo, width, shift: 0, val: codes[0], alt: codes, raw: false,
        });
    }
    pub fn rule(&mut self, label: &'static str, ok: bool, detail: impl FnOnce() -> String) {
        self.rules += 1;
        if !ok {
            let n = Note { label, idx: self.idx, sec: self.s(), detail: detail() };
            self.broken.push(n);
        }
    }
    pub fn eq<T: PartialEq + core::fmt::Debug>(&mut self, label: &'static str, got: T, want: T) {
        let ok = got == want;
        self.fact(&got);
        self.rule(label, ok, || format!("reported {:?}, expected {:?}", got, want));
    }
    pub fn fact<T: core::fmt::Debug>(&mut self, v: &T) {
        self.facts = self.facts.rotate_left(5) ^ digest(v);
    }
    /// Digest of every value reported.
    pub fn values(&self) -> u64 {
        let mut h = Fnv::new();
        for f in self.flds.iter().filter(|f| !f.raw) {
            h.bytes(f.label.as_bytes());
            h.u64(f.idx as u64);
            h.u64(f.val);
        }
        for (l, _, _, b) in &self.blobs {
            h.bytes(l.as_bytes());
            h.bytes(b);
        }
        h.u64(self.facts);
        h.0
    }
    pub fn blob(&mut self, label: &'static str, off: usize, bytes: &[u8]) {
        let s = self.s();
        self.blobs.push((label, s, off, bytes.to_vec()));
    }
    pub fn dep(&mut self, off: usize, len: usize) {
        self.deps.push((off, len));
    }
    pub fn wb<T: PartialEq + core::fmt::Debug>(&mut self, label: &'static str, got: T, want: T) {
        self.wbacks += 1;
        self.fact(&got);
        if got != want {
            let n = Note { label, idx: self.idx, sec: self.s(), detail: format!("wrote back {:x?}, register held {:x?}", got, want) };
            self.wback.push(n);
        }
    }
    pub fn ran_away(&self) -> bool {
        !self.runaway.is_empty()
    }
    pub fn runaway(&mut self, label: &'static str, detail: String) {
        let n = Note { label, idx: self.idx, sec: self.s(), detail };
        self.runaway.push(n);
    }
    /// Drain a finite iterator, at most `limit + 1` items; check it stays finished.
    pub fn drain<I: Iterator>(&mut self, label: &'static str, mut it: I, limit: usize) -> Vec<I::Item> {
        let mut v = Vec::new();
        loop {
            match it.next() {
                Some(x) => {
                    v.push(x);
                    if v.len() > limit {
                        self.runaway(label, format!("more than {} items", limit));
                        return v;
                    }
                }
                None => break,
            }
        }
        for k in 0..3 {
            if it.next().is_some() {
                self.runaway(label, format!("yielded again {} calls after finishing", k + 1));
                break;
            }
        }
        v
    }

    /// First value that disagrees with the bytes the structure was decoded from.
    pub fn check(&self, b: &[u8], want: impl Fn(Sec) -> bool) -> Option<String> {
        for f in &self.flds {
            if !want(f.sec) {
                continue;
            }
            match get_bits(b, f.bit, f.width) {
                None => {
                    return Some(format!(
                        "{}[{}] = {:#x} reported, but its bits {}..{} lie past the captured bytes ({})",
                        f.label, f.idx, f.val, f.bit, f.bit + f.width, b.len()
                    ))
                }
                Some(raw) => {
                    let ok = if f.alt.is_empty() { raw.checked_shl(f.shift) == Some(f.val) } else { f.alt.contains(&raw) };
                    if !ok {
                        return Some(format!(
                            "{}[{}]: reported {:#x}, stored bits {}..{} hold {:#x} (shift {})",
                            f.label, f.idx, f.val, f.bit, f.bit + f.width, raw, f.shift
                        ));
                    }
                }
            }
        }
        for (label, sec, off, bytes) in &self.blobs {
            if !want(*sec) {
                continue;
            }
            if b.get(*off..*off + bytes.len()) != Some(&bytes[..]) {
                return Some(format!("{}: reported bytes differ from those stored at +{:#x}", label, off));
            }
        }
        for n in &self.broken {
            if want(n.sec) {
                return Some(format!("{}[{}]: {}", n.label, n.idx, n.detail));
            }
        }
        None
    }

    /// Byte offsets (relative) that any reported value was taken from.
    pub fn touched(&self, out: &mut Vec<bool>, len: usize) {
        out.clear();
        out.resize(len, false);
        let mut mark = |a: usize, e: usize| {
            for x in a..e.min(len) {
                out[x] = true
            }
        };
        for f in &self.flds {
            if f.width > 0 {
                mark((f.bit / 8) as usize, ((f.bit + f.width - 1) / 8) as usize + 1);
            }
        }
        for (_, _, off, bytes) in &self.blobs {
            mark(*off, *off + bytes.len());
        }
        for (off, n) in &self.deps {
            mark(*off, *off + *n);
        }
    }
}

/// Register code of a reported value.
pub trait Code {
    fn code(&self) -> u64;
}
macro_rules! code_int { ($($t:ty),*) => { $(impl Code for $t { fn code(&self) -> u64 { *self as u64 } })* } }
code_int!(bool, u8, u16, u32, u64, usize);
impl<T: Code> Code for &T {
    fn code(&self) -> u64 {
        (*self).code()
    }
}

/// `r!(o, s.a.b, off, lo, width)`: the value of `s.a.b` is stored in `width` bits from bit `lo` of
/// the byte at `off`.
#[macro_export]
macro_rules! r {
    ($o:expr, $e:expr, $off:expr, $lo:expr, $w:expr) => {
        $o.f(stringify!($e), $off, $lo, $w, $crate::obs::Code::code(&$e))
    };
    ($o:expr, $e:expr, $off:expr, $lo:expr, $w:expr, << $s:expr) => {
        $o.fs(stringify!($e), $off, $lo, $w, $crate::obs::Code::code(&$e), $s)
    };
}

/// consecutive fields of one register: `rs!(o, off, [w s.a, w s.b, w _, ...])`, low bits first
#[macro_export]
macro_rules! rs {
    (@go $o:expr, $off:expr, $bit:ident, ) => {};
    (@go $o:expr, $off:expr, $bit:ident, $w:literal _ $(, $($rest:tt)*)?) => {
        $bit += $w;
        $crate::rs!(@go $o, $off, $bit, $($($rest)*)?);
    };
    (@go $o:expr, $off:expr, $bit:ident, $w:literal $e:expr $(, $($rest:tt)*)?) => {
        $o.f(stringify!($e), $off, $bit, $w, $crate::obs::Code::code(&$e));
        $bit += $w;
        $crate::rs!(@go $o, $off, $bit, $($($rest)*)?);
    };
    ($o:expr, $off:expr, [ $($t:tt)* ]) => {{
        #[allow(unused_mut, unused_assignments)]
        { let mut bit = 0u32; $crate::rs!(@go $o, $off, bit, $($t)*); let _ = bit; }
    }};
}

/// register codes of an enumeration
#[macro_export]
macro_rules! codes {
    // every other code is carried by `Reserved`, and none of these
    ($t:ty { $($p:pat => $c:literal),* ; Reserved }) => {
        impl $crate::obs::Code for $t {
            #[allow(unreachable_patterns)]
            fn code(&self) -> u64 {
                match self {
                    $($p => $c as u64,)*
                    Self::Reserved(v) if [$($c as u64),*].contains(&(*v as u64)) => u64::MAX,
                    Self::Reserved(v) => *v as u64,
                    _ => u64::MAX,
                }
            }
        }
    };
    ($t:ty { $($p:pat => $c:expr),* $(,)? }) => {
        impl $crate::obs::Code for $t {
            #[allow(unreachable_patterns)]
            fn code(&self) -> u64 {
                match self { $($p => ($c) as u64,)* _ => u64::MAX }
            }
        }
    };
}
