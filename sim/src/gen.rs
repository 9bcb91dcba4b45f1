//! Seeded generation: device images, and the plan of events one simulated run executes.
use crate::plan::{DevImg, Ev, Fault, Plan, Store};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    /// independent stream for run `i` of `seed`
    pub fn run(seed: u64, salt: u64, i: u64) -> Self {
        let mut r = Rng::new(seed.wrapping_mul(0xd134_2543_de82_ef95) ^ salt);
        let a = r.next();
        Rng::new(a ^ i.wrapping_mul(0x2545_f491_4f6c_dd1d))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() >> 11) as usize % n }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// What a run concentrates on.
#[derive(Clone)]
pub struct Profile {
    /// percent of runs without any injected fault
    pub clean: usize,
    /// relative weight of standard capabilities against extended ones
    pub std_list: bool,
    pub ext_list: bool,
    /// captures cut short on purpose, percent
    pub cut: usize,
    /// list/count corruption, percent per capture
    pub links: usize,
    /// iterator handle operations per run
    pub handles: usize,
    /// pairwise comparisons per run
    pub pairs: usize,
    /// write-back histories per run
    pub write_back: usize,
    /// relocation histories per run
    pub relocate: usize,
    pub captures: usize,
    /// only these structures, if any given (standard, extended)
    pub std_ids: &'static [u8],
    pub ext_ids: &'static [u16],
    /// direct damage histories per run
    pub damage: usize,
    pub alone: usize,
    /// how many times some entry is polled, and for how many readings
    pub polls: (usize, usize),
    pub again: usize,
}

pub fn fill(r: &mut Rng, b: &mut [u8]) {
    blank(r, b);
    if r.chance(20) {
        season(r, b);
    }
}

/// Lets a few registers hold numbers that the library's source mentions, or their neighbours.
pub fn season(r: &mut Rng, b: &mut [u8]) {
    let (large, small) = crate::words::all();
    for _ in 0..r.range(1, 4) {
        if b.len() > 8 && r.chance(20) {
            // a register holds the same as another one, or nearly so
            let w = r.pick(&[1usize, 2, 2, 4, 4, 8]);
            let (i, j) = (r.below(b.len() / w) * w, r.below(b.len() / w) * w);
            b.copy_within(i..i + w, j);
            match r.below(8) {
                0 => b[j] = b[j].wrapping_add(1),
                1 => b[j] = b[j].wrapping_sub(1),
                2 => b[j] ^= 1 << r.below(8),
                _ => {}
            }
            continue;
        }
        let v = match r.below(5) {
            0 | 1 => r.pick(small),
            _ => r.pick(large),
        };
        let v = match r.below(10) {
            0 => v + 1,
            1 => v - 1,
            _ => v,
        };
        let need = (64 - v.leading_zeros() as usize).max(1);
        // as a register, or as a field of one
        let lo = r.pick(&[0usize, 0, 0, 0, 4, 16, 20, 12, 8, 1]);
        let (lo, w) = match need {
            0..=8 => (lo, r.pick(&[8usize, 8, 16, need])),
            9..=16 => (lo, r.pick(&[16usize, 16, 16, 32, need])),
            17..=32 => (0, 32),
            _ => (0, 64),
        };
        if b.len() * 8 < w + lo {
            continue;
        }
        let step = r.pick(&[1usize, 2, 4, 4]);
        let span = (b.len() - (w + lo + 7) / 8) / step + 1;
        let span = if r.chance(40) { span.min(16 / step) } else { span };
        let at = r.below(span) * step;
        set_bits(b, at, lo, w, v);
        if w == 32 && r.chance(25) {
            // addresses have flags in their bottom bits
            b[at] ^= r.byte() & 15;
        }
    }
}

/// The first register begins with an ID that the source mentions.
fn named(r: &mut Rng, b: &mut [u8]) {
    if r.chance(20) {
        let v = r.pick(&crate::words::all().0);
        set_bits(b, 4, 0, 16, v);
    }
}

fn blank(r: &mut Rng, b: &mut [u8]) {
    match r.below(13) {
        0 => b.fill(0),
        1 => b.fill(0xff),
        2 | 3 | 4 => {
            for c in b.chunks_mut(8) {
                let v = r.next().to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&v[..n]);
            }
        }
        5 => {
            for c in b.chunks_mut(8) {
                let v = (r.next() & r.next() & r.next()).to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&v[..n]);
            }
        }
        6 => {
            for c in b.chunks_mut(8) {
                let v = (r.next() | r.next() | r.next()).to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&v[..n]);
            }
        }
        7 | 8 => {
            // one bit set, or one cleared
            let inv = r.chance(50);
            b.fill(if inv { 0xff } else { 0 });
            if !b.is_empty() {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
        }
        9 => {
            let (k, c) = (r.byte() | 1, r.byte());
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(k).wrapping_add(c);
            }
        }
        10 => {
            for c in b.chunks_mut(4) {
                let v = r.pick(&[0u32, 1, 2, 3, 0x8000_0000, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffe, 0x0001_0000, 0x0000_ffff, 0xffff_0000]);
                let n = c.len();
                c.copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        11 => {
            // small numbers everywhere, in words or in bytes
            let (w, n) = (r.pick(&[1usize, 2, 2, 4]), r.pick(&[3usize, 6, 10, 33]));
            for c in b.chunks_mut(w) {
                c.fill(0);
                c[0] = r.below(n) as u8;
            }
        }
        _ => {
            for c in b.chunks_mut(4) {
                if r.chance(50) {
                    let v = r.next().to_le_bytes();
                    let n = c.len();
                    c.copy_from_slice(&v[..n]);
                } else {
                    c.fill(if r.chance(50) { 0 } else { 0xff });
                }
            }
        }
    }
}

fn set_bits(b: &mut [u8], off: usize, lo: usize, w: usize, v: u64) {
    for i in 0..w {
        let bit = off * 8 + lo + i;
        if bit / 8 < b.len() {
            let m = 1u8 << (bit % 8);
            if v >> i & 1 == 1 { b[bit / 8] |= m } else { b[bit / 8] &= !m }
        }
    }
}

pub const STD_IDS: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 5, 7, 8, 9, 16, 16, 20, 2, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 17, 18, 19, 20, 21];

/// A standard capability, header included; its natural size.
pub fn std_cap(r: &mut Rng, id: u8, bridge: bool) -> Vec<u8> {
    let size = match id {
        1 => 8,
        2 => r.pick(&[12, 16, 20, 22, 24, 28, 32, 34, 36]),
        3 => 8,
        4 | 10 => 4,
        5 => r.pick(&[12, 16, 20, 24]),
        7 => r.pick(&[8, 16, 24, 32]),
        8 => r.pick(&[4, 12, 24, 28]),
        9 => r.range(3, 40),
        13 | 18 => 8,
        16 => r.pick(&[0x1c, 0x24, 0x2c, 0x34, 0x3c]),
        17 => 12,
        19 => 6,
        20 => 4 + if bridge { 4 } else { 0 },
        21 => 0x24,
        _ => 4,
    };
    let mut b = vec![0u8; size];
    fill(r, &mut b);
    match id {
        5 if r.chance(80) => {
            let v = r.next();
            set_bits(&mut b, 2, 7, 2, v)
        }
        7 if r.chance(80) => {
            let v = r.next();
            set_bits(&mut b, 3, 4, 2, v)
        }
        8 => {
            let v = if r.chance(60) { r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 0x15, 0x15, 0x11]) } else { r.next() };
            set_bits(&mut b, 3, 3, 5, v)
        }
        9 => {
            let v = match r.below(10) {
                0 => r.below(5) as u8,
                1 => r.byte(),
                2 => r.pick(&[0x0f, 0x10, 0x11, 0x13, 0x14, 0x15]),
                _ => b.len() as u8,
            };
            b[2] = v;
            b.resize(b.len().max(v.min(0x28) as usize).max(4), 0x5a);
            if r.chance(70) && b.len() > 3 {
                b[3] = r.below(7) as u8;
            }
        }
        2 if r.chance(70) => {
            let (x, y) = (r.next(), r.next());
            set_bits(&mut b, 4, 17, 1, x);
            set_bits(&mut b, 4, 7, 1, y);
        }
        16 => {
            let v = r.pick(&[0u64, 1, 1, 2, 2, 2, 2, 3, 15]);
            set_bits(&mut b, 2, 0, 4, v);
            let v = r.below(16) as u64;
            set_bits(&mut b, 2, 4, 4, v);
        }
        20 => {
            let n = match r.below(8) {
                0 => 0,
                1 => 63,
                2 => r.below(64),
                _ => r.range(1, 5),
            };
            set_bits(&mut b, 2, 0, 6, n as u64);
            for _ in 0..n.min(r.range(0, 7)) {
                let mut e = vec![0u8; 12];
                fill(r, &mut e);
                let (x, y) = (r.chance(40), r.chance(40));
                set_bits(&mut e, 4, 1, 1, x as u64);
                set_bits(&mut e, 8, 1, 1, y as u64);
                let extra = 4 * (x as usize + y as usize);
                let mut t = vec![0u8; extra];
                fill(r, &mut t);
                e.extend(t);
                let es = match r.below(8) {
                    0 => r.below(8) as u64,
                    1 => (e.len() / 4) as u64,
                    _ => (e.len() / 4 - 1) as u64,
                };
                set_bits(&mut e, 0, 0, 3, es);
                let pad = (es as usize + 1) * 4;
                if pad > e.len() && !cfg!(feature = "ea_real") {
                    e.resize(pad, 0xa5);
                }
                b.extend(e);
            }
        }
        _ => {}
    }
    b[0] = id;
    b
}

pub const EXT_IDS: &[u16] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c,
    0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 1, 2, 2, 5, 8, 8, 9, 0xb, 0xd, 0x12, 0x15, 0x16,
    0x17, 0x19, 0x1a, 0x1d, 0x23, 0x23, 0x24,
    // those with registers once more
    1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c,
    0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24,
];

/// An extended capability, header included (header left to the caller).
pub fn ext_cap(r: &mut Rng, id: u16) -> Vec<u8> {
    let vc = |r: &mut Rng| {
        let n = r.below(8);
        let size = match r.below(5) {
            0 => 0x10 + 12 * (n + 1),
            1 => 0x10 + 12 * r.below(n + 2) + r.below(12),
            _ => 0x10 + 12 * (n + 1) + r.below(0x140),
        };
        let mut b = vec![0u8; size];
        fill(r, &mut b);
        set_bits(&mut b, 4, 0, 3, n as u64);
        let v = r.next();
        set_bits(&mut b, 5, 2, 2, v);
        let off = |r: &mut Rng, tail: usize| match r.below(8) {
            0 => 0u64,
            1 => 1,
            2 => r.next() & 0xff,
            3 => ((size.saturating_sub(tail)) / 16) as u64,
            _ => r.range(1, size / 16 + 1) as u64,
        };
        let sel = r.next();
        set_bits(&mut b, 0xc, 1, 3, if r.chance(70) { sel % 4 } else { sel });
        let v = off(r, [0, 16, 32, 64, 0, 0, 0, 0][(sel & 7) as usize]);
        set_bits(&mut b, 0xb, 0, 8, v);
        for i in 0..=n {
            let at = 0x10 + 12 * i;
            let v = off(r, 32);
            set_bits(&mut b, at + 3, 0, 8, v);
            let v = r.next();
            set_bits(&mut b, at + 6, 1, 3, if r.chance(70) { v % 6 } else { v });
        }
        b
    };
    let size = match id {
        1 => r.pick(&[0x2c, 0x38, 0x48]),
        2 | 8 | 9 => return vc(r),
        3 | 6 | 0x1f | 0x22 => 0x0c,
        4 | 0x13 | 0x1e | 0x21 => 0x10,
        5 => 0x10,
        7 | 0xc | 0xe | 0xf | 0x18 | 0x1b | 0x1c => 8,
        0xa => 0x14,
        0xb => 8 + r.below(0x30),
        0xd => 8 + r.pick(&[0, 4, 8, 16, 32]),
        0x10 => 0x40,
        0x12 => r.pick(&[0x28, 0x30]),
        0x15 | 0x24 => 4,
        0x16 => 0x10 + r.range(1, 32),
        0x17 => 0x0c + 2 * r.range(0, 70),
        0x19 => 0x0c + 2 * r.pick(&[0, 1, 2, 4, 8, 12, 16, 32]),
        0x1a => 0x10 + 4 * r.below(8),
        0x1d => r.pick(&[0x0c, 0x30, 0x34, 0x38, 0x3c, 0x40, 0x44]),
        0x20 => 0x1c,
        0x23 => r.pick(&[0x0a, 0x0c, 0x10, 0x20, 0x38, 0x38, 0x40]),
        _ => 4 + 4 * r.below(4),
    };
    let mut b = vec![0u8; size];
    fill(r, &mut b);
    match id {
        1 => {
            let v = r.next();
            set_bits(&mut b, 0x18, 11, 1, v)
        }
        5 => {
            let n = match r.below(10) {
                0 => 0,
                1 => r.below(256),
                2 => 255,
                _ => r.range(1, 6),
            };
            b[5] = n as u8;
            for _ in 0..n.min(r.range(0, 8)) {
                let mut e = vec![0u8; 16];
                fill(r, &mut e);
                let v = r.next();
                set_bits(&mut e, 0, 1, 1, v);
                b.extend(e);
            }
            for _ in 0..r.below(3) {
                b.push(0);
            }
        }
        0xb => {
            named(r, &mut b);
            let v = match r.below(6) {
                0 => r.below(12) as u64,
                1 => r.next(),
                _ => b.len() as u64,
            };
            set_bits(&mut b, 4, 20, 12, v)
        }
        0xd => {
            b[5] = match r.below(4) {
                0 => r.byte(),
                1 => ((size - 8) * 8) as u8,
                2 => ((size - 8) * 8).saturating_sub(r.below(9)) as u8,
                _ => r.pick(&[0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 224, 255]),
            }
        }
        0x15 | 0x24 => {
            let n = match r.below(12) {
                0 => 0,
                1 => 7,
                _ => r.range(1, 6),
            };
            let mut t = vec![0u8; 8 * n.max(1)];
            fill(r, &mut t);
            b.extend(t);
            set_bits(&mut b, 8, 5, 3, n as u64);
        }
        0x16 => {
            let v = match r.below(4) {
                0 => r.next(),
                1 => 31,
                _ => (size - 0x11) as u64,
            };
            set_bits(&mut b, 4, 0, 5, v)
        }
        0x17 => {
            let v = match r.below(6) {
                0 => r.next(),
                1 => r.pick(&[62, 63, 64, 65]),
                _ => ((size - 0x0c) / 2).saturating_sub(1) as u64,
            };
            set_bits(&mut b, 6, 0, 11, v);
            if r.chance(75) {
                set_bits(&mut b, 5, 1, 2, 1);
            }
        }
        0x1a => {
            let v = match r.below(5) {
                0 => r.next(),
                1 => 63,
                _ => ((size - 0x10) / 4) as u64,
            };
            set_bits(&mut b, 4, 0, 6, v)
        }
        0x1d => {
            let v = r.chance(80) as u64;
            set_bits(&mut b, 4, 5, 1, v);
            let v = if r.chance(70) { r.pick(&[4u64, 5, 6, 7, 8, 9]) } else { r.next() };
            set_bits(&mut b, 5, 0, 4, v);
        }
        0x23 => {
            named(r, &mut b);
            if r.chance(60) {
                b[4] = 0x98;
                b[5] = 0x1e;
                b[8] = if r.chance(60) { 0 } else { r.below(12) as u8 };
                if b.len() > 9 {
                    b[9] = if r.chance(90) { 0 } else { r.byte() };
                }
            }
            let v = match r.below(6) {
                0 => r.below(16) as u64,
                1 => r.next(),
                _ => b.len() as u64,
            };
            set_bits(&mut b, 4, 20, 12, v);
        }
        _ => {}
    }
    b
}

fn header(r: &mut Rng, img: &mut [u8]) {
    fill(r, &mut img[..0x40]);
    if r.chance(80) {
        for c in img[..0x40].chunks_mut(8) {
            if r.chance(50) {
                c.copy_from_slice(&r.next().to_le_bytes());
            }
        }
    }
    if r.chance(15) {
        season(r, &mut img[..0x40]);
    }
    let t = match r.below(20) {
        0..=8 => 0u8,
        9..=13 => 1,
        14..=17 => 2,
        _ => r.byte() & 0x7f,
    };
    img[0x0e] = t | (r.byte() & 0x80);
    if r.chance(20) {
        let d = r.pick(&[0x1000u16, 0x1041, 0x107f, 0x1080, 0x0fff, 0x1001]);
        img[..4].copy_from_slice(&[0xf4, 0x1a, d as u8, (d >> 8) as u8]);
        if r.chance(25) {
            let v = r.pick(&crate::words::all().0) as u16;
            img[..2].copy_from_slice(&v.wrapping_add(r.pick(&[0, 0, 0, 1, 0xffff])).to_le_bytes());
        }
        if r.chance(25) {
            let v = r.pick(&crate::words::all().0) as u16;
            img[2..4].copy_from_slice(&v.wrapping_add(r.pick(&[0, 0, 0, 1, 0xffff])).to_le_bytes());
        }
    }
    if r.chance(40) {
        let n = crate::classes::named();
        let c = r.pick(&n);
        img[9..12].copy_from_slice(&c);
    }
    // base addresses
    let n = match t { 0 => 6, 1 => 2, _ => 1 };
    if r.chance(85) {
        for i in 0..n {
            let v = bar(r);
            img[0x10 + 4 * i..0x14 + 4 * i].copy_from_slice(&v.to_le_bytes());
        }
    }
    if t == 1 && r.chance(80) {
        let (a, b) = r.pick(&[(0u8, 0u8), (1, 1), (1, 1), (0, 1), (1, 0), (2, 2), (15, 15), (3, 5)]);
        img[0x1c] = img[0x1c] & 0xf0 | a;
        img[0x1d] = img[0x1d] & 0xf0 | b;
        if r.chance(20) {
            img[0x1c] &= 0x0f;
            img[0x1d] &= 0x0f;
        }
        let (a, b) = r.pick(&[(0u8, 0u8), (1, 1), (1, 1), (0, 1), (1, 0), (2, 2), (15, 15), (3, 5)]);
        img[0x24] = img[0x24] & 0xf0 | a;
        img[0x26] = img[0x26] & 0xf0 | b;
        if r.chance(20) {
            for i in [0x24, 0x26] {
                img[i] &= 0x0f;
                img[i + 1] = 0;
            }
        }
    }
    if t == 2 {
        for at in [0x2c, 0x34] {
            img[at] = img[at] & !3 | r.pick(&[0, 0, 1, 1, 2, 3]);
        }
    }
    if r.chance(50) {
        img[0x3d] = r.below(7) as u8;
    }
}

fn bar(r: &mut Rng) -> u32 {
    let v = match r.below(4) {
        0 if r.chance(30) => r.pick(&crate::words::all().0) as u32,
        0 => r.pick(&[0u32, 0xffff_fff0, 0x10, 0x8000_0000]),
        _ => r.next() as u32,
    };
    match r.below(8) {
        0 => 0,
        1 => v & !3 | 1,
        2 => v & !15 | 4,
        3 => v & !15 | 12,
        4 => v & !15 | r.pick(&[0, 8]),
        5 => v & !15 | r.pick(&[2, 10]),
        6 => v & !15 | r.pick(&[6, 14]),
        _ => v,
    }
}

fn cap_ptr_at(img: &[u8]) -> usize {
    if img[0x0e] & 0x7f == 2 { 0x14 } else { 0x34 }
}

/// Places for entries of the given sizes in `lo..hi`.
fn places(r: &mut Rng, sizes: &[usize], lo: usize, hi: usize, first_at_lo: bool) -> Vec<usize> {
    let mut v = Vec::new();
    match r.below(10) {
        0 | 1 => {
            // anywhere, overlapping
            for _ in sizes {
                v.push(lo + 4 * r.below((hi - lo) / 4));
            }
        }
        2 | 3 => {
            // the last one against the end of the region
            let mut at = lo;
            for (i, s) in sizes.iter().enumerate() {
                if i + 1 == sizes.len() {
                    let d = r.pick(&[0usize, 0, 4, 8, 12, 16, 24]);
                    v.push((hi + d).saturating_sub((s + 3) & !3).clamp(lo, hi - 4));
                } else if at + s <= hi {
                    v.push(at);
                    at += (s + 3) & !3;
                } else {
                    v.push(lo + 4 * r.below((hi - lo) / 4));
                }
            }
        }
        _ => {
            let mut at = lo;
            for s in sizes {
                if at + s <= hi {
                    v.push(at);
                    at += ((s + 3) & !3) + if r.chance(25) { 4 * r.below(6) } else { 0 };
                } else {
                    v.push(lo + 4 * r.below((hi - lo) / 4));
                }
            }
        }
    }
    if first_at_lo {
        if let Some(x) = v.first_mut() {
            *x = lo
        }
    } else {
        r.shuffle(&mut v);
    }
    v
}

/// A device: its register file, and where the entries of its lists sit.
pub struct Made {
    pub img: DevImg,
    pub std: Vec<usize>,
    pub ext: Vec<usize>,
}

const REAL: [&[u8]; 2] = [include_bytes!("../data/8086_2030"), include_bytes!("../data/8086_9dc8")];

pub fn device(r: &mut Rng, p: &Profile) -> Made {
    let mut img = vec![0u8; 4096];
    if r.chance(2) {
        let src = r.pick(&REAL);
        img[..src.len()].copy_from_slice(src);
        let ext = src.len() > 256;
        let w = crate::walk::std_walk(&img, img[0x34], &crate::walk::Ctx { bridge: img[0xe] & 0x7f == 1, ids: (0, 0) }, 256);
        let e = crate::walk::ext_walk(&img);
        return Made { img: DevImg { ext, bytes: img }, std: w.places, ext: e.places };
    }
    let ext = p.ext_list || r.chance(30);
    if r.chance(40) {
        fill(r, &mut img[0x40..0x100]);
    }
    if ext && r.chance(25) {
        fill(r, &mut img[0x100..]);
    }
    header(r, &mut img);
    let bridge = img[0x0e] & 0x7f == 1;
    let mut std = vec![];
    let mut exts = vec![];
    if p.std_list {
        if r.chance(2) {
            // every place of the region is an entry
            let n = if r.chance(70) { 48 } else { r.range(40, 48) };
            let mut v: Vec<usize> = (0..48).map(|i| 0x40 + 4 * i).collect();
            r.shuffle(&mut v);
            v.truncate(n);
            for at in &v {
                img[*at] = r.pick(&[0u8, 6, 11, 12, 0x20, 4, 10]);
            }
            std = v;
        } else {
            let k = match r.below(10) {
                0 => 0,
                1..=3 => 1,
                4..=7 => r.range(2, 5),
                _ => r.range(5, 12),
            };
            let ids = if p.std_ids.is_empty() { STD_IDS } else { p.std_ids };
            let caps: Vec<Vec<u8>> = (0..k)
                .map(|_| {
                    let id = if r.chance(4) { r.byte() } else { r.pick(ids) };
                    std_cap(r, id, bridge)
                })
                .collect();
            let sizes: Vec<usize> = caps.iter().map(|c| c.len()).collect();
            std = places(r, &sizes, 0x40, 0x100, false);
            for (c, at) in caps.iter().zip(&std) {
                let n = c.len().min(0x100 - at);
                img[*at..at + n].copy_from_slice(&c[..n]);
            }
            for (c, at) in caps.iter().zip(&std) {
                img[*at] = c[0];
            }
        }
        let low = |r: &mut Rng| if r.chance(10) { r.byte() & 3 } else { 0 };
        let pa = cap_ptr_at(&img);
        let x = low(r);
        img[pa] = std.first().map_or(0, |v| *v as u8) | x;
        for i in 0..std.len() {
            let x = low(r);
            img[std[i] + 1] = std.get(i + 1).map_or(0, |v| *v as u8) | x;
        }
    }
    if ext && p.ext_list {
        if r.chance(1) {
            let n = if r.chance(70) { 960 } else { r.range(900, 960) };
            let mut v: Vec<usize> = (1..960).map(|i| 0x100 + 4 * i).collect();
            r.shuffle(&mut v);
            v.insert(0, 0x100);
            v.truncate(n);
            for at in &v {
                img[*at] = r.pick(&[0x11u8, 0x14, 0x25, 0x26, 0x27, 0x28, 0x2c, 0x2d, 0x40]);
                img[at + 1] = 0;
            }
            exts = v;
        } else {
            let k = match r.below(10) {
                0 => 0,
                1..=3 => 1,
                4..=7 => r.range(2, 5),
                _ => r.range(5, 14),
            };
            let ids = if p.ext_ids.is_empty() { EXT_IDS } else { p.ext_ids };
            let caps: Vec<(u16, Vec<u8>)> = (0..k)
                .map(|_| {
                    let id = if r.chance(4) { r.pick(&[0u16, 0x2d, 0x2e, 0x34, 0x35, 0xff, 0x100, 0x101, 0x1001, 0xffff]) } else { r.pick(ids) };
                    (id, ext_cap(r, id))
                })
                .collect();
            let sizes: Vec<usize> = caps.iter().map(|c| c.1.len()).collect();
            exts = places(r, &sizes, 0x100, 0x1000, true);
            for ((_, c), at) in caps.iter().zip(&exts) {
                let n = c.len().min(0x1000 - at);
                img[*at..at + n].copy_from_slice(&c[..n]);
            }
            for ((id, _), at) in caps.iter().zip(&exts) {
                img[*at..at + 2].copy_from_slice(&id.to_le_bytes());
            }
        }
        for i in 0..exts.len() {
            let nx = exts.get(i + 1).copied().unwrap_or(0) as u16 | if r.chance(10) { (r.byte() & 3) as u16 } else { 0 };
            let ver = if r.chance(50) { r.range(1, 3) as u8 } else { r.byte() & 15 };
            img[exts[i] + 2] = ver | (nx << 4) as u8;
            img[exts[i] + 3] = (nx >> 4) as u8;
        }
    }
    Made { img: DevImg { ext, bytes: img }, std, ext: exts }
}

fn link_damage(r: &mut Rng, d: u8, m: &Made) -> Ev {
    let std = !m.std.is_empty() && (m.ext.is_empty() || r.chance(50));
    if std {
        let e = r.pick(&m.std);
        let to = match r.below(8) {
            0 => e as u8,
            1 | 2 => r.pick(&m.std) as u8,
            3 => r.below(0x40) as u8,
            4 => r.byte(),
            5 => r.pick(&[0xfc, 0xfd, 0xfe, 0xff, 0x40, 0x3f, 0x3c, 0x41]),
            6 => (r.pick(&m.std) as u8) | r.below(4) as u8,
            _ => 0,
        };
        let at = if r.chance(20) { cap_ptr_at(&m.img.bytes) } else { e + 1 };
        if r.chance(15) {
            return Ev::Corrupt { dev: d, off: e as u16, bytes: vec![r.byte()] };
        }
        Ev::Corrupt { dev: d, off: at as u16, bytes: vec![to] }
    } else if !m.ext.is_empty() {
        let e = r.pick(&m.ext);
        let to = match r.below(8) {
            0 => e as u16,
            1 | 2 => r.pick(&m.ext) as u16,
            3 => r.below(0x100) as u16,
            4 => r.next() as u16 & 0xfff,
            5 => r.pick(&[0xffc, 0xffd, 0xffe, 0xfff, 0x100, 0xff, 0xfc, 0x101]),
            6 => (r.pick(&m.ext) as u16) | r.below(4) as u16,
            _ => 0,
        };
        if r.chance(15) {
            let v = if r.chance(30) { vec![0, 0, 0, 0] } else { vec![r.byte(), 0] };
            return Ev::Corrupt { dev: d, off: e as u16, bytes: v };
        }
        let low = m.img.bytes[e + 2] & 15;
        Ev::Corrupt { dev: d, off: e as u16 + 2, bytes: vec![low | (to << 4) as u8, (to >> 4) as u8] }
    } else {
        Ev::Corrupt { dev: d, off: r.below(0x40) as u16, bytes: vec![r.byte()] }
    }
}

fn some_write(r: &mut Rng, d: u8, m: &Made) -> Ev {
    let n = r.pick(&[1usize, 2, 4, 4, 8]);
    let mut v = vec![0u8; n];
    fill(r, &mut v);
    let base = match r.below(4) {
        0 => r.below(0x40),
        1 if !m.std.is_empty() => r.pick(&m.std) + 2 + r.below(0x20),
        _ if !m.ext.is_empty() => r.pick(&m.ext) + 4 + r.below(0x40),
        _ => r.below(0x100),
    };
    Ev::Write { dev: d, off: base.min(4095) as u16, bytes: v }
}

/// Interesting capture lengths: around the entries of the device.
fn cut_at(r: &mut Rng, m: &Made) -> usize {
    match r.below(8) {
        0 => r.below(0x48),
        1 | 2 | 3 if !m.std.is_empty() => r.pick(&m.std) + r.below(0x30),
        4 | 5 | 6 if !m.ext.is_empty() => r.pick(&m.ext) + r.below(0x60),
        7 => r.pick(&[0, 63, 64, 65, 66, 67, 68, 127, 128, 192, 255, 256, 257, 258, 259, 260, 4095, 4096]),
        _ => r.below(4097),
    }
}

fn capture(r: &mut Rng, p: &Profile, d: u8, m: &Made, clean: bool, evs: &mut Vec<(u32, Ev)>) {
    let full = if m.img.ext { 4096usize } else { 256 };
    let mut size = if r.chance(90) { full } else { r.pick(&[64usize, 128, 256, full]).min(full) };
    if r.chance(p.cut) && !clean {
        size = cut_at(r, m).min(full);
    }
    let col = d;
    evs.push((r.range(1, 500) as u32, Ev::Begin { col, dev: d, size: size as u16 }));
    let chunks = if clean || r.chance(60) { 1 } else { r.range(2, 8) };
    let mut left = size;
    for i in 0..chunks {
        let len = if i + 1 == chunks { left } else { (left / (chunks - i)).max(1) & !3 };
        let fault = if clean || !r.chance(35) {
            Fault::None
        } else {
            match r.below(9) {
                0 => Fault::Short(r.below(len + 1) as u16),
                1 => Fault::Ones,
                2 => Fault::Zeros,
                3 | 4 => Fault::Flip(r.below(len.max(1) * 8) as u32),
                5 => Fault::Stale,
                6 => Fault::Misdirect(r.below(4096) as u16 & !3),
                7 => Fault::Interrupted,
                _ => Fault::Abort,
            }
        };
        if fault == Fault::Interrupted {
            evs.push((r.range(1, 50) as u32, Ev::Read { col, len: len as u16, fault }));
            evs.push((r.range(1, 50) as u32, Ev::Read { col, len: len as u16, fault: Fault::None }));
        } else {
            evs.push((r.range(1, 50) as u32, Ev::Read { col, len: len as u16, fault }));
        }
        left = left.saturating_sub(len);
        if !clean && i + 1 < chunks {
            // the device keeps running while it is read
            if r.chance(30) {
                let e = some_write(r, d, m);
                evs.push((r.range(1, 20) as u32, e));
            }
            if r.chance(8) {
                evs.push((1, Ev::Unplug { dev: d }));
            }
        }
    }
    let store = if clean || !r.chance(25) {
        Store::Ok
    } else {
        match r.below(5) {
            0 => Store::LostTail(r.below(size + 1) as u16),
            1 => Store::TornSector(r.below(size / 64 + 1) as u8),
            2 => Store::ZeroTail(r.below(size + 1) as u16),
            3 => Store::Twice,
            _ => Store::OldSector(r.below(size / 64 + 1) as u8),
        }
    };
    evs.push((r.range(1, 100) as u32, Ev::Finish { col, store }));
    if r.chance(50) {
        evs.push((1, Ev::Plug { dev: d }));
    }
}

/// The scheduler: which of the parties goes next.
fn merge(r: &mut Rng, streams: Vec<Vec<(u32, Ev)>>, out: &mut Vec<(u32, Ev)>) {
    let mut its: Vec<_> = streams.into_iter().filter(|s| !s.is_empty()).map(|s| s.into_iter().peekable()).collect();
    while !its.is_empty() {
        let k = r.below(its.len());
        // a party that is scheduled may get several turns in a row
        for _ in 0..r.range(1, 4) {
            if let Some(e) = its[k].next() {
                out.push(e);
            }
        }
        if its[k].peek().is_none() {
            drop(its.remove(k));
        }
    }
}

/// The plain ways of consuming an iterator, which a library may implement itself, are the likelier.
fn way(r: &mut Rng) -> u8 {
    if r.chance(60) { r.below(13) as u8 } else { r.below(crate::handles::WAYS as usize) as u8 }
}

/// What readers holding iterators do with them.
fn handle_ops(r: &mut Rng, p: &Profile, caps: usize, twins: usize) -> Vec<(u32, Ev)> {
    let slots = r.range(1, 6);
    let total = r.range(p.handles / 3, p.handles);
    let mut evs = vec![];
    while evs.len() < total {
        if twins > 0 && r.chance(12) {
            // the same handle over captures that differ in a few bits, advanced side by side
            let (a, b) = (r.below(8) as u8, r.below(8) as u8);
            let (what, sel) = (r.pick(&[0, 1, 2, 3, 3, 3, 3, 3, 3, 3]), r.byte());
            let (x, y) = (r.below(twins + 1) as u8, r.below(twins + 1) as u8);
            evs.push((r.range(1, 10) as u32, Ev::Open { h: a, snap: x, what, sel }));
            evs.push((r.range(1, 10) as u32, Ev::Open { h: b, snap: y, what, sel }));
            for _ in 0..r.pick(&[2usize, 4, 8, 16, 40]) {
                if r.chance(70) {
                    evs.push((1, Ev::Cmp { a, b }));
                }
                let uneven = r.chance(12);
                if !uneven || r.chance(50) {
                    evs.push((r.range(1, 10) as u32, Ev::Step { h: a }));
                }
                if !uneven || r.chance(50) {
                    evs.push((r.range(1, 10) as u32, Ev::Step { h: b }));
                }
            }
            evs.push((1, Ev::Cmp { a, b }));
            continue;
        }
        let h = r.below(slots) as u8;
        let ev = match r.below(26) {
            0..=2 => Ev::Open { h, snap: r.below(caps) as u8, what: r.pick(&[0, 0, 1, 1, 2, 3, 3, 3, 3]), sel: r.byte() },
            3..=13 => Ev::Step { h },
            14 => Ev::Nth { h, k: r.pick(&[0, 1, 2, 3, 3, 5, 8, 17, 40, 200]) },
            15..=17 => Ev::Dup { h, into: r.below(slots) as u8 },
            18..=20 => Ev::Cmp { a: h, b: r.below(slots) as u8 },
            21 | 24 | 25 => Ev::Drain { h, how: way(r) },
            22 | 23 if r.chance(50) => Ev::Near { h, left: r.pick(&[0, 1, 1, 2, 3]) },
            22 => Ev::Drop { h },
            _ if r.chance(20) => Ev::Restart,
            _ => Ev::Step { h },
        };
        let near = matches!(ev, Ev::Near { .. });
        evs.push((r.range(1, 10) as u32, ev));
        if near && r.chance(75) {
            let next = match r.below(8) {
                0 => Ev::Nth { h, k: r.below(4) as u8 },
                1 => Ev::Dup { h, into: r.below(slots) as u8 },
                2 => Ev::Step { h },
                _ => Ev::Drain { h, how: way(r) },
            };
            evs.push((r.range(1, 10) as u32, next));
        }
    }
    evs
}

/// A copy of a capture with a bit or a few changed, mostly in entries with tables.
fn twin(r: &mut Rng, m: &Made, snap: u8) -> Ev {
    if !m.ext.is_empty() && r.chance(8) {
        let len = r.pick(&m.ext) + r.below(30) * 4 + r.pick(&[0, 0, 0, 1, 2, 3]);
        return Ev::Cut { snap, len: len.clamp(64, 4096) as u16 };
    }
    let (off, bytes) = tweak(r, m);
    Ev::Damage { snap, off: off as u16, bytes }
}

fn tweak(r: &mut Rng, m: &Made) -> (usize, Vec<u8>) {
    let b = &m.img.bytes;
    let byte = |at: usize| b.get(at).copied().unwrap_or(0);
    let id = |at: usize| byte(at) as u16 | (byte(at + 1) as u16) << 8;
    let tables: Vec<usize> =
        m.ext.iter().copied().filter(|at| [2, 5, 8, 9, 0xd, 0x10, 0x15, 0x19, 0x1a, 0x24].contains(&id(*at))).collect();
    let table = if tables.is_empty() { None } else { Some(r.pick(&tables)) };
    match (r.below(14), table) {
        // base address registers change places
        (0, t) => {
            let at = match t {
                Some(t) if id(t) == 0x10 => t + 0x24,
                _ => 0x10,
            };
            let (i, j) = (r.below(6), r.below(6));
            let mut v: Vec<u8> = (0..24).map(|k| byte(at + k)).collect();
            for k in 0..4 {
                v.swap(4 * i + k, 4 * j + k);
            }
            if at + 24 <= 4096 {
                return (at, v);
            }
        }
        // elements of a table change places
        (1, Some(t)) => {
            let w = r.pick(&[1usize, 2, 4, 8, 16]);
            let at = t + 4 + 4 * r.below(8);
            let n = r.range(1, 4);
            let v: Vec<u8> = (0..w * (n + 1)).map(|k| byte(at + (k + w * n) % (w * (n + 1)))).collect();
            if at + v.len() <= 4096 {
                return (at, v);
            }
        }
        // a stretch of a table becomes uniform
        (2, Some(t)) => {
            let at = t + 4 + 4 * r.below(16);
            let x = r.pick(&[0u8, 0, 0xff, 0x11, 0x55]);
            let v = vec![x; r.pick(&[4usize, 8, 16, 32, 64, 128])];
            if at + v.len() <= 4096 {
                return (at, v);
            }
        }
        // how a table is to be read changes, its bytes do not
        (3 | 4, Some(t)) => {
            let (at, flip) = match id(t) {
                2 | 8 | 9 => match r.below(4) {
                    0 | 1 => (t + 5, r.pick(&[4u8, 8, 12])),
                    2 => (t + 0x0c, r.pick(&[2u8, 4, 6, 8])),
                    _ => (t + 0x16 + 12 * r.below(3), r.pick(&[2u8, 4, 6, 8])),
                },
                // a few elements more or fewer, or many
                0xd | 5 | 0x1a if r.chance(60) => {
                    let at = if id(t) == 0x1a { t + 4 } else { t + 5 };
                    let n = byte(at);
                    (at, n ^ n.wrapping_add(r.range(0, 16) as u8).wrapping_sub(8))
                }
                0xd => (t + 5, r.pick(&[1u8, 2, 4, 8, 0x10, 0x20, 0x40, 0x80])),
                5 => (t + 5, r.pick(&[1u8, 2, 3, 4])),
                _ => (t + 4 + r.below(4), 1 << r.below(8)),
            };
            if at < 4096 {
                return (at, vec![byte(at) ^ flip]);
            }
        }
        _ => {}
    }
    let at = match (r.below(10), table) {
        (0, _) => 0x10 + r.below(0x18),
        (1 | 3, _) if !m.std.is_empty() => {
            let span = r.pick(&[0x08, 0x10, 0x20]);
            r.pick(&m.std) + 2 + r.below(span)
        }
        (2, _) if !m.ext.is_empty() => r.pick(&m.ext) + r.below(0x20),
        (_, Some(t)) => {
            let span = r.pick(&[0x10, 0x20, 0x60]);
            t + 4 + r.below(span)
        }
        _ => r.below(4096),
    };
    let at = at.min(4095);
    if r.chance(12) {
        // what one byte gains another loses, or the two change places
        let w = r.pick(&[1usize, 2, 4, 4, 8, 12]);
        if at + w < 4096 {
            let mut v: Vec<u8> = (0..=w).map(|k| byte(at + k)).collect();
            let k = r.pick(&[1u8, 1, 2, 4, 0x10, 0x80]);
            match r.below(3) {
                0 => v.swap(0, w),
                1 => (v[0], v[w]) = (v[0] ^ k, v[w] ^ k),
                _ => (v[0], v[w]) = (v[0].wrapping_add(k), v[w].wrapping_sub(k)),
            }
            return (at, v);
        }
    }
    if r.chance(20) {
        return (at, vec![byte(at).wrapping_add(r.pick(&[1, 1, 2, 3, 0xfd, 0xfe, 0xff, 0xff]))]);
    }
    let flip = r.pick(&[1u8, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x0f, 0xf0, 0xff]);
    (at, vec![byte(at) ^ flip])
}

pub fn plan(r: &mut Rng, p: &Profile) -> Plan {
    let clean = r.chance(p.clean);
    let nd = if p.handles > 0 || p.pairs > 0 || p.again > 0 { r.range(1, 2) } else { 1 };
    let made: Vec<Made> = (0..nd).map(|_| device(r, p)).collect();
    let mut evs: Vec<(u32, Ev)> = vec![];
    let caps = r.range(1, p.captures.max(1));
    let twins = if p.handles > 0 || p.again > 0 { r.below(5) } else { 0 };
    // one stream of events per collector; the first capture comes before the rest
    let mut streams: Vec<Vec<(u32, Ev)>> = vec![vec![]; nd];
    for k in 0..caps {
        let d = r.below(nd);
        let first = k == 0;
        let to = &mut streams[d];
        if !clean && r.chance(p.links) && !(first && p.pairs > 0) {
            for _ in 0..r.range(1, 2) {
                let e = link_damage(r, d as u8, &made[d]);
                to.push((r.range(1, 1000) as u32, e));
            }
        }
        if !first {
            for _ in 0..r.below(3) {
                let e = some_write(r, d as u8, &made[d]);
                to.push((r.range(1, 2000) as u32, e));
            }
        }
        // comparisons need an undamaged reading to compare with
        capture(r, p, d as u8, &made[d], clean || (first && p.pairs > 0), to);
        if first {
            evs.append(to);
            if p.handles > 0 || p.again > 0 {
                for k in 0..twins {
                    // some of them are copies of copies
                    let of = if r.chance(40) { r.below(k + 1) } else { 0 };
                    let e = if p.again > 0 && r.chance(8) {
                        // by another vendor
                        let v = r.pick(&[0x1af4u16, 0x1af4, 0x8086, 0x1022, 0xffff]);
                        Ev::Damage { snap: of as u8, off: 0, bytes: v.to_le_bytes().to_vec() }
                    } else if p.again > 0 && r.chance(25) {
                        // a device of the same make with another layout type or a few bits of difference in its header
                        let at = r.pick(&[0x0eusize, 0x0e, 0x0e, 0x06, 0x34, 0x3d, 0x2c, 0x02, 0x03, 0x08, 0x09, 0x0a, 0x0a, 0x0b]);
                        let was = made[d].img.bytes.get(at).copied().unwrap_or(0);
                        let to = match at {
                            0x0e => r.pick(&[0u8, 1, 2, 3, 0x80, 0x81]),
                            8..=0xb if r.chance(70) => was.wrapping_add(r.pick(&[1, 1, 2, 0xfe, 0xff, 0xff])),
                            _ => was ^ 1 << r.below(8),
                        };
                        Ev::Damage { snap: of as u8, off: at as u16, bytes: vec![to] }
                    } else {
                        twin(r, &made[d], of as u8)
                    };
                    evs.push((r.range(1, 10) as u32, e));
                }
            }
        }
    }
    if p.again > 0 {
        let n = r.range(1, p.again);
        streams.push(
            (0..n)
                .map(|_| (r.range(1, 3000) as u32, Ev::Again { snap: r.below(caps + twins) as u8, shift: r.below(17) as u8, thread: r.chance(10) }))
                .collect(),
        );
    }
    if p.handles > 0 {
        streams.push(handle_ops(r, p, caps + twins, twins));
    }
    merge(r, streams, &mut evs);
    // a capture that lost its tail more than once, in the same entry
    let lists: Vec<usize> = made[0].ext.iter().chain(&made[0].std).copied().collect();
    let focus = if lists.is_empty() { 0x40 } else { r.pick(&lists) };
    let mut last_cut = None;
    for k in 0..p.damage {
        let (m, s) = (&made[0], 0u8);
        if p.pairs > 0 && r.chance(20) {
            let len = focus + r.below(30) * 4 + r.pick(&[0, 0, 0, 1, 2, 3]);
            evs.push((r.range(1, 100) as u32, Ev::Cut { snap: s, len: len.clamp(64, 4096) as u16 }));
            let me = caps + k;
            if let Some(last) = last_cut.replace(me) {
                evs.push((1, Ev::Pair { a: last as u8, b: me as u8 }));
            }
            continue;
        }
        if p.pairs > 0 && r.chance(40) {
            let e = twin(r, m, s);
            evs.push((r.range(1, 100) as u32, e));
            continue;
        }
        if p.pairs > 0 && r.chance(8) {
            // the rest of the header is another one: neither layout type nor IDs nor where the list begins
            let (at, n) = r.pick(&[(4usize, 10usize), (4, 10), (8, 4), (0x18, 0x1c), (0x38, 8)]);
            let mut v = vec![0u8; n];
            fill(r, &mut v);
            if r.chance(50) {
                season(r, &mut v);
            }
            evs.push((r.range(1, 100) as u32, Ev::Damage { snap: s, off: at as u16, bytes: v }));
            continue;
        }
        let off = match r.below(6) {
            0 => r.below(0x40),
            1 | 2 if !m.std.is_empty() => r.pick(&m.std) + 2 + r.below(0x24),
            3 | 4 if !m.ext.is_empty() => r.pick(&m.ext) + 4 + r.below(0x40),
            5 if !m.ext.is_empty() => r.pick(&m.ext) + r.below(4),
            _ => r.below(4096),
        };
        let n = r.pick(&[1usize, 1, 2, 4]);
        let mut v = vec![0u8; n];
        fill(r, &mut v);
        evs.push((r.range(1, 100) as u32, Ev::Damage { snap: s, off: off as u16, bytes: v }));
    }
    for _ in 0..p.pairs {
        evs.push((1, Ev::Pair { a: r.below(caps + p.damage) as u8, b: r.below(caps + p.damage) as u8 }));
    }
    for _ in 0..p.relocate {
        evs.push((r.range(1, 5000) as u32, Ev::Relocate { snap: r.below(caps) as u8, entry: r.byte(), to: r.next() as u16 }));
    }
    if p.again > 0 && r.chance(6) {
        evs.push((r.range(1000, 100_000) as u32, Ev::Fresh { order: r.byte() }));
    }
    for _ in 0..p.alone {
        let len = r.pick(&[2usize, 8, 0x10, 0x18, 0x30, 0x48, 0x100]);
        let len = if r.chance(15) { 4096 } else { r.below(len + 1) + r.below(6) };
        evs.push((r.range(1, 5000) as u32, Ev::Alone { snap: r.below(caps) as u8, entry: r.byte(), len: len as u16 }));
    }
    for _ in 0..p.polls.0 {
        let len = r.pick(&[0x18usize, 0x30, 0x40, 0x60, 0x80, 0x100, 0x200, 0x1000]);
        let entry = if r.chance(10) { 0 } else { r.byte() };
        let (snap, seed) = (r.below(caps) as u8, r.next() as u32);
        evs.push((r.range(1, 5000) as u32, Ev::Poll { snap, entry, len: len as u16, seed, from: 0, n: p.polls.1 as u16 }));
    }
    for _ in 0..p.write_back {
        evs.push((r.range(1, 5000) as u32, Ev::WriteBack { snap: r.below(caps) as u8, pick: r.byte() }));
    }
    Plan { wide: r.chance(10), devs: made.into_iter().map(|m| m.img).collect(), evs }
}
