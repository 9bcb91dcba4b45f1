//! Reference decoding of base address registers.
use crate::obs::{get_bits, Obs};
use pcics::header::{BaseAddress, BaseAddressType as T, BaseAddresses};

/// (region, type code, prefetchable, base address)
pub type Win = (usize, &'static str, bool, u64);

pub fn flat(w: &BaseAddress) -> Win {
    let (k, p, a) = match w.base_address_type {
        T::MemorySpace32 { prefetchable, base_address } => ("mem32", prefetchable, base_address as u64),
        T::MemorySpaceBelow1M { prefetchable, base_address } => ("mem1M", prefetchable, base_address as u64),
        T::MemorySpace64 { prefetchable, base_address } => ("mem64", prefetchable, base_address),
        T::MemorySpaceReserved { prefetchable, base_address } => ("mem-reserved", prefetchable, base_address as u64),
        T::MemorySpace64Broken { prefetchable } => ("mem64-cut", prefetchable, 0),
        T::IoSpace { base_address } => ("io", false, base_address as u64),
    };
    (w.region, k, p, a)
}

/// Windows that `n` registers at byte `at` describe.
pub fn windows(b: &[u8], at: usize, n: usize) -> Vec<Win> {
    let reg = |i: usize| get_bits(b, (at + 4 * i) as u32 * 8, 32).unwrap_or(0);
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        let v = reg(i);
        let me = i;
        i += 1;
        if v == 0 {
            continue;
        }
        if v & 1 == 1 {
            out.push((me, "io", false, v & 0xffff_fffc));
            continue;
        }
        let (pf, base) = (v >> 3 & 1 == 1, v & 0xffff_fff0);
        out.push(match v >> 1 & 3 {
            0 => (me, "mem32", pf, base),
            1 => (me, "mem1M", pf, base),
            2 if i < n => {
                i += 1;
                (me, "mem64", pf, reg(me + 1) << 32 | base)
            }
            2 => (me, "mem64-cut", pf, 0),
            _ => (me, "mem-reserved", pf, base),
        });
    }
    out
}

/// Registers that hold exactly the given windows.
pub fn registers(ws: &[Win], n: usize) -> Vec<u32> {
    let mut r = vec![0u32; n];
    for &(i, k, p, a) in ws {
        let pf = (p as u32) << 3;
        match k {
            "io" => r[i] = a as u32 | 1,
            "mem32" => r[i] = a as u32 | pf,
            "mem1M" => r[i] = a as u32 | 2 | pf,
            "mem-reserved" => r[i] = a as u32 | 6 | pf,
            "mem64-cut" => r[i] = 4 | pf,
            _ => {
                r[i] = a as u32 | 4 | pf;
                r[i + 1] = (a >> 32) as u32;
            }
        }
    }
    r
}

pub fn observe<const N: usize>(ba: &BaseAddresses<N>, b: &[u8], at: usize, o: &mut Obs) {
    o.dep(at, 4 * N);
    let want = windows(b, at, N);
    let got = o.drain("base addresses", ba.clone(), N);
    let flat_got: Vec<Win> = got.iter().map(flat).collect();
    o.tab(0);
    o.eq("base addresses", flat_got, want.clone());
    // one that does not end must not be handed to the library's own loops
    if got.len() > N || o.ran_away() {
        return;
    }
    let back: [u32; N] = ba.clone().collect();
    o.wb("base addresses -> registers", back.to_vec(), registers(&want, N));
    let back: [u32; N] = got.iter().collect();
    o.wb("&base addresses -> registers", back.to_vec(), registers(&want, N));
    // windows of another function kind, which may have fewer registers, can be put there as well
    let _: [u32; 1] = got.iter().collect();
    let _: [u32; 2] = got.iter().collect();
    // any selection of the windows goes back to the places it came from
    for k in 0..got.len() {
        let part: Vec<Win> = want.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, w)| *w).collect();
        let back: [u32; N] = got.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, w)| w).collect();
        o.wb("some base addresses -> registers", back.to_vec(), registers(&part, N));
    }
    o.reg();
    let orig = ba.orig();
    for (i, v) in orig.iter().enumerate() {
        o.quiet("base address registers", at + 4 * i, 0, 32, *v as u64);
    }
}
