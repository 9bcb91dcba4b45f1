//! One structure read again and again while its registers change: what each reading holds, compared with the first.
use crate::gen::{fill, Rng};
use crate::obs::{digest, Obs};
use pcics::capabilities::CapabilityKind as K;
use pcics::extended_capabilities::ExtendedCapabilityKind as E;
use pcics::header::BaseAddress;

/// Bits of `b` that some value of the structure was taken from, from byte `skip` on.
pub fn bits(o: &Obs, skip: usize, len: usize) -> Vec<u32> {
    let mut hot = vec![];
    o.touched(&mut hot, len);
    let mut held = vec![false; len * 8];
    for f in &o.flds {
        for i in f.bit..f.bit + f.width {
            if let Some(x) = held.get_mut(i as usize) {
                *x = true
            }
        }
    }
    // bytes that matter without a field of their own: all of their bits
    for i in 0..len {
        if hot[i] && !held[8 * i..8 * i + 8].contains(&true) {
            held[8 * i..8 * i + 8].fill(true);
        }
    }
    (skip as u32 * 8..len as u32 * 8).filter(|i| held[*i as usize]).collect()
}

/// The registers as one reading finds them.
pub fn change(r: &mut Rng, b: &mut [u8], bits: &[u32]) {
    if bits.is_empty() {
        return;
    }
    let flip = |b: &mut [u8], i: u32| b[i as usize / 8] ^= 1 << (i % 8);
    let first = r.pick(bits);
    let dword = |i: u32| i / 32;
    // the bits of the same register
    let lo = bits.partition_point(|i| dword(*i) < dword(first));
    let hi = bits.partition_point(|i| dword(*i) <= dword(first));
    let near = &bits[lo..hi];
    let at = dword(first) as usize * 4;
    match r.below(20) {
        0..=3 => flip(b, first),
        4..=9 => {
            let second = r.pick(near);
            flip(b, first);
            if second != first {
                flip(b, second);
            }
        }
        10 | 11 => {
            let second = r.pick(bits);
            flip(b, first);
            if second != first {
                flip(b, second);
            }
        }
        12 | 13 => {
            for _ in 0..3 {
                flip(b, r.pick(near));
            }
        }
        14 => {
            // the same bit of another register
            flip(b, first);
            let second = r.pick(bits) / 8 * 8 + first % 8;
            if second != first {
                flip(b, second);
            }
        }
        15 => {
            let second = r.pick(near) as usize / 8;
            b.swap(first as usize / 8, second);
        }
        16 => {
            let second = dword(r.pick(bits)) as usize * 4;
            for i in 0..4 {
                if at.max(second) + i < b.len() {
                    b.swap(at + i, second + i);
                }
            }
        }
        17 => {
            // one more here, one less there
            let among = if r.chance(60) { near } else { bits };
            let second = r.pick(among) as usize / 8;
            let first = first as usize / 8;
            b[first] = b[first].wrapping_add(1);
            b[second] = b[second].wrapping_sub(1);
        }
        18 => {
            let e = (at + 4).min(b.len());
            fill(r, &mut b[at..e]);
        }
        _ => {
            let v = r.pick(&[0u8, 0xff, b[first as usize / 8].wrapping_add(1), b[first as usize / 8].swap_bytes().reverse_bits()]);
            b[first as usize / 8] = v;
        }
    }
}

/// The registers after the driver, or the device itself, has programmed them: another setting of a structure of this kind.
pub fn program(r: &mut Rng, b: &mut Vec<u8>, bits: &[u32], list: bool, bridge: bool) {
    let head = if list { 2 } else { 4 };
    match r.below(20) {
        0..=8 => {
            let (id, was) = ((b[0], b[1]), b[..head].to_vec());
            let mut v = if list { crate::gen::std_cap(r, id.0, bridge) } else { crate::gen::ext_cap(r, u16::from_le_bytes([id.0, id.1])) };
            // what lies behind it stays, or not
            let room = r.chance(75) as usize * b.len();
            let keep = v.len().min(b.len().max(0x40));
            v.truncate(keep);
            if v.len() < room {
                v.extend_from_slice(&b[v.len()..]);
            }
            if v.len() >= head {
                v[..head].copy_from_slice(&was);
                *b = v;
            }
        }
        9..=14 if !bits.is_empty() => {
            for _ in 0..r.range(1, 4) {
                change(r, b, bits);
            }
        }
        15 | 16 => crate::gen::season(r, &mut b[head..]),
        _ => {
            let skip = if r.chance(60) { head } else { r.range(head, b.len()) };
            fill(r, &mut b[skip..]);
        }
    }
}

/// Elements of two tables that compare equal report the same; the opposite of `==` is `!=`.
fn elements<T: PartialEq>(name: &str, a: Vec<T>, b: Vec<T>, show: impl Fn(&T) -> u64) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let e = x == y;
        if e != (y == x) {
            return Some(format!("a == b differs from b == a for elements {} of {}", i, name));
        }
        if e == (x != y) {
            return Some(format!("a != b is not the opposite of a == b for elements {} of {}", i, name));
        }
        if e && show(x) != show(y) {
            return Some(format!("elements {} of {} compare equal, but do not report the same", i, name));
        }
    }
    // neighbours, too
    for (i, w) in a.windows(2).enumerate() {
        if w[0] == w[1] && show(&w[0]) != show(&w[1]) {
            return Some(format!("elements {} and {} of {} compare equal, but do not report the same", i, i + 1, name));
        }
    }
    None
}
/// Tables that compare equal hold the same elements.
fn table<I: Iterator + Clone + PartialEq>(name: &str, a: &I, b: &I, max: usize, show: impl Fn(&I::Item) -> u64) -> Option<String> {
    let e = a == b;
    if e != (b == a) {
        return Some(format!("a == b differs from b == a for two {}", name));
    }
    if e == (a != b) {
        return Some(format!("a != b is not the opposite of a == b for two {}", name));
    }
    if e {
        let v: Vec<u64> = a.clone().take(max).map(|x| show(&x)).collect();
        let w: Vec<u64> = b.clone().take(max).map(|x| show(&x)).collect();
        if v != w {
            return Some(format!("two {} compare equal, but do not hold the same", name));
        }
    }
    None
}
fn windows(a: impl Iterator<Item = BaseAddress>, b: impl Iterator<Item = BaseAddress>) -> Option<String> {
    elements("base addresses", a.take(6).collect(), b.take(6).collect(), |x| digest(&crate::bars::flat(x)))
}

/// Registers are values of their own, too.
macro_rules! own {
    ($x:ident, $y:ident, $($f:ident),*) => {
        None$(.or_else(|| elements(stringify!($f), vec![&$x.$f], vec![&$y.$f], digest)))*
    };
}

pub fn std_parts(a: &K<'_>, b: &K<'_>) -> Option<String> {
    match (a, b) {
        (K::EnhancedAllocation(x), K::EnhancedAllocation(y)) => {
            table("allocation entries", &x.entries, &y.entries, 64, digest)
                .or_else(|| elements("allocation entries", x.entries.clone().take(64).collect(), y.entries.clone().take(64).collect(), digest))
        }
        _ => None,
    }
}

pub fn ext_parts(a: &E<'_>, b: &E<'_>) -> Option<String> {
    match (a, b) {
        (E::VirtualChannel(x), E::VirtualChannel(y)) | (E::VirtualChannelMfvcPresent(x), E::VirtualChannelMfvcPresent(y)) => {
            if let Some(d) = own!(x, y, port_vc_capability_1, port_vc_capability_2, port_vc_control, port_vc_status) {
                return Some(d);
            }
            let v: Vec<_> = x.extended_virtual_channels().take(9).flatten().collect();
            let w: Vec<_> = y.extended_virtual_channels().take(9).flatten().collect();
            table("VC arbitration tables", &x.vc_arbitration_table(), &y.vc_arbitration_table(), 128, digest)
                .or_else(|| {
                    v.iter().zip(&w).find_map(|(p, q)| {
                        table("port arbitration tables", &x.port_arbitration_table(p), &y.port_arbitration_table(q), 256, digest)
                    })
                })
                .or_else(|| elements("virtual channels", v, w, digest))
        }
        (E::MultifunctionVirtualChannel(x), E::MultifunctionVirtualChannel(y)) => {
            if let Some(d) = own!(x, y, port_vc_capability_1, port_vc_capability_2, port_vc_control, port_vc_status) {
                return Some(d);
            }
            let v: Vec<_> = x.extended_virtual_channels.clone().take(9).collect();
            let w: Vec<_> = y.extended_virtual_channels.clone().take(9).collect();
            v.iter()
                .zip(&w)
                .find_map(|(p, q)| {
                    let (p, q) = (p.function_arbitration_table.as_ref()?, q.function_arbitration_table.as_ref()?);
                    table("function arbitration tables", p, q, 256, digest)
                })
                .or_else(|| {
                    let (p, q) = (x.vc_arbitration_table.as_ref()?, y.vc_arbitration_table.as_ref()?);
                    table("VC arbitration tables", p, q, 128, digest)
                })
                .or_else(|| {
                    elements("virtual channels", v, w, |e| {
                        let t: Option<Vec<u64>> = e.function_arbitration_table.as_ref().map(|t| t.clone().take(256).map(|p| digest(&p)).collect());
                        digest(&(&e.vc_resource_capability, &e.vc_resource_control, &e.vc_resource_status, t))
                    })
                })
        }
        (E::ResizableBar(x), E::ResizableBar(y)) | (E::VfResizableBar(x), E::VfResizableBar(y)) => {
            elements("resizable BARs", x.clone().take(7).collect(), y.clone().take(7).collect(), digest)
        }
        (E::AccessControlServices(x), E::AccessControlServices(y)) => {
            own!(x, y, acs_capability, acs_control).or_else(|| table("egress control vectors", &x.egress_control_vectors(), &y.egress_control_vectors(), 257, digest))
        }
        (E::ProtocolMultiplexing(x), E::ProtocolMultiplexing(y)) => {
            table("protocols", &x.pmux_protocol_array, &y.pmux_protocol_array, 64, digest)
                .or_else(|| elements("protocols", x.pmux_protocol_array.clone().take(64).collect(), y.pmux_protocol_array.clone().take(64).collect(), digest))
        }
        (E::RootComplexLinkDeclaration(x), E::RootComplexLinkDeclaration(y)) => {
            table("link entries", &x.link_entries, &y.link_entries, 256, digest)
                .or_else(|| elements("link entries", x.link_entries.clone().take(256).collect(), y.link_entries.clone().take(256).collect(), digest))
        }
        (E::SingleRootIoVirtualization(x), E::SingleRootIoVirtualization(y)) => {
            windows(x.base_addresses.clone(), y.base_addresses.clone())
        }
        (E::SecondaryPciExpress(x), E::SecondaryPciExpress(y)) => {
            use pcics::capabilities::pci_express::LinkWidth as W;
            own!(x, y, link_control_3, lane_error_status).or_else(|| elements(
                "lanes",
                x.equalization_control_lanes(W::X32).take(33).collect(),
                y.equalization_control_lanes(W::X32).take(33).collect(),
                digest,
            ))
        }
        (E::DownstreamPortContainment(x), E::DownstreamPortContainment(y)) => own!(x, y, dpc_capability, dpc_control, dpc_status),
        (E::AdvancedErrorReporting(x), E::AdvancedErrorReporting(y)) => own!(x, y, uncorrectable_error_status, uncorrectable_error_mask, uncorrectable_error_severity,
            correctable_error_status, correctable_error_mask, advanced_error_capabilities_and_control, header_log),
        _ => None,
    }
}

pub fn header_parts(a: &pcics::header::Header, b: &pcics::header::Header) -> Option<String> {
    use pcics::header::HeaderType as H;
    match (&a.header_type, &b.header_type) {
        (H::Normal(x), H::Normal(y)) => windows(x.base_addresses.clone(), y.base_addresses.clone()),
        (H::Bridge(x), H::Bridge(y)) => windows(x.base_addresses.clone(), y.base_addresses.clone()),
        (H::Cardbus(x), H::Cardbus(y)) => windows(x.base_addresses.clone(), y.base_addresses.clone()),
        _ => None,
    }
}

/// Headers of extended capabilities are values of their own.
pub fn heads(a: u32, b: u32) -> Option<String> {
    use pcics::extended_capabilities::ExtendedCapabilityHeader as H;
    let (x, y) = (H::from(a), H::from(b));
    let parts = |h: &H| (h.extended_capability_id, h.capability_version, h.next_capability_offset);
    if (x == y) != (parts(&x) == parts(&y)) || (y == x) != (x == y) || (x != y) == (x == y) {
        return Some(format!("extended capability headers {:#x} and {:#x} compare as equal: {}", a, b, x == y));
    }
    None
}
