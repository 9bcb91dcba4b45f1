//! What an error of the lists says: where, which structure, what was found.
use crate::obs::{get_bits, Obs};
use crate::walk::{self, Ctx, Out};
use pcics::capabilities::{Capabilities, CapabilityError as S};
use pcics::extended_capabilities::{ExtendedCapabilities, ExtendedCapabilityError as X};
use std::sync::OnceLock;

type Res = Result<(), String>;

fn gb(b: &[u8], off: usize, lo: u32, w: u32) -> u64 {
    get_bits(b, off as u32 * 8 + lo, w).unwrap_or(0)
}
fn same(what: &str, got: u64, want: u64) -> Res {
    if got == want { Ok(()) } else { Err(format!("{} is given as {:#x}, found is {:#x}", what, got, want)) }
}
/// the printed error without its place
fn rest(text: &str) -> &str {
    text.split_once(']').map_or(text, |x| x.1).trim()
}
fn place(text: &str, at: usize) -> Res {
    let hex = format!("{:x}", at);
    if text.to_lowercase().split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.trim_start_matches('0') == hex) {
        Ok(())
    } else {
        Err(format!("\"{}\" does not name the place {:#x}", text, at))
    }
}

/// Per ID: what is printed when only the entry's header was captured, and how many bytes the entry takes at least.
fn short(std: bool) -> &'static Vec<Option<(String, usize)>> {
    static ALL: [OnceLock<Vec<Option<(String, usize)>>>; 2] = [const { OnceLock::new() }; 2];
    ALL[std as usize].get_or_init(|| {
        let ctx = Ctx { bridge: false, ids: (0, 0) };
        let mut h: pcics::Header = [0u8; 64].as_slice().try_into().expect("64 bytes are a header");
        h.capabilities_pointer = 0x40;
        (0..0x40usize)
            .map(|id| {
                let mut b = vec![0u8; 256];
                b[0] = id as u8;
                let (text, outcome): (_, &dyn Fn(usize) -> Out) = if std {
                    let e = Capabilities::new(&b[..2], &h).next()?.err()?;
                    (matches!(e, S::Data { .. }).then(|| e.to_string())?, &|n| walk::std_outcome(&b[..n], &ctx))
                } else {
                    b[2] = 1;
                    let e = ExtendedCapabilities::new(&b[..4]).next()?.err()?;
                    (matches!(e, X::Data { .. }).then(|| e.to_string())?, &|n| walk::ext_outcome(&b[..n]))
                };
                let need = (if std { 2 } else { 4 }..256).find(|n| matches!(outcome(*n), Out::Is(_)))?;
                Some((rest(&text).to_string(), need))
            })
            .collect()
    })
}

/// A structure that was not captured in full is called by its own name, with the size it takes.
fn named(text: &str, id: usize, std: bool) -> Res {
    let all = short(std);
    let Some(Some((own, need))) = all.get(id) else { return Ok(()) };
    let text = rest(text);
    if text != own {
        return Err(format!("a structure with ID {:#x} is called \"{}\", otherwise \"{}\"", id, text, own));
    }
    let name = |t: &str| t.split(" (").next().unwrap_or(t).to_string();
    // the two kinds of virtual channel capability share a name
    let alike = |x: usize| if !std && x == 9 { 2 } else { x };
    for (other, x) in all.iter().enumerate() {
        if alike(other) != alike(id) && x.as_ref().map_or(false, |x| name(&x.0) == name(text)) {
            return Err(format!("structures with ID {:#x} and {:#x} are both called \"{}\"", id, other, text));
        }
    }
    let number: Option<usize> = text.split('(').nth(1).and_then(|t| t.split(' ').next()).and_then(|t| t.parse().ok());
    match number {
        // counted with or without the entry's header
        Some(n) if n != *need && n != need - if std { 2 } else { 4 } => {
            Err(format!("\"{}\": the structure with ID {:#x} takes {} bytes", text, id, need))
        }
        _ => Ok(()),
    }
}

/// `b` begins at the entry and ends with the capture.
pub fn std(e: &S, b: &[u8]) -> Res {
    let text = e.to_string();
    let ptr = match e {
        S::Pointer => return Ok(()),
        S::Header { ptr } => *ptr,
        S::Data { ptr, .. } => {
            named(&text, b[0] as usize, true)?;
            *ptr
        }
        S::VendorSpecific { ptr, source } => {
            use pcics::capabilities::vendor_specific::VendorSpecificError as I;
            if let I::Data { size } = source {
                same("the size of the data", *size as u64, gb(b, 2, 0, 8).saturating_sub(2))?;
            }
            *ptr
        }
        S::PciExpress { ptr, .. }
        | S::Hypertransport { ptr, .. }
        | S::MessageSignaledInterrups { ptr, .. }
        | S::PciX { ptr, .. }
        | S::PciXBridge { ptr, .. }
        | S::EnhancedAllocation { ptr, .. } => *ptr,
    };
    place(&text, ptr as usize)
}

pub fn ext(e: &X, b: &[u8]) -> Res {
    let text = e.to_string();
    let offset = match e {
        X::Offset => return Ok(()),
        X::Header { offset } | X::EmptyHeader { offset } => *offset,
        X::Data { offset, .. } => {
            named(&text, gb(b, 0, 0, 16) as usize, false)?;
            *offset
        }
        X::RootComplexLinkDeclaration { offset, source } => {
            use pcics::extended_capabilities::root_complex_link_declaration::RootComplexLinkDeclarationError as I;
            match source {
                I::NumberOfLinkEntries { element_self_description: d } | I::ReservedSpace { element_self_description: d } | I::LinkEntry1 { element_self_description: d } => {
                    let mut o = Obs::default();
                    crate::regs_ext2::esd(d, b, &mut o);
                    if let Some(d) = o.check(b, |_| true) {
                        return Err(d);
                    }
                }
                I::ElementSelfDescription => {}
            }
            *offset
        }
        X::MultifunctionVirtualChannel { offset, source } => {
            use pcics::extended_capabilities::multifunction_virtual_channel::MultifunctionVirtualChannelError as I;
            if let I::VcArbitrationTableLength { expected, real } = source {
                let phases = crate::regs_ext2::VC_PHASES[gb(b, 0x0c, 1, 3) as usize];
                same("the length of the table", *expected as u64, phases as u64 / 2)?;
                same("what there is of the table", *real as u64, b.len() as u64 - gb(b, 0x0b, 0, 8) * 16)?;
            }
            *offset
        }
        X::ProtocolMultiplexing { offset, source } => {
            use pcics::extended_capabilities::protocol_multiplexing::ProtocolMultiplexingError as I;
            if let I::PmuxProtocolArray { expected, found } = source {
                same("the length of the array", *expected as u64, gb(b, 4, 0, 6) * 4)?;
                same("what there is of the array", *found as u64, b.len() as u64 - 0x10)?;
            }
            *offset
        }
        X::DesignatedVendorSpecificExtendedCapability { offset, source } => {
            use pcics::extended_capabilities::designated_vendor_specific_extended_capability::DesignatedVendorSpecificExtendedCapabilityError as I;
            if let I::VendorSpecificRegisters { dvsec_vendor_id, dvsec_revision, dvsec_length, dvsec_id, real } = source {
                same("the vendor ID", *dvsec_vendor_id as u64, gb(b, 4, 0, 16))?;
                same("the revision", *dvsec_revision as u64, gb(b, 4, 16, 4))?;
                same("the length", *dvsec_length as u64, gb(b, 4, 20, 12))?;
                same("the ID", *dvsec_id as u64, gb(b, 8, 0, 16))?;
                same("what was captured of it", *real as u64, b.len() as u64)?;
            }
            *offset
        }
        X::SingleRootIoVirtualization { offset, .. }
        | X::AdvancedErrorReporting { offset, .. }
        | X::DownstreamPortContainment { offset, .. }
        | X::ResizableBar { offset, .. }
        | X::VfResizableBar { offset, .. }
        | X::DynamicPowerAllocation { offset, .. } => *offset,
    };
    place(&text, offset as usize)
}
