//! Reference walk of the two capability lists, and what each entry of it has to yield.
use crate::obs::{get_bits, Obs};
use crate::regs_ext2::VC_PHASES;
use crate::{regs_ext1 as x1, regs_ext2 as x2, regs_std as st};
use pcics::capabilities::{self as caps, Capability, CapabilityError, CapabilityKind as K};
use pcics::extended_capabilities::{self as ecaps, ExtendedCapability, ExtendedCapabilityError, ExtendedCapabilityKind as E};
use pcics::header::{Header, HeaderType};

fn gb(b: &[u8], off: usize, lo: u32, w: u32) -> u64 {
    get_bits(b, off as u32 * 8 + lo, w).unwrap_or(0)
}

/// as many entries as the regions hold
pub const STD_MAX: usize = 48;
pub const EXT_MAX: usize = 960;

/// What decoding one list entry yields.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    /// a structure of this kind
    Is(&'static str),
    /// a structure of unassigned kind
    Unassigned(u16),
    /// an error of this kind
    Fails(String),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Step {
    /// where in the configuration space (errors about a list pointer carry no place)
    pub at: Option<u16>,
    /// version of an extended capability
    pub version: Option<u8>,
    pub out: Out,
}
impl Step {
    pub fn is_err(&self) -> bool {
        matches!(self.out, Out::Fails(_))
    }
    pub fn name(&self) -> String {
        match &self.out {
            Out::Is(s) => s.to_string(),
            Out::Unassigned(_) => "unassigned".into(),
            Out::Fails(s) => format!("!{}", s),
        }
    }
}

pub struct Ctx {
    pub bridge: bool,
    pub ids: (u16, u16),
}

fn fails(s: &str) -> Out {
    Out::Fails(s.to_string())
}

/// Outcome for the standard capability whose header is at the start of `b`.
pub fn std_outcome(b: &[u8], c: &Ctx) -> Out {
    let n = b.len();
    let fixed = |name: &'static str, size: usize| if n >= size { Out::Is(name) } else { fails("Data") };
    match b[0] {
        0x00 => Out::Is("Null"),
        0x01 => fixed("PowerManagement", 8),
        0x02 => fixed("Agp", 12),
        0x03 => fixed("Vpd", 8),
        0x04 => fixed("SlotId", 4),
        0x05 => {
            if n < 4 {
                return fails("Msi/MessageControl");
            }
            let (need, err) = match gb(b, 2, 7, 2) {
                0 => (0x0c, "Msi/Size32bit"),
                1 => (0x10, "Msi/Size64bit"),
                2 => (0x14, "Msi/Size32bitPerVector"),
                _ => (0x18, "Msi/Size64bitPerVector"),
            };
            if n < need { fails(err) } else { Out::Is("Msi") }
        }
        0x06 => Out::Is("CompactPciHotSwap"),
        0x07 if c.bridge => {
            if n < 0x10 {
                return fails("PciXBridge/Mandatory");
            }
            match gb(b, 3, 4, 2) {
                1 if n < 0x20 => fails("PciXBridge/BridgeEccMode2Only"),
                2 if n < 0x20 => fails("PciXBridge/BridgeEccMode1OrMode2"),
                _ => Out::Is("PciXBridge"),
            }
        }
        0x07 => {
            if n < 8 {
                return fails("PciX/CommandAndStatus");
            }
            match gb(b, 3, 4, 2) {
                1 if n < 0x18 => fails("PciX/EccMode2Only"),
                2 if n < 0x18 => fails("PciX/EccMode1OrMode2"),
                _ => Out::Is("PciX"),
            }
        }
        0x08 => {
            if n < 4 {
                return fails("Hypertransport/CapabilityType");
            }
            match gb(b, 3, 3, 5) {
                0..=3 if n < 0x1c => fails("Hypertransport/SlaveOrPrimaryInterface"),
                4..=7 if n < 0x18 => fails("Hypertransport/HostOrSecondaryInterface"),
                0x15 if n < 0x0c => fails("Hypertransport/MsiMapping"),
                _ => Out::Is("Hypertransport"),
            }
        }
        0x09 => {
            if n < 3 {
                return fails("VendorSpecific/LengthUnreadable");
            }
            let len = b[2] as usize;
            let virtio = c.ids.0 == 0x1af4 && (0x1000..=0x107f).contains(&c.ids.1);
            match len {
                0 | 1 => Out::Fails(format!("VendorSpecific/Length({})", len)),
                2 => fails("VendorSpecific/Data"),
                _ if n < len => fails("VendorSpecific/Data"),
                _ if virtio && len < 0x10 => fails("VendorSpecific/Virtio"),
                _ => Out::Is("VendorSpecific"),
            }
        }
        0x0a => fixed("DebugPort", 4),
        0x0b => Out::Is("CompactPciResourceControl"),
        0x0c => Out::Is("PciHotPlug"),
        0x0d => fixed("BridgeSubsystem", 8),
        0x0e => Out::Is("Agp8x"),
        0x0f => Out::Is("SecureDevice"),
        0x10 => {
            if n < 0x1c {
                return fails("PciExpress/RequiredBytesSlice");
            }
            match gb(b, 2, 4, 4) {
                4 | 10 if n < 0x24 => fails("PciExpress/RootBytesSlice"),
                _ => Out::Is("PciExpress"),
            }
        }
        0x11 => fixed("MsiX", 12),
        0x12 => fixed("Sata", 8),
        0x13 => fixed("AdvancedFeatures", 6),
        0x14 => {
            if n < 4 {
                fails("EnhancedAllocation/NumEntries")
            } else if c.bridge && n < 8 {
                fails("EnhancedAllocation/Type1SecondDw")
            } else {
                Out::Is("EnhancedAllocation")
            }
        }
        0x15 => fixed("FlatteningPortalBridge", 0x24),
        v => Out::Unassigned(v as u16),
    }
}

/// Outcome for the extended capability whose header is at the start of `b`.
pub fn ext_outcome(b: &[u8]) -> Out {
    let n = b.len();
    let fixed = |name: &'static str, size: usize| if n >= size { Out::Is(name) } else { fails("Data") };
    let id = gb(b, 0, 0, 16) as u16;
    match id {
        0x00 => Out::Is("Null"),
        0x01 => {
            if n < 0x2c {
                fails("Aer/Common")
            } else if gb(b, 0x18, 11, 1) == 1 && n < 0x48 {
                fails("Aer/TlpPrefixLog")
            } else {
                Out::Is("Aer")
            }
        }
        0x02 => fixed("Vc", 0x10),
        0x03 => fixed("SerialNumber", 0x0c),
        0x04 => fixed("PowerBudgeting", 0x10),
        0x05 => {
            if n < 8 {
                fails("Rcld/ElementSelfDescription")
            } else if b[5] == 0 {
                fails("Rcld/NumberOfLinkEntries")
            } else if n < 0x10 {
                fails("Rcld/ReservedSpace")
            } else if n < 0x20 {
                fails("Rcld/LinkEntry1")
            } else {
                Out::Is("Rcld")
            }
        }
        0x06 => fixed("Rcilc", 0x0c),
        0x07 => fixed("Rcec", 8),
        0x08 => {
            if n < 0x10 {
                return fails("Mfvc/PortVcData");
            }
            let (off, phases) = (b[0x0b] as usize * 16, VC_PHASES[gb(b, 0x0c, 1, 3) as usize]);
            if off == 0 {
                Out::Is("Mfvc")
            } else if off == 16 {
                fails("Mfvc/VcArbitrationTableOffset")
            } else if n < off {
                fails("Mfvc/VcArbitrationTableData")
            } else if n < off + phases / 2 {
                fails("Mfvc/VcArbitrationTableLength")
            } else {
                Out::Is("Mfvc")
            }
        }
        0x09 => fixed("VcMfvcPresent", 0x10),
        0x0a => fixed("Rcrb", 0x14),
        0x0b => fixed("Vsec", 8),
        0x0c => fixed("Cac", 8),
        0x0d => fixed("Acs", 8),
        0x0e => fixed("Ari", 8),
        0x0f => fixed("Ats", 8),
        0x10 => fixed("SrIov", 0x40),
        0x11 => Out::Is("MrIov"),
        0x12 => fixed("Multicast", 0x28),
        0x13 => fixed("PageRequest", 0x10),
        0x14 => Out::Is("ReservedForAmd"),
        0x15 | 0x24 => {
            let (name, pre) = if id == 0x15 { ("ResizableBar", "ResizableBar") } else { ("VfResizableBar", "VfResizableBar") };
            if n < 0x0c {
                return Out::Fails(format!("{}/FirstEntry", pre));
            }
            let k = gb(b, 8, 5, 3) as usize;
            if !(1..=6).contains(&k) {
                Out::Fails(format!("{}/NumberOfResizableBars({})", pre, k))
            } else if n < 4 + 8 * k {
                Out::Fails(format!("{}/ShortData", pre))
            } else {
                Out::Is(name)
            }
        }
        0x16 => {
            if n < 0x10 {
                return fails("Dpa/Mandatory");
            }
            let k = gb(b, 4, 0, 5) as usize + 1;
            if n < 0x10 + k { Out::Fails(format!("Dpa/DpaAllocationArray({},{})", k, n - 0x10)) } else { Out::Is("Dpa") }
        }
        0x17 => fixed("Tph", 0x0c),
        0x18 => fixed("Ltr", 8),
        0x19 => fixed("SecondaryPciExpress", 0x0c),
        0x1a => {
            if n < 0x10 {
                return fails("Pmux/Mandatory");
            }
            let k = gb(b, 4, 0, 6) as usize * 4;
            if n < 0x10 + k { fails("Pmux/PmuxProtocolArray") } else { Out::Is("Pmux") }
        }
        0x1b => fixed("Pasid", 8),
        0x1c => fixed("Lnr", 8),
        0x1d => {
            if n < 0x0c {
                return fails("Dpc/Mandatory");
            }
            let log = gb(b, 5, 0, 4) as usize;
            if gb(b, 4, 5, 1) == 0 {
                Out::Is("Dpc")
            } else if n < 0x30 {
                fails("Dpc/RpExtensions")
            } else if log >= 5 && n < 0x34 {
                fails("Dpc/RpPioImpspecLog")
            } else if n < 0x34 + 4 * log.saturating_sub(5).min(4) && log > 5 {
                let have = (n - 0x34) / 4;
                Out::Fails(format!("Dpc/RpPioTlpPrefixLog({})", have))
            } else {
                Out::Is("Dpc")
            }
        }
        0x1e => fixed("L1Pm", 0x10),
        0x1f => fixed("Ptm", 0x0c),
        0x20 => fixed("Mphy", 0x1c),
        0x21 => fixed("Frs", 0x10),
        0x22 => fixed("Rtr", 0x0c),
        0x23 => {
            if n < 0x0a {
                return fails("Dvsec/Mandatory");
            }
            let (vendor, len, did) = (gb(b, 4, 0, 16), gb(b, 4, 20, 12) as usize, gb(b, 8, 0, 16));
            if len < 0x0a || n < len {
                fails("Dvsec/VendorSpecificRegisters")
            } else if vendor == 0x1e98 && did == 0 && len < 0x0a + 46 {
                fails("Dvsec/ComputeExpressLink")
            } else {
                Out::Is("Dvsec")
            }
        }
        0x25 => Out::Is("DataLinkFeature"),
        0x26 => Out::Is("PhysicalLayer16"),
        0x27 => Out::Is("LaneMargining"),
        0x28 => Out::Is("HierarchyId"),
        0x29 => Out::Is("Npem"),
        0x2a => Out::Is("PhysicalLayer32"),
        0x2b => Out::Is("AlternateProtocol"),
        0x2c => Out::Is("Sfi"),
        0x2d => Out::Is("ShadowFunctions"),
        0x2e => Out::Is("DataObjectExchange"),
        0x2f => Out::Is("Device3"),
        0x30 => Out::Is("IntegrityAndDataEncryption"),
        0x31 => Out::Is("PhysicalLayer64GTps"),
        0x32 => Out::Is("FlitLogging"),
        0x33 => Out::Is("FlitPerformanceMeasurement"),
        0x34 => Out::Is("FlitErrorInjection"),
        v => Out::Unassigned(v),
    }
}

/// Reference walk: the steps up to (not including) the first revisited place, and whether a place
/// was revisited.
pub struct Walked {
    pub steps: Vec<Step>,
    pub cyclic: bool,
    /// the step that it comes back to
    pub back: Option<usize>,
    /// places visited, in order
    pub places: Vec<usize>,
}

/// `cfg`: captured bytes from the start of the configuration space.
pub fn std_walk(cfg: &[u8], first: u8, c: &Ctx, ddr_end: usize) -> Walked {
    let end = cfg.len().min(ddr_end);
    let mut been = [false; 0x100];
    let mut w = Walked { steps: vec![], cyclic: false, back: None, places: vec![] };
    let mut p = first as usize & !3;
    while p != 0 && w.steps.len() < STD_MAX {
        if been[p] {
            w.cyclic = true;
            w.back = w.places.iter().position(|x| *x == p);
            break;
        }
        been[p] = true;
        if p < 0x40 {
            w.steps.push(Step { at: None, version: None, out: fails("Pointer") });
            break;
        }
        w.places.push(p);
        let at = Some(p as u16);
        if p + 2 > end {
            w.steps.push(Step { at, version: None, out: fails("Header") });
            break;
        }
        w.steps.push(Step { at, version: None, out: std_outcome(&cfg[p..end], c) });
        p = cfg[p + 1] as usize & !3;
    }
    w
}

pub fn ext_walk(cfg: &[u8]) -> Walked {
    let mut w = Walked { steps: vec![], cyclic: false, back: None, places: vec![] };
    let mut been = [false; 0x1000];
    let mut p = 0x100usize;
    while p != 0 && w.steps.len() < EXT_MAX {
        if been[p] {
            w.cyclic = true;
            w.back = w.places.iter().position(|x| *x == p);
            break;
        }
        been[p] = true;
        if p < 0x100 {
            w.steps.push(Step { at: None, version: None, out: fails("Offset") });
            break;
        }
        w.places.push(p);
        let at = Some(p as u16);
        if p + 4 > cfg.len() {
            w.steps.push(Step { at, version: None, out: fails("Header") });
            break;
        }
        let head = gb(cfg, p, 0, 32);
        if head == 0 {
            break;
        }
        let out = ext_outcome(&cfg[p..]);
        let version = matches!(out, Out::Is(_) | Out::Unassigned(_)).then_some((head >> 16 & 15) as u8);
        w.steps.push(Step { at, version, out });
        p = (head >> 20) as usize & !3;
    }
    w
}

/// What the library reported, in the same terms.
pub fn std_step(r: &Result<Capability<'_>, CapabilityError>) -> Step {
    use CapabilityError as X;
    let f = |at: u8, s: String| Step { at: Some(at as u16), version: None, out: Out::Fails(s) };
    match r {
        Ok(c) => {
            let out = match &c.kind {
                K::NullCapability => Out::Is("Null"),
                K::PowerManagementInterface(_) => Out::Is("PowerManagement"),
                K::AcceleratedGraphicsPort(_) => Out::Is("Agp"),
                K::VitalProductData(_) => Out::Is("Vpd"),
                K::SlotIdentification(_) => Out::Is("SlotId"),
                K::MessageSignaledInterrups(_) => Out::Is("Msi"),
                K::CompactPciHotSwap(_) => Out::Is("CompactPciHotSwap"),
                K::PciX(_) => Out::Is("PciX"),
                K::PciXBridge(_) => Out::Is("PciXBridge"),
                K::Hypertransport(_) => Out::Is("Hypertransport"),
                K::VendorSpecific(_) => Out::Is("VendorSpecific"),
                K::DebugPort(_) => Out::Is("DebugPort"),
                K::CompactPciResourceControl(_) => Out::Is("CompactPciResourceControl"),
                K::PciHotPlug(_) => Out::Is("PciHotPlug"),
                K::BridgeSubsystemVendorId(_) => Out::Is("BridgeSubsystem"),
                K::Agp8x(_) => Out::Is("Agp8x"),
                K::SecureDevice(_) => Out::Is("SecureDevice"),
                K::PciExpress(_) => Out::Is("PciExpress"),
                K::MsiX(_) => Out::Is("MsiX"),
                K::Sata(_) => Out::Is("Sata"),
                K::AdvancedFeatures(_) => Out::Is("AdvancedFeatures"),
                K::EnhancedAllocation(_) => Out::Is("EnhancedAllocation"),
                K::FlatteningPortalBridge(_) => Out::Is("FlatteningPortalBridge"),
                K::Reserved(v) => Out::Unassigned(*v as u16),
            };
            Step { at: Some(c.pointer as u16), version: None, out }
        }
        Err(e) => match e {
            X::Pointer => Step { at: None, version: None, out: fails("Pointer") },
            X::Header { ptr } => f(*ptr, "Header".into()),
            X::Data { ptr, .. } => f(*ptr, "Data".into()),
            X::PciExpress { ptr, source } => {
                use caps::pci_express::PciExpressError as I;
                f(*ptr, format!("PciExpress/{}", match source { I::RequiredBytesSlice { .. } => "RequiredBytesSlice", I::RootBytesSlice { .. } => "RootBytesSlice" }))
            }
            X::Hypertransport { ptr, source } => f(*ptr, format!("Hypertransport/{}", bare(&format!("{:?}", source)))),
            X::VendorSpecific { ptr, source } => {
                use caps::vendor_specific::VendorSpecificError as I;
                f(*ptr, match source {
                    I::LengthUnreadable => "VendorSpecific/LengthUnreadable".into(),
                    I::Length { val } => format!("VendorSpecific/Length({})", val),
                    I::Data { .. } => "VendorSpecific/Data".into(),
                    I::Virtio => "VendorSpecific/Virtio".into(),
                })
            }
            X::MessageSignaledInterrups { ptr, source } => f(*ptr, format!("Msi/{}", bare(&format!("{:?}", source)))),
            X::PciX { ptr, source } => f(*ptr, format!("PciX/{}", bare(&format!("{:?}", source)))),
            X::PciXBridge { ptr, source } => f(*ptr, format!("PciXBridge/{}", bare(&format!("{:?}", source)))),
            X::EnhancedAllocation { ptr, source } => f(*ptr, format!("EnhancedAllocation/{}", bare(&format!("{:?}", source)))),
        },
    }
}

/// variant name of a printed error
fn bare(s: &str) -> String {
    s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

pub fn ext_step(r: &Result<ExtendedCapability<'_>, ExtendedCapabilityError>) -> Step {
    use ExtendedCapabilityError as X;
    let f = |at: u16, s: String| Step { at: Some(at), version: None, out: Out::Fails(s) };
    match r {
        Ok(c) => {
            let out = match &c.kind {
                E::Null => Out::Is("Null"),
                E::AdvancedErrorReporting(_) => Out::Is("Aer"),
                E::VirtualChannel(_) => Out::Is("Vc"),
                E::DeviceSerialNumber(_) => Out::Is("SerialNumber"),
                E::PowerBudgeting(_) => Out::Is("PowerBudgeting"),
                E::RootComplexLinkDeclaration(_) => Out::Is("Rcld"),
                E::RootComplexInternalLinkControl(_) => Out::Is("Rcilc"),
                E::RootComplexEventCollectorEndpointAssociation(_) => Out::Is("Rcec"),
                E::MultifunctionVirtualChannel(_) => Out::Is("Mfvc"),
                E::VirtualChannelMfvcPresent(_) => Out::Is("VcMfvcPresent"),
                E::RootComplexRegisterBlockHeader(_) => Out::Is("Rcrb"),
                E::VendorSpecificExtendedCapability(_) => Out::Is("Vsec"),
                E::ConfigurationAccessCorrelation(_) => Out::Is("Cac"),
                E::AccessControlServices(_) => Out::Is("Acs"),
                E::AlternativeRoutingIdInterpretation(_) => Out::Is("Ari"),
                E::AddressTranslationServices(_) => Out::Is("Ats"),
                E::SingleRootIoVirtualization(_) => Out::Is("SrIov"),
                E::MultiRootIoVirtualization(_) => Out::Is("MrIov"),
                E::Multicast(_) => Out::Is("Multicast"),
                E::PageRequestInterface(_) => Out::Is("PageRequest"),
                E::ReservedForAmd(_) => Out::Is("ReservedForAmd"),
                E::ResizableBar(_) => Out::Is("ResizableBar"),
                E::DynamicPowerAllocation(_) => Out::Is("Dpa"),
                E::TphRequester(_) => Out::Is("Tph"),
                E::LatencyToleranceReporting(_) => Out::Is("Ltr"),
                E::SecondaryPciExpress(_) => Out::Is("SecondaryPciExpress"),
                E::ProtocolMultiplexing(_) => Out::Is("Pmux"),
                E::ProcessAddressSpaceId(_) => Out::Is("Pasid"),
                E::LnRequester(_) => Out::Is("Lnr"),
                E::DownstreamPortContainment(_) => Out::Is("Dpc"),
                E::L1PmSubstates(_) => Out::Is("L1Pm"),
                E::PrecisionTimeMeasurement(_) => Out::Is("Ptm"),
                E::PciExpressOverMphy(_) => Out::Is("Mphy"),
                E::FrsQueuing(_) => Out::Is("Frs"),
                E::ReadinessTimeReporting(_) => Out::Is("Rtr"),
                E::DesignatedVendorSpecificExtendedCapability(_) => Out::Is("Dvsec"),
                E::VfResizableBar(_) => Out::Is("VfResizableBar"),
                E::DataLinkFeature(_) => Out::Is("DataLinkFeature"),
                E::PhysicalLayer16GTps(_) => Out::Is("PhysicalLayer16"),
                E::LaneMarginingAtTheReceiver(_) => Out::Is("LaneMargining"),
                E::HierarchyId(_) => Out::Is("HierarchyId"),
                E::NativePcieEnclosureManagement(_) => Out::Is("Npem"),
                E::PhysicalLayer32GTps(_) => Out::Is("PhysicalLayer32"),
                E::AlternateProtocol(_) => Out::Is("AlternateProtocol"),
                E::SystemFirmwareIntermediary(_) => Out::Is("Sfi"),
                E::ShadowFunctions(_) => Out::Is("ShadowFunctions"),
                E::DataObjectExchange(_) => Out::Is("DataObjectExchange"),
                E::Device3(_) => Out::Is("Device3"),
                E::IntegrityAndDataEncryption(_) => Out::Is("IntegrityAndDataEncryption"),
                E::PhysicalLayer64GTps(_) => Out::Is("PhysicalLayer64GTps"),
                E::FlitLogging(_) => Out::Is("FlitLogging"),
                E::FlitPerformanceMeasurement(_) => Out::Is("FlitPerformanceMeasurement"),
                E::FlitErrorInjection(_) => Out::Is("FlitErrorInjection"),
                E::Reserved(v) => Out::Unassigned(*v),
            };
            Step { at: Some(c.offset), version: Some(c.version), out }
        }
        Err(e) => match e {
            X::Offset => Step { at: None, version: None, out: fails("Offset") },
            X::Header { offset } => f(*offset, "Header".into()),
            X::EmptyHeader { offset } => f(*offset, "EmptyHeader".into()),
            X::Data { offset, .. } => f(*offset, "Data".into()),
            X::RootComplexLinkDeclaration { offset, source } => f(*offset, format!("Rcld/{}", bare(&format!("{:?}", source)))),
            X::MultifunctionVirtualChannel { offset, source } => f(*offset, format!("Mfvc/{}", bare(&format!("{:?}", source)))),
            X::SingleRootIoVirtualization { offset, source } => f(*offset, format!("SrIov/{}", bare(&format!("{:?}", source)))),
            X::AdvancedErrorReporting { offset, source } => f(*offset, format!("Aer/{}", bare(&format!("{:?}", source)))),
            X::DownstreamPortContainment { offset, source } => {
                use ecaps::downstream_port_containment::DownstreamPortContainmentError as I;
                f(*offset, match source {
                    I::RpPioTlpPrefixLog { number } => format!("Dpc/RpPioTlpPrefixLog({})", number),
                    x => format!("Dpc/{}", bare(&format!("{:?}", x))),
                })
            }
            X::ResizableBar { offset, source } => f(*offset, format!("ResizableBar/{}", rebar_err(source))),
            X::VfResizableBar { offset, source } => f(*offset, format!("VfResizableBar/{}", rebar_err(source))),
            X::DynamicPowerAllocation { offset, source } => {
                use ecaps::dynamic_power_allocation::DynamicPowerAllocationError as I;
                f(*offset, match source {
                    I::DpaAllocationArray { expected, found } => format!("Dpa/DpaAllocationArray({},{})", expected, found),
                    x => format!("Dpa/{}", bare(&format!("{:?}", x))),
                })
            }
            X::ProtocolMultiplexing { offset, source } => f(*offset, format!("Pmux/{}", bare(&format!("{:?}", source)))),
            X::DesignatedVendorSpecificExtendedCapability { offset, source } => f(*offset, format!("Dvsec/{}", bare(&format!("{:?}", source)))),
        },
    }
}

fn rebar_err(e: &ecaps::resizable_bar::ResizableBarError) -> String {
    use ecaps::resizable_bar::ResizableBarError as I;
    match e {
        I::NumberOfResizableBars { value } => format!("NumberOfResizableBars({})", value),
        x => bare(&format!("{:?}", x)),
    }
}

/// Observe everything a decoded standard capability reports. `b` starts at its header.
pub fn std_observe(k: &K<'_>, b: &[u8], c: &Ctx, o: &mut Obs) {
    o.dep(0, 2);
    match k {
        K::PowerManagementInterface(s) => st::pm(s, b, o),
        K::AcceleratedGraphicsPort(s) => st::agp(s, b, o),
        K::VitalProductData(s) => st::vpd(s, b, o),
        K::SlotIdentification(s) => st::slot_id(s, b, o),
        K::MessageSignaledInterrups(s) => st::msi(s, b, o),
        K::PciX(s) => st::pci_x(s, b, o),
        K::PciXBridge(s) => st::pci_x_bridge(s, b, o),
        K::Hypertransport(s) => st::ht(s, b, o),
        K::VendorSpecific(s) => st::vendor(s, b, c.ids, o),
        K::DebugPort(s) => st::debug_port(s, b, o),
        K::BridgeSubsystemVendorId(s) => st::bridge_ssid(s, b, o),
        K::PciExpress(s) => st::pcie(s, b, o),
        K::MsiX(s) => st::msix(s, b, o),
        K::Sata(s) => st::sata(s, b, o),
        K::AdvancedFeatures(s) => st::af(s, b, o),
        K::EnhancedAllocation(s) => st::ea(s, b, c.bridge, o),
        K::FlatteningPortalBridge(s) => st::fpb(s, b, o),
        _ => {}
    }
}

pub fn ext_observe(k: &E<'_>, b: &[u8], o: &mut Obs) {
    o.dep(0, 4);
    match k {
        E::AdvancedErrorReporting(s) => x2::aer(s, b, o),
        E::VirtualChannel(s) | E::VirtualChannelMfvcPresent(s) => x2::vc(s, b, o),
        E::DeviceSerialNumber(s) => x2::dsn(s, b, o),
        E::PowerBudgeting(s) => x2::power_budgeting(s, b, o),
        E::RootComplexLinkDeclaration(s) => x2::rcld(s, b, o),
        E::RootComplexInternalLinkControl(s) => x2::rcilc(s, b, o),
        E::RootComplexEventCollectorEndpointAssociation(s) => x2::rcec(s, b, o),
        E::MultifunctionVirtualChannel(s) => x2::mfvc(s, b, o),
        E::RootComplexRegisterBlockHeader(s) => x1::rcrb(s, b, o),
        E::VendorSpecificExtendedCapability(s) => x1::vsec(s, b, o),
        E::ConfigurationAccessCorrelation(s) => x1::cac(s, b, o),
        E::AccessControlServices(s) => x1::acs(s, b, o),
        E::AlternativeRoutingIdInterpretation(s) => x1::ari(s, b, o),
        E::AddressTranslationServices(s) => x1::ats(s, b, o),
        E::SingleRootIoVirtualization(s) => x1::sriov(s, b, o),
        E::Multicast(s) => x1::multicast(s, b, o),
        E::PageRequestInterface(s) => x1::pri(s, b, o),
        E::ResizableBar(s) | E::VfResizableBar(s) => x1::rebar(s, b, o),
        E::DynamicPowerAllocation(s) => x1::dpa(s, b, o),
        E::TphRequester(s) => x1::tph(s, b, o),
        E::LatencyToleranceReporting(s) => x1::ltr(s, b, o),
        E::SecondaryPciExpress(s) => x1::spe(s, b, o),
        E::ProtocolMultiplexing(s) => x1::pmux(s, b, o),
        E::ProcessAddressSpaceId(s) => x1::pasid(s, b, o),
        E::LnRequester(s) => x1::lnr(s, b, o),
        E::DownstreamPortContainment(s) => x1::dpc(s, b, o),
        E::L1PmSubstates(s) => x1::l1pm(s, b, o),
        E::PrecisionTimeMeasurement(s) => x1::ptm(s, b, o),
        E::PciExpressOverMphy(s) => x1::mphy(s, b, o),
        E::FrsQueuing(s) => x1::frs(s, b, o),
        E::ReadinessTimeReporting(s) => x1::rtr(s, b, o),
        E::DesignatedVendorSpecificExtendedCapability(s) => x1::dvsec(s, b, o),
        _ => {}
    }
}

pub fn ctx(h: &Header) -> Ctx {
    Ctx { bridge: matches!(h.header_type, HeaderType::Bridge(_)), ids: (h.vendor_id, h.device_id) }
}
