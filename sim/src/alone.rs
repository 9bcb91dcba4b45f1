//! The same structures, decoded on their own: through their public conversions instead of the lists.
use pcics::capabilities::{self as c, Capability, CapabilityError as CE, CapabilityKind as K};
use pcics::extended_capabilities::{self as x, ExtendedCapability, ExtendedCapabilityError as XE, ExtendedCapabilityKind as E};
use pcics::header::{Header, HeaderType};

type StdR<'a> = Result<Capability<'a>, CE>;
type ExtR<'a> = Result<ExtendedCapability<'a>, XE>;

/// The entry `b` starts with, at `ptr`; nothing for kinds without a conversion of their own.
pub fn std<'a>(b: &'a [u8], ptr: u8, h: &'a Header) -> Option<StdR<'a>> {
    let (id, data) = (*b.first()?, b.get(2..)?);
    macro_rules! data {
        ($t:ty, $k:ident) => {
            <$t>::try_from(data).map(K::$k).map_err(|source| CE::Data { ptr, source })
        };
    }
    let kind = match id {
        0x01 => data!(c::PowerManagementInterface, PowerManagementInterface),
        0x02 => data!(c::AcceleratedGraphicsPort, AcceleratedGraphicsPort),
        0x03 => data!(c::VitalProductData, VitalProductData),
        0x04 => data!(c::SlotIdentification, SlotIdentification),
        0x05 => c::MessageSignaledInterrups::try_from(data)
            .map(K::MessageSignaledInterrups)
            .map_err(|source| CE::MessageSignaledInterrups { ptr, source }),
        0x07 if matches!(h.header_type, HeaderType::Bridge(_)) => {
            c::PciXBridge::try_from(data).map(K::PciXBridge).map_err(|source| CE::PciXBridge { ptr, source })
        }
        0x07 => c::PciX::try_from(data).map(K::PciX).map_err(|source| CE::PciX { ptr, source }),
        0x08 => c::Hypertransport::try_from(data).map(K::Hypertransport).map_err(|source| CE::Hypertransport { ptr, source }),
        0x09 => c::VendorSpecific::try_new(data, h).map(K::VendorSpecific).map_err(|source| CE::VendorSpecific { ptr, source }),
        0x0a => data!(c::DebugPort, DebugPort),
        0x0d => data!(c::BridgeSubsystemVendorId, BridgeSubsystemVendorId),
        0x10 => c::PciExpress::try_from(data).map(K::PciExpress).map_err(|source| CE::PciExpress { ptr, source }),
        0x11 => data!(c::MsiX, MsiX),
        0x12 => data!(c::Sata, Sata),
        0x13 => data!(c::AdvancedFeatures, AdvancedFeatures),
        0x14 => c::EnhancedAllocation::try_new(data, h).map(K::EnhancedAllocation).map_err(|source| CE::EnhancedAllocation { ptr, source }),
        0x15 => data!(c::FlatteningPortalBridge, FlatteningPortalBridge),
        _ => return None,
    };
    Some(kind.map(|kind| Capability { pointer: ptr, kind }))
}

pub fn ext(b: &[u8], offset: u16) -> Option<ExtR<'_>> {
    let head = u32::from_le_bytes(b.get(..4)?.try_into().ok()?);
    let (id, version) = (head as u16, (head >> 16 & 15) as u8);
    let data = b.get(4..)?;
    macro_rules! go {
        ($b:expr, $t:ident, $k:ident) => {
            x::$t::try_from($b).map(E::$k).map_err(|source| XE::Data { offset, source })
        };
        ($b:expr, $t:ident, $k:ident, $e:ident) => {
            x::$t::try_from($b).map(E::$k).map_err(|source| XE::$e { offset, source })
        };
    }
    let kind = match id {
        0x01 => go!(data, AdvancedErrorReporting, AdvancedErrorReporting, AdvancedErrorReporting),
        0x02 => go!(data, VirtualChannel, VirtualChannel),
        0x03 => go!(data, DeviceSerialNumber, DeviceSerialNumber),
        0x04 => go!(data, PowerBudgeting, PowerBudgeting),
        0x05 => go!(data, RootComplexLinkDeclaration, RootComplexLinkDeclaration, RootComplexLinkDeclaration),
        0x06 => go!(data, RootComplexInternalLinkControl, RootComplexInternalLinkControl),
        0x07 => go!(data, RootComplexEventCollectorEndpointAssociation, RootComplexEventCollectorEndpointAssociation),
        0x08 => go!(b, MultifunctionVirtualChannel, MultifunctionVirtualChannel, MultifunctionVirtualChannel),
        0x09 => go!(data, VirtualChannel, VirtualChannelMfvcPresent),
        0x0a => go!(b, RootComplexRegisterBlockHeader, RootComplexRegisterBlockHeader),
        0x0b => go!(data, VendorSpecificExtendedCapability, VendorSpecificExtendedCapability),
        0x0c => go!(b, ConfigurationAccessCorrelation, ConfigurationAccessCorrelation),
        0x0d => go!(data, AccessControlServices, AccessControlServices),
        0x0e => go!(data, AlternativeRoutingIdInterpretation, AlternativeRoutingIdInterpretation),
        0x0f => go!(data, AddressTranslationServices, AddressTranslationServices),
        0x10 => go!(data, SingleRootIoVirtualization, SingleRootIoVirtualization),
        0x12 => go!(b, Multicast, Multicast),
        0x13 => go!(data, PageRequestInterface, PageRequestInterface),
        0x15 => go!(b, ResizableBar, ResizableBar, ResizableBar),
        0x16 => go!(b, DynamicPowerAllocation, DynamicPowerAllocation, DynamicPowerAllocation),
        0x17 => go!(data, TphRequester, TphRequester),
        0x18 => go!(data, LatencyToleranceReporting, LatencyToleranceReporting),
        0x19 => go!(data, SecondaryPciExpress, SecondaryPciExpress),
        0x1a => go!(b, ProtocolMultiplexing, ProtocolMultiplexing, ProtocolMultiplexing),
        0x1b => go!(data, ProcessAddressSpaceId, ProcessAddressSpaceId),
        0x1c => go!(b, LnRequester, LnRequester),
        0x1d => go!(data, DownstreamPortContainment, DownstreamPortContainment, DownstreamPortContainment),
        0x1e => go!(data, L1PmSubstates, L1PmSubstates),
        0x1f => go!(data, PrecisionTimeMeasurement, PrecisionTimeMeasurement),
        0x20 => go!(b, PciExpressOverMphy, PciExpressOverMphy),
        0x21 => go!(b, FrsQueuing, FrsQueuing),
        0x22 => go!(b, ReadinessTimeReporting, ReadinessTimeReporting),
        0x23 => go!(
            b,
            DesignatedVendorSpecificExtendedCapability,
            DesignatedVendorSpecificExtendedCapability,
            DesignatedVendorSpecificExtendedCapability
        ),
        0x24 => go!(b, ResizableBar, VfResizableBar, VfResizableBar),
        _ => return None,
    };
    Some(kind.map(|kind| ExtendedCapability { kind, version, offset }))
}

/// Conversions from arrays have to agree with those from slices.
pub fn std_array(b: &[u8], k: &K<'_>) -> Option<bool> {
    fn first<const N: usize>(b: &[u8]) -> Option<[u8; N]> {
        b.get(2..2 + N)?.try_into().ok()
    }
    Some(match k {
        K::MsiX(s) => c::MsiX::from(first::<{ c::MsiX::SIZE }>(b)?) == *s,
        K::BridgeSubsystemVendorId(s) => c::BridgeSubsystemVendorId::from(first::<{ c::BridgeSubsystemVendorId::SIZE }>(b)?) == *s,
        K::FlatteningPortalBridge(s) => c::FlatteningPortalBridge::from(first::<{ c::FlatteningPortalBridge::SIZE }>(b)?) == *s,
        _ => return None,
    })
}
pub fn ext_array(b: &[u8], k: &E<'_>) -> Option<bool> {
    fn first<const N: usize>(b: &[u8], at: usize) -> Option<[u8; N]> {
        b.get(at..at + N)?.try_into().ok()
    }
    Some(match k {
        E::SingleRootIoVirtualization(s) => {
            x::SingleRootIoVirtualization::from(first::<{ x::SingleRootIoVirtualization::BYTES }>(b, 4)?) == *s
        }
        E::RootComplexInternalLinkControl(s) => {
            x::RootComplexInternalLinkControl::from(first::<{ x::RootComplexInternalLinkControl::SIZE }>(b, 4)?) == *s
        }
        E::ConfigurationAccessCorrelation(s) => {
            x::ConfigurationAccessCorrelation::from(first::<{ x::ConfigurationAccessCorrelation::SIZE }>(b, 0)?) == *s
        }
        E::LnRequester(s) => x::LnRequester::from(first::<{ x::LnRequester::SIZE }>(b, 0)?) == *s,
        _ => return None,
    })
}

/// Copies of what was decoded equal it. (Not every structure can be copied.)
pub fn std_copy(k: &K<'_>) -> Option<bool> {
    macro_rules! cp { ($($v:ident),*) => { match k { $(K::$v(s) => { let t = s.clone(); t == *s && crate::obs::digest(&t) == crate::obs::digest(s) })* _ => return None } } }
    Some(cp!(PowerManagementInterface, AcceleratedGraphicsPort, VitalProductData, SlotIdentification, PciX, PciXBridge, Hypertransport,
        DebugPort, BridgeSubsystemVendorId, PciExpress, MsiX, Sata, AdvancedFeatures, EnhancedAllocation, FlatteningPortalBridge))
}
