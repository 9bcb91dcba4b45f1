//! Reference register maps of the standard capabilities. Offsets are relative to the capability
//! header (ID at 0, next pointer at 1).
use crate::obs::{get_bits, Obs};
use pcics::capabilities::accelerated_graphics_port as agp_m;
use pcics::capabilities::enhanced_allocation as ea_m;
use pcics::capabilities::flattening_portal_bridge as fpb_m;
use pcics::capabilities::hypertransport as ht_m;
use pcics::capabilities::message_signaled_interrups as msi_m;
use pcics::capabilities::msi_x as msix_m;
use pcics::capabilities::pci_express as pe;
use pcics::capabilities::pci_x as px;
use pcics::capabilities::power_management_interface as pm_m;
use pcics::capabilities::sata as sata_m;
use pcics::capabilities::vendor_specific as vs_m;
use pcics::capabilities::*;

fn gb(b: &[u8], bit: u32, w: u32) -> u64 {
    get_bits(b, bit, w).unwrap_or(0)
}

codes!(pm_m::AuxCurrent { Self::SelfPowered => 0, Self::MaxCurrent55mA => 1, Self::MaxCurrent100mA => 2, Self::MaxCurrent160mA => 3,
    Self::MaxCurrent220mA => 4, Self::MaxCurrent270mA => 5, Self::MaxCurrent320mA => 6, Self::MaxCurrent375mA => 7 });
codes!(pm_m::PowerState { Self::D0 => 0, Self::D1 => 1, Self::D2 => 2, Self::D3Hot => 3 });
codes!(pm_m::DataSelect { Self::PowerConsumedD0 => 0, Self::PowerConsumedD1 => 1, Self::PowerConsumedD2 => 2, Self::PowerConsumedD3 => 3,
    Self::PowerDissipatedD0 => 4, Self::PowerDissipatedD1 => 5, Self::PowerDissipatedD2 => 6, Self::PowerDissipatedD3 => 7,
    Self::CommonLogic => 8; Reserved });
codes!(pm_m::DataScale { Self::Unknown => 0, Self::Tenth => 1, Self::Hundredth => 2, Self::Thousandth => 3 });

pub fn pm(s: &PowerManagementInterface, b: &[u8], o: &mut Obs) {
    let c = &s.capabilities;
    let p = &c.pme_support;
    rs!(o, 0x02, [3 c.version, 1 c.pme_clock, 1 c.immediate_readiness_on_return_to_d0, 1 c.device_specific_initialization,
        3 c.aux_current, 1 c.d1_support, 1 c.d2_support, 1 p.d0, 1 p.d1, 1 p.d2, 1 p.d3_hot, 1 p.d3_cold]);
    let c = &s.control;
    rs!(o, 0x04, [2 c.power_state, 1 _, 1 c.no_soft_reset, 4 _, 1 c.pme_enabled, 4 c.data_select, 2 c.data_scale, 1 c.pme_status]);
    rs!(o, 0x06, [6 s.bridge.reserved, 1 s.bridge.b2_b3, 1 s.bridge.bpcc_enabled]);
    r!(o, s.data, 0x07, 0, 8);
    o.wb("DataSelect -> u8", u8::from(c.data_select) as u64, gb(b, 0x05 * 8 + 1, 4));
    let raw = gb(b, 0x07 * 8, 8);
    let data = s.data();
    o.eq("data() present", data.is_some(), raw != 0);
    if let Some(d) = data {
        r!(o, d.value, 0x07, 0, 8);
        r!(o, d.select, 0x05, 1, 4);
        r!(o, d.scale, 0x05, 5, 2);
    }
}

codes!(agp_m::CalCycle { Self::Period4ms => 0, Self::Period16ms => 1, Self::Period64ms => 2, Self::Period256ms => 3, Self::CalibrationCycleNotNeeded => 7; Reserved });
codes!(agp_m::DataRateSupport { Self::Speed4x => 1, Self::Speed8x => 2, Self::Speed4xAnd8x => 3; Reserved });
codes!(agp_m::DataRateEnabled { Self::Speed4x => 1, Self::Speed8x => 2; Reserved });

/// AGP and AGP 8x
pub fn agp(s: &AcceleratedGraphicsPort, b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [4 s.identifier.minor, 4 s.identifier.major]);
    let c = &s.status;
    rs!(o, 0x04, [3 c.rate, 1 c.agp_3_0_mode, 1 c.fw, 1 c.over4g, 1 c.htrans, 1 c.gart64b, 1 c.ita_coh, 1 c.sba, 3 c.cal_cycle, 3 c.arqsz,
        1 c.reserved, 1 c.isoch_support, 6 _, 8 c.rq]);
    let d = &s.command;
    rs!(o, 0x08, [3 d.drate, 1 _, 1 d.fw_enable, 1 d.over4g, 1 _, 1 d.gart64b, 1 d.agp_enable, 1 d.sba_enable, 3 d.pcal_cycle, 3 d.parqsz, 8 _, 8 d.prq]);
    o.wb("CalCycle -> u8", u8::from(c.cal_cycle.clone()) as u64, gb(b, 0x04 * 8 + 10, 3));
    o.wb("CalCycle -> u8", u8::from(d.pcal_cycle.clone()) as u64, gb(b, 0x08 * 8 + 10, 3));
    o.wb("DataRateSupport -> u8", u8::from(c.rate.clone()) as u64, gb(b, 0x04 * 8, 3));
    o.wb("DataRateEnabled -> u8", u8::from(d.drate.clone()) as u64, gb(b, 0x08 * 8, 3));
    let isoch = gb(b, 0x04 * 8 + 17, 1) == 1;
    let g64 = gb(b, 0x04 * 8 + 7, 1) == 1;
    let n = b.len();
    o.eq("isochronous_status present", s.isochronous_status.is_some(), isoch && n >= 0x10);
    o.eq("control present", s.control.is_some(), n >= 0x14);
    o.eq("aperture_size present", s.aperture_size.is_some(), n >= 0x16);
    o.eq("enabled_aperture_page_size present", s.enabled_aperture_page_size.is_some(), n >= 0x18);
    o.eq("gart_pointer present", s.gart_pointer.is_some(), n >= 0x20 || (n >= 0x1c && !g64));
    o.eq("isochronous_command present", s.isochronous_command.is_some(), isoch && n >= 0x22);
    if let Some(v) = &s.isochronous_status {
        rs!(o, 0x0c, [2 v.isoch_error_code.0, 1 _, 3 v.isoch_l, 2 v.isoch_y.0, 8 v.isoch_n, 8 v.maxbw]);
    }
    if let Some(v) = &s.control {
        rs!(o, 0x10, [7 _, 1 v.gtlben, 1 v.aperenb, 1 v.cal_cycle_dis]);
    }
    if let Some(v) = &s.aperture_size {
        r!(o, v.0, 0x14, 0, 16);
    }
    if let Some(v) = &s.enabled_aperture_page_size {
        r!(o, v.0, 0x16, 0, 16);
    }
    if let Some(v) = &s.gart_pointer {
        r!(o, v.gartlo, 0x18, 0, 32);
        if n >= 0x20 {
            r!(o, v.garthi, 0x1c, 0, 32);
        } else {
            // a 32-bit GART: reads as zero
            r!(o, v.garthi, 0x1c, 0, 0);
        }
    }
    if let Some(v) = &s.isochronous_command {
        rs!(o, 0x20, [6 _, 2 v.pisoch_y, 8 v.pisoch_n]);
    }
}

pub fn vpd(s: &VitalProductData, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [15 s.vpd_address, 1 s.transfer_completed]);
    r!(o, s.vpd_data, 0x04, 0, 32);
}

pub fn slot_id(s: &SlotIdentification, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [5 s.expansion_slot.expansion_slots_provided, 1 s.expansion_slot.first_in_chassis, 2 _, 8 s.chassis_number]);
}

pub fn msi(s: &MessageSignaledInterrups, b: &[u8], o: &mut Obs) {
    let c = &s.message_control;
    rs!(o, 0x02, [1 c.msi_enable, 3 c.multiple_message_capable.0, 3 c.multiple_message_enable.0, 1 c.a_64_bit_address_capable,
        1 c.per_vector_masking_capable, 1 c.extended_message_data_capable, 1 c.extended_message_data_enable]);
    o.eq("number_of_vectors()", c.multiple_message_capable.number_of_vectors() as u64, 1 << gb(b, 0x02 * 8 + 1, 3));
    o.eq("number_of_vectors()", c.multiple_message_enable.number_of_vectors() as u64, 1 << gb(b, 0x02 * 8 + 4, 3));
    let (wide, pvm) = (gb(b, 0x02 * 8 + 7, 1) == 1, gb(b, 0x02 * 8 + 8, 1) == 1);
    match &s.message_address {
        msi_m::MessageAddress::Dword(a) => {
            o.rule("message_address width", !wide, || "32-bit address for a 64-bit capable function".into());
            o.f("message_address", 0x04, 0, 32, *a as u64);
        }
        msi_m::MessageAddress::Qword(a) => {
            o.rule("message_address width", wide, || "64-bit address for a 32-bit function".into());
            o.f("message_address", 0x04, 0, 64, *a);
        }
    }
    let at = if wide { 0x0c } else { 0x08 };
    r!(o, s.message_data, at, 0, 16);
    r!(o, s.extended_message_data, at + 2, 0, 16);
    o.eq("mask_bits present", s.mask_bits.is_some(), pvm);
    o.eq("pending_bits present", s.pending_bits.is_some(), pvm);
    if let Some(v) = s.mask_bits {
        r!(o, v, at + 4, 0, 32);
    }
    if let Some(v) = s.pending_bits {
        r!(o, v, at + 8, 0, 32);
    }
}

fn ecc_control(c: &px::EccControlAndStatus, at: usize, o: &mut Obs) {
    use px::EccErrorPhase as P;
    rs!(o, at, [1 c.select_secondary_ecc_registers, 1 c.error_present_in_other_ecc_register_bank, 1 c.additional_correctable_ecc_error,
        1 c.additional_uncorrectable_ecc_error, 3 _, 1 c.ecc_error_corrected]);
    match &c.ecc_error_phase {
        P::NoError => o.f("ecc_error_phase", at, 4, 3, 0),
        P::First32bits => o.f("ecc_error_phase", at, 4, 3, 1),
        P::Second32bits => o.f("ecc_error_phase", at, 4, 3, 2),
        P::AttributePhase => o.f("ecc_error_phase", at, 4, 3, 3),
        P::Phase32or16bit => o.f("ecc_error_phase", at, 4, 3, 4),
        P::Phase64bit => o.f("ecc_error_phase", at, 4, 3, 5),
        P::Reserved => o.any("ecc_error_phase", at, 4, 3, &[6, 7]),
    }
    let y = &c.syndrome;
    rs!(o, at + 1, [1 y.e0, 1 y.e1, 1 y.e2, 1 y.e3, 1 y.e4, 1 y.e5, 1 y.e6, 1 y.e7]);
    rs!(o, at + 2, [4 c.error_first_command, 4 c.error_second_command, 4 c.error_upper_attributes, 1 c.ecc_control_update_enable, 1 _,
        1 c.disable_single_bit_error_correction, 1 c.ecc_mode]);
}

fn ecc(e: &px::Ecc, at: usize, version: u64, o: &mut Obs) {
    let regs = |c: &px::EccControlAndStatus, a: &[u32; 3], o: &mut Obs| {
        ecc_control(c, at, o);
        for (i, v) in a.iter().enumerate() {
            o.f("ecc address/attribute", at + 4 + 4 * i, 0, 32, *v as u64);
        }
    };
    let code = match e {
        px::Ecc::None => 0u64,
        px::Ecc::Mode2Only { control_and_status, first_address, second_address, attribute } => {
            regs(control_and_status, &[*first_address, *second_address, *attribute], o);
            1
        }
        px::Ecc::Mode1OrMode2 { control_and_status, first_address, second_address, attribute } => {
            regs(control_and_status, &[*first_address, *second_address, *attribute], o);
            2
        }
        px::Ecc::Reserved => 3,
    };
    o.eq("ecc version", code, version);
    o.f("ecc version", 0x02, 12, 2, code);
}

codes!(px::DeviceComplexity { Self::Simple => 0, Self::Bridge => 1 });
const SPLITS: [u8; 8] = [1, 2, 3, 4, 8, 12, 16, 32];

pub fn pci_x(s: &PciX, b: &[u8], o: &mut Obs) {
    let c = &s.command;
    rs!(o, 0x02, [1 c.uncorrectable_data_error_recovery_enable, 1 c.enable_relaxed_ordering, 2 c.maximum_memory_read_byte_count.0,
        3 c.maximum_outstanding_split_transactions.0]);
    let t = &s.status;
    rs!(o, 0x04, [3 t.function_number, 5 t.device_number, 8 t.bus_number, 1 t.device_64_bit, 1 t.pci_x_133_capable, 1 t.slit_completion_discarded,
        1 t.unexpected_split_completion, 1 t.device_complexity, 2 t.designed_maximum_memory_read_byte_count.0,
        3 t.designed_maximum_outstanding_split_transactions.0, 3 t.designed_maximum_cumulative_read_size.0,
        1 t.received_split_completion_error_message, 1 t.pci_x_266_capable, 1 t.pci_x_533_capable]);
    for (bit, v) in [(0x02 * 8 + 2, &c.maximum_memory_read_byte_count), (0x06 * 8 + 5, &t.designed_maximum_memory_read_byte_count)] {
        o.eq("MaximumByteCount::value()", v.value() as u64, 512 << gb(b, bit, 2));
    }
    for (bit, v) in [(0x02 * 8 + 4, &c.maximum_outstanding_split_transactions), (0x06 * 8 + 7, &t.designed_maximum_outstanding_split_transactions)] {
        o.eq("MaximumOutstandingSplitTransactions::value()", v.value(), SPLITS[gb(b, bit, 3) as usize]);
    }
    let n = gb(b, 0x07 * 8 + 2, 3);
    o.eq("MaximumCumulativeReadSize::adqs()", t.designed_maximum_cumulative_read_size.adqs() as u64, 8 << n);
    o.eq("MaximumCumulativeReadSize::bytes()", t.designed_maximum_cumulative_read_size.bytes() as u64, 1024 << n);
    ecc(&s.ecc, 0x08, gb(b, 0x03 * 8 + 4, 2), o);
}

pub fn pci_x_bridge(s: &PciXBridge, b: &[u8], o: &mut Obs) {
    let c = &s.secondary_status;
    rs!(o, 0x02, [1 c.device_64_bit, 1 c.pci_x_133_capable, 1 c.slit_completion_discarded, 1 c.unexpected_split_completion,
        1 c.split_completion_overrun, 1 c.split_request_delayed, 8 _, 1 c.pci_x_266_capable, 1 c.pci_x_533_capable]);
    use px::{ErrorProtection as E, SecondaryBusFrequency as F, SecondaryBusMode as M};
    match c.secondary_bus_mode {
        M::Conventional => o.f("secondary_bus_mode", 0x02, 6, 4, 0),
        M::Mode1 => o.any("secondary_bus_mode", 0x02, 6, 4, &[1, 2, 3, 4, 5, 6, 7]),
        M::PciX266 => o.any("secondary_bus_mode", 0x02, 6, 4, &[8, 9, 10, 11]),
        M::PciX533 => o.any("secondary_bus_mode", 0x02, 6, 4, &[12, 13, 14, 15]),
    }
    match c.error_protection {
        E::Parity => o.any("error_protection", 0x02, 6, 4, &[0, 1, 2, 3]),
        E::Ecc => o.any("error_protection", 0x02, 6, 4, &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
    }
    match c.secondary_bus_frequency {
        F::NotAvailable => o.f("secondary_bus_frequency", 0x02, 6, 4, 0),
        F::Freq66MHz => o.any("secondary_bus_frequency", 0x02, 6, 4, &[1, 5, 9, 13]),
        F::Freq100MHz => o.any("secondary_bus_frequency", 0x02, 6, 4, &[2, 6, 10, 14]),
        F::Freq133MHz => o.any("secondary_bus_frequency", 0x02, 6, 4, &[3, 7, 11, 15]),
        F::Reserved => o.any("secondary_bus_frequency", 0x02, 6, 4, &[4, 8, 12]),
    }
    o.wb("secondary_bus_mode_and_frequency()", c.secondary_bus_mode_and_frequency() as u64, gb(b, 0x02 * 8 + 6, 4));
    let t = &s.bridge_status;
    rs!(o, 0x04, [3 t.function_number, 5 t.device_number, 8 t.bus_number, 1 t.device_64_bit, 1 t.pci_x_133_capable, 1 t.slit_completion_discarded,
        1 t.unexpected_split_completion, 1 t.split_completion_overrun, 1 t.split_request_delayed, 7 _, 1 t.device_id_messaging_capable,
        1 t.pci_x_266_capable, 1 t.pci_x_533_capable]);
    for (at, v) in [(0x08, &s.upstream_split_transaction_control), (0x0c, &s.downstream_split_transaction_control)] {
        rs!(o, at, [16 v.split_transaction_capacity, 16 v.split_transaction_commitment_limit]);
    }
    ecc(&s.ecc, 0x10, gb(b, 0x03 * 8 + 4, 2), o);
}

codes!(ht_m::LinkWidth { Self::Width8bits => 0, Self::Width16bits => 1, Self::Width32bits => 3, Self::Width2bits => 4, Self::Width4bits => 5, Self::NotConnected => 7; Reserved });

fn ht_link_control(c: &ht_m::LinkControl, at: usize, o: &mut Obs) {
    rs!(o, at, [1 c.source_id_enable, 1 c.crc_flood_enable, 1 c.crc_start_test, 1 c.crc_force_error, 1 c.link_failure, 1 c.initialization_complete,
        1 c.end_of_chain, 1 c.transmitter_off, 4 c.crc_error, 1 c.isochronous_flow_control_enable, 1 c.ldtstop_tristate_enable,
        1 c.extended_ctl_time, 1 c.enable_64_bit_addressing]);
}
fn ht_link_config(c: &ht_m::LinkConfiguration, at: usize, o: &mut Obs) {
    rs!(o, at, [3 c.max_link_width_in, 1 c.doubleword_flow_control_in, 3 c.max_link_width_out, 1 c.doubleword_flow_control_out,
        3 c.link_width_in, 1 c.doubleword_flow_control_in_enable, 3 c.link_width_out, 1 c.doubleword_flow_control_out_enable]);
}
fn ht_revision(c: &ht_m::RevisionId, at: usize, b: &[u8], o: &mut Obs) {
    rs!(o, at, [5 c.minor, 3 c.major]);
    o.wb("RevisionId -> u8", u8::from(c) as u64, gb(b, at as u32 * 8, 8));
}
fn ht_error(c: &ht_m::LinkError, at: usize, o: &mut Obs) {
    rs!(o, at, [4 _, 1 c.protocol_error, 1 c.overflow_error, 1 c.end_of_chain_error, 1 c.ctl_timeout]);
}
fn ht_freq(ext: bool, f: ht_m::LinkFrequency, raw: u64, o: &mut Obs) {
    const N: [&str; 16] = ["Rate200MHz", "Rate300MHz", "Rate400MHz", "Rate500MHz", "Rate600MHz", "Rate800MHz", "Rate1000MHz", "Rate1200MHz",
        "Rate1400MHz", "Rate1600MHz", "Rate1800MHz", "Rate2000MHz", "Rate2200MHz", "Rate2400MHz", "Rate2600MHz", "VendorSpecific"];
    let want = match (ext, raw) {
        (false, v) => N[v as usize & 15].to_string(),
        (true, 1) => "Rate2800MHz".into(),
        (true, 2) => "Rate3000MHz".into(),
        (true, 3) => "Rate3200MHz".into(),
        (true, v) => format!("Reserved({})", v | 16),
    };
    o.eq("link_freq()", format!("{:?}", f), want);
}
fn ht_freq_cap(c: &ht_m::LinkFrequencyCapability, at: usize, o: &mut Obs) {
    rs!(o, at, [1 c.supports_200mhz, 1 c.supports_300mhz, 1 c.supports_400mhz, 1 c.supports_500mhz, 1 c.supports_600mhz, 1 c.supports_800mhz,
        1 c.supports_1000mhz, 1 c.supports_1200mhz, 1 c.supports_1400mhz, 1 c.supports_1600mhz, 1 c.supports_1800mhz, 1 c.supports_2000mhz,
        1 c.supports_2200mhz, 1 c.supports_2400mhz, 1 c.supports_2600mhz, 1 c.supports_vendor_specific]);
}
fn ht_feature(c: &ht_m::FeatureCapability, at: usize, wide: bool, o: &mut Obs) {
    rs!(o, at, [1 c.isochronous_flow_control_mode, 1 c.ldtstop, 1 c.crc_test_mode, 1 c.extended_ctl_time_required, 1 c.qword_addressing,
        1 c.unitid_reorder_disable, 1 c.source_identification_extension]);
    if wide {
        rs!(o, at + 1, [1 c.extended_register_set, 1 c.upstream_configuration_enable]);
    } else {
        o.rule("feature (8 bits)", !c.extended_register_set && !c.upstream_configuration_enable, || "bits above the 8-bit register are set".into());
    }
}
fn ht_errh(c: &ht_m::ErrorHandling, at: usize, o: &mut Obs) {
    rs!(o, at, [1 c.protocol_error_flood_enable, 1 c.overflow_error_flood_enable, 1 c.protocol_error_fatal_enable, 1 c.overflow_error_fatal_enable,
        1 c.end_of_chain_error_fatal_enable, 1 c.response_error_fatal_enable, 1 c.crc_error_fatal_enable, 1 c.system_error_fatal_enable,
        1 c.chain_fail, 1 c.response_error, 1 c.protocol_error_nonfatal_enable, 1 c.overflow_error_nonfatal_enable,
        1 c.end_of_chain_error_nonfatal_enable, 1 c.response_error_nonfatal_enable, 1 c.crc_error_nonfatal_enable, 1 c.system_error_nonfatal_enable]);
}

pub fn ht(s: &Hypertransport, b: &[u8], o: &mut Obs) {
    use Hypertransport as H;
    let kind = gb(b, 0x03 * 8 + 3, 5);
    o.dep(0x03, 1);
    let want = match kind {
        0..=3 => 0,
        4..=7 => 4,
        v => v,
    };
    let code = match s {
        H::SlaveOrPrimaryInterface(v) => {
            let c = &v.command;
            rs!(o, 0x02, [5 c.base_unitid, 5 c.unit_count, 1 c.master_host, 1 c.default_direction, 1 c.drop_on_uninitialized_link]);
            ht_link_control(&v.link_control_0, 0x04, o);
            ht_link_config(&v.link_config_0, 0x06, o);
            ht_link_control(&v.link_control_1, 0x08, o);
            ht_link_config(&v.link_config_1, 0x0a, o);
            ht_revision(&v.revision_id, 0x0c, b, o);
            r!(o, v.link_freq_0, 0x0d, 0, 4);
            ht_error(&v.link_error_0, 0x0d, o);
            ht_freq_cap(&v.link_freq_cap_0, 0x0e, o);
            ht_feature(&v.feature, 0x10, false, o);
            r!(o, v.link_freq_1, 0x11, 0, 4);
            ht_error(&v.link_error_1, 0x11, o);
            ht_freq_cap(&v.link_freq_cap_1, 0x12, o);
            r!(o, v.enumeration_scratchpad, 0x14, 0, 16);
            ht_errh(&v.error_handling, 0x16, o);
            r!(o, v.mem_base_upper, 0x18, 0, 8);
            r!(o, v.mem_limit_upper, 0x19, 0, 8);
            r!(o, v.bus_number, 0x1a, 0, 8);
            for e in [false, true] {
                ht_freq(e, v.link_freq_0(e), gb(b, 0x0d * 8, 4), o);
                ht_freq(e, v.link_freq_1(e), gb(b, 0x11 * 8, 4), o);
            }
            0
        }
        H::HostOrSecondaryInterface(v) => {
            let c = &v.command;
            rs!(o, 0x02, [1 c.warm_reset, 1 c.double_ended, 5 c.device_number, 1 c.chain_side, 1 c.host_hide, 1 _, 1 c.act_as_slave,
                1 c.host_inbound_end_of_chain_error, 1 c.drop_on_uninitialized_link]);
            ht_link_control(&v.link_control, 0x04, o);
            ht_link_config(&v.link_config, 0x06, o);
            ht_revision(&v.revision_id, 0x08, b, o);
            r!(o, v.link_freq, 0x09, 0, 4);
            ht_error(&v.link_error, 0x09, o);
            ht_freq_cap(&v.link_freq_cap, 0x0a, o);
            ht_feature(&v.feature, 0x0c, true, o);
            r!(o, v.enumeration_scratchpad, 0x10, 0, 16);
            ht_errh(&v.error_handling, 0x12, o);
            r!(o, v.mem_base_upper, 0x14, 0, 8);
            r!(o, v.mem_limit_upper, 0x15, 0, 8);
            for e in [false, true] {
                ht_freq(e, v.link_freq(e), gb(b, 0x09 * 8, 4), o);
            }
            4
        }
        H::Switch(_) => 8,
        H::ReservedHost(_) => 9,
        H::InterruptDiscoveryAndConfiguration(_) => 0x10,
        H::RevisionId(v) => {
            ht_revision(v, 0x02, b, o);
            0x11
        }
        H::UnitIdClumping(_) => 0x12,
        H::ExtendedConfigurationSpaceAccess(_) => 0x13,
        H::AddressMapping(_) => 0x14,
        H::MsiMapping(v) => {
            rs!(o, 0x02, [1 v.enabled, 1 v.fixed]);
            r!(o, v.base_address_lower, 0x04, 0, 32);
            r!(o, v.base_address_upper, 0x08, 0, 32);
            o.eq("MsiMapping::base_address()", v.base_address(), gb(b, 0x04 * 8, 64) >> 20 << 20);
            0x15
        }
        H::DirectRoute(_) => 0x16,
        H::VCSet(_) => 0x17,
        H::RetryMode(_) => 0x18,
        H::X86Encoding(_) => 0x19,
        H::Gen3(_) => 0x1a,
        H::FunctionLevelExtension(_) => 0x1b,
        H::PowerManagement(_) => 0x1c,
        H::HighNodeCount(_) => 0x1d,
        H::Reserved(v) => {
            o.rule("Hypertransport::Reserved", matches!(v, 0x0a..=0x0f | 0x1e | 0x1f), || format!("type {:#x} reported reserved", v));
            *v as u64
        }
    };
    o.eq("Hypertransport capability type", code, want);
    o.wb("Hypertransport -> u8", u8::from(s) as u64, want);
}

pub fn vendor(s: &VendorSpecific, b: &[u8], ids: (u16, u16), o: &mut Obs) {
    let len = gb(b, 0x02 * 8, 8) as usize;
    let virtio = ids.0 == 0x1af4 && (0x1000..=0x107f).contains(&ids.1);
    o.dep(0x02, 1);
    match s {
        VendorSpecific::Unspecified(x) => {
            o.rule("vendor specific kind", !virtio, || "virtio structure reported as unspecified".into());
            o.tab(0);
            o.blob("vendor specific data", 0x03, x);
            o.eq("vendor specific length", x.len(), len.wrapping_sub(3));
            o.reg();
        }
        VendorSpecific::Virtio(v) => {
            use vs_m::Virtio as V;
            o.rule("vendor specific kind", virtio, || format!("device {:x?} reported as virtio", ids));
            let kind = gb(b, 0x03 * 8, 8);
            let (code, bar, off, size) = match v {
                V::CommonCfg { bar, offset, size } => (1, bar, offset, size),
                V::Notify { bar, offset, size, multiplier } => {
                    // within the declared length
                    o.eq("virtio multiplier present", multiplier.is_some(), len >= 0x14);
                    if let Some(m) = multiplier {
                        o.f("virtio multiplier", 0x10, 0, 32, *m as u64);
                    }
                    (2, bar, offset, size)
                }
                V::Isr { bar, offset, size } => (3, bar, offset, size),
                V::DeviceCfg { bar, offset, size } => (4, bar, offset, size),
                V::Unknown { bar, offset, size } => {
                    o.rule("virtio type", !(1..=4).contains(&kind), || format!("type {} reported unknown", kind));
                    (0, bar, offset, size)
                }
            };
            // an unknown type's own code is not reported
            match code {
                0 => o.dep(0x03, 1),
                code => o.f("virtio cfg type", 0x03, 0, 8, code),
            }
            o.f("virtio bar", 0x04, 0, 8, *bar as u64);
            o.f("virtio offset", 0x08, 0, 32, *off as u64);
            o.f("virtio size", 0x0c, 0, 32, *size as u64);
        }
    }
}

pub fn debug_port(s: &DebugPort, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [13 s.offset, 3 s.bar_number]);
}

pub fn bridge_ssid(s: &BridgeSubsystemVendorId, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [16 s.reserved, 16 s.subsystem_vendor_id, 16 s.subsystem_id]);
}

codes!(sata_m::BarLocation { Self::Bar0 => 4, Self::Bar1 => 5, Self::Bar2 => 6, Self::Bar3 => 7, Self::Bar4 => 8, Self::Bar5 => 9, Self::SataCapability1 => 15; Reserved });

pub fn sata(s: &Sata, b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [4 s.revision.minor, 4 s.revision.major]);
    rs!(o, 0x04, [4 s.bar_location, 20 s.bar_offset.0]);
    o.eq("BarOffset::value()", s.bar_offset.value() as u64, gb(b, 0x04 * 8 + 4, 20) * 4);
}

codes!(msix_m::Bir { Self::Bar10h => 0, Self::Bar14h => 1, Self::Bar18h => 2, Self::Bar1Ch => 3, Self::Bar20h => 4, Self::Bar24h => 5; Reserved });

pub fn msix(s: &MsiX, _b: &[u8], o: &mut Obs) {
    let c = &s.message_control;
    rs!(o, 0x02, [11 c.table_size, 3 _, 1 c.function_mask, 1 c.msi_x_enable]);
    r!(o, s.table.bir, 0x04, 0, 3);
    r!(o, s.table.offset, 0x04, 3, 29, << 3);
    r!(o, s.pending_bit_array.bir, 0x08, 0, 3);
    r!(o, s.pending_bit_array.offset, 0x08, 3, 29, << 3);
}

pub fn af(s: &AdvancedFeatures, _b: &[u8], o: &mut Obs) {
    r!(o, s.length, 0x02, 0, 8);
    rs!(o, 0x03, [1 s.capabilities.transactions_pending, 1 s.capabilities.function_level_reset]);
    r!(o, s.control.initiate_flr, 0x04, 0, 1);
    r!(o, s.status.transactions_pending, 0x05, 0, 1);
}

codes!(ea_m::BarEquivalentIndicator { Self::Location10h => 0, Self::Location14h => 1, Self::Location18h => 2, Self::Location1Ch => 3, Self::Location20h => 4,
    Self::Location24h => 5, Self::BehindType1Function => 6, Self::EquivalentNotIndicated => 7, Self::ExpansionRomBaseAddress => 8, Self::VfBar0 => 9,
    Self::VfBar1 => 10, Self::VfBar2 => 11, Self::VfBar3 => 12, Self::VfBar4 => 13, Self::VfBar5 => 14, Self::Reserved => 15 });
codes!(ea_m::ResourceDefinition { Self::MemorySpaceNonPrefetchable => 0, Self::MemorySpacePrefetchable => 1, Self::IoSpace => 2,
    Self::PfForVfMemorySpacePrefetchable => 3, Self::PfForVfMemorySpaceNonPrefetchable => 4, Self::Type1ForAbbMemoryNonPrefetchable => 5,
    Self::Type1ForAbbMemoryPrefetchable => 6, Self::Type1ForAbbIoSpace => 7, Self::Reserved(v) => if (8..=0xfc).contains(v) { *v as u64 } else { u64::MAX },
    Self::UnavailableMemorySpace => 0xfd, Self::UnavailableIoSpace => 0xfe, Self::Unavailable => 0xff });

/// Start offsets of the entries an Enhanced Allocation capability declares and the capture holds.
pub fn ea_entries(b: &[u8], bridge: bool) -> Vec<usize> {
    let n = gb(b, 0x02 * 8, 6) as usize;
    let mut at = if bridge { 8 } else { 4 };
    let mut v = Vec::new();
    for _ in 0..n {
        let Some(w) = get_bits(b, at as u32 * 8, 32) else { break };
        let (Some(base), Some(max)) = (get_bits(b, at as u32 * 8 + 32, 32), get_bits(b, at as u32 * 8 + 64, 32)) else { break };
        let real = 12 + 4 * (base >> 1 & 1) as usize + 4 * (max >> 1 & 1) as usize;
        if b.len() < at + real {
            break;
        }
        v.push(at);
        at += if cfg!(feature = "ea_real") { real } else { 4 * ((w & 7) as usize + 1) };
    }
    v
}

pub fn ea(s: &EnhancedAllocation, b: &[u8], bridge: bool, o: &mut Obs) {
    r!(o, s.num_entries, 0x02, 0, 6);
    o.eq("type_1_second_dw present", s.type_1_second_dw.is_some(), bridge);
    if let Some(d) = &s.type_1_second_dw {
        r!(o, d.fixed_secondary_bus_number, 0x04, 0, 8);
        r!(o, d.fixed_subordinate_bus_number, 0x05, 0, 8);
    }
    let starts = ea_entries(b, bridge);
    let v = o.drain("enhanced allocation entries", s.entries.clone(), 63);
    o.tab(0);
    o.eq("enhanced allocation entries.count", v.len(), starts.len());
    for (i, (e, &at)) in v.iter().zip(&starts).enumerate() {
        o.tab(i);
        rs!(o, at, [3 e.entry_size, 1 _, 4 e.bar_equivalent_indicator, 8 e.primary_properties, 8 e.secondary_properties, 6 _, 1 e.writable, 1 e.enable]);
        let (bl, ml) = (gb(b, at as u32 * 8 + 32, 32), gb(b, at as u32 * 8 + 64, 32));
        let (b64, m64) = (bl & 2 != 0, ml & 2 != 0);
        let mut next = at + 12;
        o.dep(at, 12 + 4 * b64 as usize + 4 * m64 as usize);
        let mut want = |lo: u64, wide: bool| -> u64 {
            if wide {
                let h = gb(b, next as u32 * 8, 32);
                next += 4;
                h << 32 | lo
            } else {
                lo
            }
        };
        let (wb, wm) = (want(bl & !3, b64), want(ml | 3, m64));
        for (name, got, wide, val) in [("base", &e.base, b64, wb), ("max_offset", &e.max_offset, m64, wm)] {
            let (w, v) = match got {
                ea_m::ResourceRangeAddress::U32(v) => (false, *v as u64),
                ea_m::ResourceRangeAddress::U64(v) => (true, *v),
            };
            o.eq(name, (w, v), (wide, val));
        }
    }
    o.reg();
}

codes!(fpb_m::FpbRidVectorSizeSupported { Self::Size256bits => 0, Self::Size1Kbits => 2, Self::Size8kbits => 5; Reserved });
codes!(fpb_m::FpbMemLowVectorSizeSupported { Self::Size256bits => 0, Self::Size512bits => 1, Self::Size1Kbits => 2, Self::Size2Kbits => 3, Self::Size4Kbits => 4; Reserved });
codes!(fpb_m::FpbMemHighVectorSizeSupported { Self::Size256bits => 0, Self::Size512bits => 1, Self::Size1Kbits => 2, Self::Size2Kbits => 3, Self::Size4Kbits => 4, Self::Size8Kbits => 5; Reserved });
codes!(fpb_m::FpbRidVectorGranularity { Self::Granularity8RIDs => 0, Self::Granularity64RIDs => 3, Self::Granularity256RIDs => 5; Reserved });
codes!(fpb_m::FpbMemLowVectorGranularity { Self::Granularity1MB => 0, Self::Granularity2MB => 1, Self::Granularity4MB => 2, Self::Granularity8MB => 3, Self::Granularity16MB => 4; Reserved });
codes!(fpb_m::FpbMemHighVectorGranularity { Self::Granularity256MB => 0, Self::Granularity512MB => 1, Self::Granularity1GB => 2, Self::Granularity2GB => 3,
    Self::Granularity4GB => 4, Self::Granularity8GB => 5, Self::Granularity16GB => 6, Self::Granularity32GB => 7; Reserved });
codes!(fpb_m::FpbVectorSelect { Self::Rid => 0, Self::MemLow => 1, Self::MemHigh => 2, Self::Reserved => 3 });

pub fn fpb(s: &FlatteningPortalBridge, b: &[u8], o: &mut Obs) {
    r!(o, s.reserved, 0x02, 0, 16);
    let c = &s.fpb_capabilities;
    rs!(o, 0x04, [1 c.fpb_rid_decode_mechanism_supported, 1 c.fpb_mem_low_decode_mechanism_supported, 1 c.fpb_mem_high_decode_mechanism_supported,
        5 c.fpb_num_sec_dev, 3 c.fpb_rid_vector_size_supported, 5 _, 3 c.fpb_mem_low_vector_size_supported, 5 _, 3 c.fpb_mem_high_vector_size_supported]);
    let c = &s.fpb_rid_vector_control;
    rs!(o, 0x08, [1 c.fpb_rid_decode_mechanism_enable, 3 _, 4 c.fpb_rid_vector_granularity]);
    r!(o, c.rid_secondary_start, 0x0c, 3, 13);
    o.dep(0x08, 4);
    // defined granularities only: the others are reserved encodings with no defined start alignment
    let (g, raw) = (gb(b, 0x08 * 8 + 4, 4), gb(b, 0x08 * 8 + 19, 13) << 3);
    if matches!(g, 0 | 3 | 5) {
        o.eq("fpb_rid_vector_start", c.fpb_rid_vector_start as u64, raw >> (3 + g) << (3 + g));
    }
    let c = &s.fpb_mem_low_vector_control;
    rs!(o, 0x10, [1 c.fpb_mem_low_decode_mechanism_enable, 3 _, 4 c.fpb_mem_low_vector_granularity]);
    o.dep(0x10, 4);
    let (g, raw) = (gb(b, 0x10 * 8 + 4, 4), gb(b, 0x10 * 8 + 20, 12) << 20);
    if g <= 4 {
        o.eq("fpb_mem_low_vector_start", c.fpb_mem_low_vector_start as u64, raw >> (20 + g) << (20 + g));
    }
    let c = &s.fpb_mem_high_vector_control;
    rs!(o, 0x14, [1 c.fpb_mem_high_decode_mechanism_enable, 3 _, 4 c.fpb_mem_high_vector_granularity]);
    o.dep(0x14, 8);
    let (g, raw) = (gb(b, 0x14 * 8 + 4, 4), gb(b, 0x14 * 8 + 28, 4) << 28 | gb(b, 0x18 * 8, 32) << 32);
    if g <= 7 {
        o.eq("fpb_mem_high_vector_start", c.fpb_mem_high_vector_start, raw >> (28 + g) << (28 + g));
    }
    let c = &s.fpb_vector_access_control;
    rs!(o, 0x1c, [8 c.fpb_vector_access_offset, 6 _, 2 c.fpb_vector_select]);
    r!(o, s.fpb_vector_access_data, 0x20, 0, 32);
}

codes!(pe::MaxSize { Self::B128 => 0, Self::B256 => 1, Self::B512 => 2, Self::B1024 => 3, Self::B2048 => 4, Self::B4096 => 5, Self::Reserved0 => 6, Self::Reserved1 => 7 });
codes!(pe::PhantomFunctionsSupported { Self::NoBits => 0, Self::MostSignificantBit => 1, Self::TwoMostSignificantBits => 2, Self::AllBits => 3 });
codes!(pe::ExtendedTagFieldSupported { Self::Five => 0, Self::Eight => 1 });
codes!(pe::EndpointL0sAcceptableLatency { Self::Max64ns => 0, Self::Max128ns => 1, Self::Max256ns => 2, Self::Max512ns => 3, Self::Max1us => 4, Self::Max2us => 5, Self::Max4us => 6, Self::NoLimit => 7 });
codes!(pe::EndpointL1AcceptableLatency { Self::Max1us => 0, Self::Max2us => 1, Self::Max4us => 2, Self::Max8us => 3, Self::Max16us => 4, Self::Max32us => 5, Self::Max64us => 6, Self::NoLimit => 7 });
codes!(pe::LinkSpeed { Self::Rate2GTps => 1, Self::Rate5GTps => 2, Self::Rate8GTps => 3, Self::Rate16GTps => 4, Self::Rate32GTps => 5, Self::Rate64GTps => 6, Self::RateRsvdp => 7; Reserved });
codes!(pe::LinkWidth { Self::X1 => 1, Self::X2 => 2, Self::X4 => 4, Self::X8 => 8, Self::X12 => 12, Self::X16 => 16, Self::X32 => 32; Reserved });
codes!(pe::ActiveStatePowerManagement { Self::NoAspm => 0, Self::L0s => 1, Self::L1 => 2, Self::L0sAndL1 => 3 });
codes!(pe::L0sExitLatency { Self::Lt64ns => 0, Self::Ge64nsAndLt128ns => 1, Self::Ge128nsAndLt256ns => 2, Self::Ge256nsAndLt512ns => 3, Self::Ge512nsAndLt1us => 4, Self::Ge1usAndLt2us => 5, Self::Ge2usAndLt4us => 6, Self::Gt4ns => 7 });
codes!(pe::L1ExitLatency { Self::Lt1us => 0, Self::Ge1usAndLt2us => 1, Self::Ge2usAndLt4us => 2, Self::Ge4usAndLt8us => 3, Self::Ge8usAndLt16us => 4, Self::Ge16usAndLt32us => 5, Self::Ge32usAndLt64us => 6, Self::Gt64ns => 7 });
codes!(pe::ReadCompletionBoundary { Self::B64 => 0, Self::B128 => 1 });
codes!(pe::IndicatorControl { Self::Reserved => 0, Self::On => 1, Self::Blink => 2, Self::Off => 3 });
codes!(pe::CompletionTimeoutRanges { Self::NotSupported => 0, Self::RangeA => 1, Self::RangeB => 2, Self::RangesAB => 3, Self::RangesBC => 6, Self::RangesABC => 7, Self::RangesBCD => 14, Self::RangesABCD => 15; Reserved });
codes!(pe::TphCompleter { Self::NotSupported => 0, Self::Tph => 1, Self::Reserved => 2, Self::TphAndExtendedTph => 3 });
codes!(pe::LnSystemCls { Self::NotSupported => 0, Self::Cachelines64Byte => 1, Self::Cachelines128Byte => 2, Self::Reserved => 3 });
codes!(pe::Obff { Self::NotSupported => 0, Self::Message => 1, Self::Wake => 2, Self::WakeAndMessage => 3 });
codes!(pe::MaxEndEndTlpPrefixes { Self::Max4 => 0, Self::Max1 => 1, Self::Max2 => 2, Self::Max3 => 3 });
codes!(pe::EmergencyPowerReduction { Self::NotSupported => 0, Self::DeviceSpecific => 1, Self::FormFactorOrDeviceSpecific => 2, Self::Reserved => 3 });
codes!(pe::CompletionTimeoutValue { Self::DefaultRange50usTo50ms => 0, Self::RangeA50usTo100us => 1, Self::RangeA1msTo10ms => 2, Self::RangeB16msTo55mss => 5, Self::RangeB65msTo210ms => 6,
    Self::RangeC260msTo900ms => 9, Self::RangeC1000msTo3500ms => 10, Self::RangeD4sTo13s => 13, Self::RangeD17sTo64s => 14; Reserved });
codes!(pe::ObffEnable { Self::Disabled => 0, Self::MessageSignalingA => 1, Self::MessageSignalingB => 2, Self::WakeSignaling => 3 });
codes!(pe::EndEndTlpPrefixBlocking { Self::ForwardingEnabled => 0, Self::ForwardingBlocked => 1 });
codes!(pe::DeEmphasis { Self::Minus6dB => 0, Self::Minus3_5dB => 1 });
codes!(pe::CrosslinkResolution { Self::NotSupported => 0, Self::UpstreamPort => 1, Self::DownstreamPort => 2, Self::NotCompleted => 3 });
codes!(pe::DownstreamComponentPresence { Self::DownNotDetermined => 0, Self::DownNotPresent => 1, Self::DownPresent => 2, Self::UpPresent => 4, Self::UpPresentAndDrsReceived => 5; Reserved });

pub fn speeds(v: &pe::SupportedLinkSpeedsVector, at: usize, lo: u32, o: &mut Obs) {
    for (i, x) in [v.speed_2_5_gtps, v.speed_5_0_gtps, v.speed_8_0_gtps, v.speed_16_0_gtps, v.speed_32_0_gtps, v.speed_64_0_gtps, v.reserved].iter().enumerate() {
        o.f("supported_link_speeds_vector", at, lo + i as u32, 1, *x as u64);
    }
}

fn power_limit(v: &pe::SlotPowerLimit, at: usize, lo: u32, b: &[u8], o: &mut Obs) {
    o.f("slot power limit value", at, lo, 8, v.value as u64);
    let bit = at as u32 * 8 + lo;
    let (raw, sc) = (gb(b, bit, 8), [1.0f32, 0.1, 0.01, 0.001][gb(b, bit + 8, 2) as usize]);
    o.dep((bit / 8) as usize, 3);
    let close = |a: f32, e: f32| (a - e).abs() <= e.abs() * 1e-5;
    o.rule("slot power limit scale", close(v.scale, sc), || format!("scale {}", v.scale));
    o.rule("slot power limit in watts", close(f32::from(v), sc * raw as f32), || format!("{} W", f32::from(v)));
    o.rule("slot power limit in watts", close(f32::from(v.clone()), sc * raw as f32), || format!("{} W", f32::from(v.clone())));
}

fn pe_link(l: &pe::Link, l2: Option<&pe::Link2>, v2: bool, b: &[u8], o: &mut Obs) {
    let c = &l.capabilities;
    rs!(o, 0x0c, [4 c.max_link_speed, 6 c.maximum_link_width, 2 c.active_state_power_management_support, 3 c.l0s_exit_latency, 3 c.l1_exit_latency,
        1 c.clock_power_management, 1 c.surprise_down_error_reporting_capable, 1 c.data_link_layer_link_active_reporting_capable,
        1 c.link_bandwidth_notification_capability, 1 c.aspm_optionality_compliance, 1 _, 8 c.port_number]);
    let d = &l.control;
    rs!(o, 0x10, [2 d.active_state_power_management_control, 1 _, 1 d.read_completion_boundary, 1 d.link_disable, 1 d.retrain_link,
        1 d.common_clock_configuration, 1 d.extended_synch, 1 d.enable_clock_power_management, 1 d.hardware_autonomous_width_disable,
        1 d.link_bandwidth_management_interrupt_enable, 1 d.link_autonomous_bandwidth_interrupt_enable]);
    o.eq("read completion boundary in bytes", d.read_completion_boundary as u32, if gb(b, 0x10 * 8 + 3, 1) == 1 { 128 } else { 64 });
    let e = &l.status;
    rs!(o, 0x12, [4 e.current_link_speed, 6 e.negotiated_link_width, 1 e.link_training_error, 1 e.link_training, 1 e.slot_clock_configuration,
        1 e.data_link_layer_link_active, 1 e.link_bandwidth_management_status, 1 e.link_autonomous_bandwidth_status]);
    o.wb("LinkSpeed -> u8", u8::from(c.max_link_speed.clone()) as u64, gb(b, 0x0c * 8, 4));
    o.wb("LinkSpeed -> u8", u8::from(e.current_link_speed.clone()) as u64, gb(b, 0x12 * 8, 4));
    o.wb("LinkWidth -> u8", u8::from(c.maximum_link_width.clone()) as u64, gb(b, 0x0c * 8 + 4, 6));
    o.wb("LinkWidth -> u8", u8::from(e.negotiated_link_width.clone()) as u64, gb(b, 0x12 * 8 + 4, 6));
    o.eq("link_2 present", l2.is_some(), v2 && b.len() >= 0x34);
    if let Some(l) = l2 {
        let c = &l.capabilities;
        speeds(&c.supported_link_speeds_vector, 0x2c, 1, o);
        r!(o, c.crosslink_supported, 0x2d, 0, 1);
        speeds(&c.lower_skp_os_generation_supported_speeds_vector, 0x2c, 9, o);
        speeds(&c.lower_skp_os_reception_supported_speeds_vector, 0x2c, 16, o);
        rs!(o, 0x2c, [16 _, 7 _, 1 c.retimer_presence_detect_supported, 1 c.two_retimers_presence_detect_supported, 6 _, 1 c.drs_supported]);
        let d = &l.control;
        rs!(o, 0x30, [4 d.target_link_speed, 1 d.enter_compliance, 1 d.hardware_autonomous_speed_disable, 1 d.selectable_de_emphasis,
            3 d.transmit_margin.0, 1 d.enter_modified_compliance, 1 d.compliance_sos, 4 d.compliance_preset_or_de_emphasis.0]);
        let e = &l.status;
        rs!(o, 0x32, [1 e.current_de_emphasis_level, 1 e.equalization_complete, 1 e.equalization_phase_1_successful, 1 e.equalization_phase_2_successful,
            1 e.equalization_phase_3_successful, 1 e.link_equalization_request, 1 e.retimer_presence_detected, 1 e.two_retimers_presence_detected,
            2 e.crosslink_resolution, 2 _, 3 e.downstream_component_presence, 1 e.drs_message_received]);
        o.wb("LinkSpeed -> u8", u8::from(d.target_link_speed.clone()) as u64, gb(b, 0x30 * 8, 4));
    }
}

fn pe_slot(s: &pe::Slot, s2: Option<&pe::Slot2>, v2: bool, b: &[u8], o: &mut Obs) {
    let c = &s.capabilities;
    rs!(o, 0x14, [1 c.attention_button_present, 1 c.power_controller_present, 1 c.mrl_sensor_present, 1 c.attention_indicator_present,
        1 c.power_indicator_present, 1 c.hot_plug_surprise, 1 c.hot_plug_capable, 10 _, 1 c.electromechanical_interlock_present,
        1 c.no_command_completed_support, 13 c.physical_slot_number]);
    power_limit(&c.slot_power_limit, 0x14, 7, b, o);
    let d = &s.control;
    rs!(o, 0x18, [1 d.attention_button_pressed_enable, 1 d.power_fault_detected_enable, 1 d.mrl_sensor_changed_enable, 1 d.presence_detect_changed_enable,
        1 d.command_completed_interrupt_enable, 1 d.hot_plug_interrupt_enable, 2 d.attention_indicator_control, 2 d.power_indicator_control,
        1 d.power_controller_control, 1 d.electromechanical_interlock_control, 1 d.data_link_layer_state_changed_enable]);
    let e = &s.status;
    rs!(o, 0x1a, [1 e.attention_button_pressed, 1 e.power_fault_detected, 1 e.mrl_sensor_changed, 1 e.presence_detect_changed, 1 e.command_completed,
        1 e.mrl_sensor_state, 1 e.presence_detect_state, 1 e.electromechanical_interlock_status, 1 e.data_link_layer_state_changed]);
    o.eq("slot_2 present", s2.is_some(), v2 && b.len() >= 0x3c);
}

fn pe_root(s: &pe::Root, o: &mut Obs) {
    let c = &s.control;
    rs!(o, 0x1c, [1 c.system_error_on_correctable_error_enable, 1 c.system_error_on_non_fatal_error_enable, 1 c.system_error_on_fatal_error_enable,
        1 c.pme_interrupt_enable, 1 c.crs_software_visibility_enable]);
    r!(o, s.capabilities.crs_software_visibility, 0x1e, 0, 1);
    rs!(o, 0x20, [16 s.status.pme_requester_id, 1 s.status.pme_status, 1 s.status.pme_pending]);
}

pub fn pcie(s: &PciExpress, b: &[u8], o: &mut Obs) {
    rs!(o, 0x02, [4 s.version, 4 _, 1 s.slot_implemented, 5 s.interrupt_message_number, 1 s.tcs_routing_support]);
    let c = &s.device.capabilities;
    rs!(o, 0x04, [3 c.max_payload_size_supported, 2 c.phantom_functions_supported, 1 c.extended_tag_field_supported, 3 c.endpoint_l0s_acceptable_latency,
        3 c.endpoint_l1_acceptable_latency, 1 c.attention_button_present, 1 c.attention_indicator_present, 1 c.power_indicator_present,
        1 c.role_based_error_reporting, 12 _, 1 c.function_level_reset_capability]);
    power_limit(&c.captured_slot_power_limit, 0x04, 18, b, o);
    let c = &s.device.control;
    rs!(o, 0x08, [1 c.correctable_error_reporting_enable, 1 c.non_fatal_error_reporting_enable, 1 c.fatal_error_reporting_enable,
        1 c.unsupported_request_reporting_enable, 1 c.enable_relaxed_ordering, 3 c.max_payload_size, 1 c.extended_tag_field_enable,
        1 c.phantom_functions_enable, 1 c.aux_power_pm_enable, 1 c.enable_no_snoop, 3 c.max_read_request_size, 1 c.bcre_or_flreset]);
    let c = &s.device.status;
    rs!(o, 0x0a, [1 c.correctable_error_detected, 1 c.non_fatal_error_detected, 1 c.fatal_error_detected, 1 c.unsupported_request_detected,
        1 c.aux_power_detected, 1 c.transactions_pending]);
    let v2 = gb(b, 0x02 * 8, 4) > 1;
    o.eq("device_2 present", s.device_2.is_some(), v2 && b.len() >= 0x2c);
    if let Some(d) = &s.device_2 {
        let c = &d.capabilities;
        rs!(o, 0x24, [4 c.completion_timeout_ranges_supported, 1 c.completion_timeout_disable_supported, 1 c.ari_forwarding_supported,
            1 c.atomic_op_routing_supported, 1 c.u32_atomicop_completer_supported, 1 c.u64_atomicop_completer_supported, 1 c.u128_cas_completer_supported,
            1 c.no_ro_enabled_pr_pr_passing, 1 c.ltr_mechanism_supported, 2 c.tph_completer_supported, 2 c.ln_system_cls,
            1 c.support_10bit_tag_completer, 1 c.support_10bit_tag_requester, 2 c.obff_supported, 1 c.extended_fmt_field_supported,
            1 c.end_end_tlp_prefix_supported, 2 c.max_end_end_tlp_prefixes, 2 c.emergency_power_reduction_supported,
            1 c.emergency_power_reduction_initialization_required, 4 _, 1 c.frs_supported]);
        let e = &d.control;
        rs!(o, 0x28, [4 e.completion_timeout_value, 1 e.completion_timeout_disable, 1 e.ari_forwarding_enable, 1 e.atomic_op_requester_enable,
            1 e.atomic_op_egress_blocking, 1 e.ido_request_enable, 1 e.ido_completion_enable, 1 e.ltr_mechanism_enable,
            1 e.emergency_power_reduction_request, 1 e.enable_10bit_tag_requester, 2 e.obff_enable, 1 e.end_end_tlp_prefix_blocking]);
        let g = |lo: u32, w: u32| gb(b, 0x24 * 8 + lo, w);
        o.wb("CompletionTimeoutRanges -> u8", u8::from(c.completion_timeout_ranges_supported.clone()) as u64, g(0, 4));
        o.wb("TphCompleter -> u8", u8::from(c.tph_completer_supported.clone()) as u64, g(12, 2));
        o.wb("LnSystemCls -> u8", u8::from(c.ln_system_cls.clone()) as u64, g(14, 2));
        o.wb("Obff -> u8", u8::from(c.obff_supported.clone()) as u64, g(18, 2));
        o.wb("MaxEndEndTlpPrefixes -> u8", u8::from(c.max_end_end_tlp_prefixes.clone()) as u64, g(22, 2));
        o.wb("EmergencyPowerReduction -> u8", u8::from(c.emergency_power_reduction_supported.clone()) as u64, g(24, 2));
        o.wb("CompletionTimeoutValue -> u8", u8::from(e.completion_timeout_value.clone()) as u64, g(32, 4));
        o.wb("ObffEnable -> u8", u8::from(e.obff_enable.clone()) as u64, g(45, 2));
        o.wb("EndEndTlpPrefixBlocking -> bool", bool::from(e.end_end_tlp_prefix_blocking.clone()) as u64, g(47, 1));
    }
    use pe::DeviceType as T;
    let t = gb(b, 0x02 * 8 + 4, 4);
    let code = match &s.device_type {
        T::Endpoint { link, link_2 } => { pe_link(link, link_2.as_ref(), v2, b, o); 0 }
        T::LegacyEndpoint { link, link_2 } => { pe_link(link, link_2.as_ref(), v2, b, o); 1 }
        T::RootComplexIntegratedEndpoint => 9,
        T::RootComplexEventCollector { root } => { pe_root(root, o); 10 }
        T::RootPort { link, link_2, slot, slot_2, root } => {
            pe_link(link, link_2.as_ref(), v2, b, o);
            pe_slot(slot, slot_2.as_ref(), v2, b, o);
            pe_root(root, o);
            4
        }
        T::UpstreamPort { link, link_2 } => { pe_link(link, link_2.as_ref(), v2, b, o); 5 }
        T::DownstreamPort { link, link_2, slot, slot_2 } => {
            pe_link(link, link_2.as_ref(), v2, b, o);
            pe_slot(slot, slot_2.as_ref(), v2, b, o);
            6
        }
        T::PcieToPciBridge { link, link_2 } => { pe_link(link, link_2.as_ref(), v2, b, o); 7 }
        T::PciToPcieBridge { link, link_2, slot, slot_2 } => {
            pe_link(link, link_2.as_ref(), v2, b, o);
            pe_slot(slot, slot_2.as_ref(), v2, b, o);
            8
        }
        T::Reserved { id, link, link_2, slot, slot_2, root } => {
            o.rule("reserved device type", matches!(t, 2 | 3 | 11..=15), || format!("type {} reported reserved", t));
            pe_link(link, link_2.as_ref(), v2, b, o);
            pe_slot(slot, slot_2.as_ref(), v2, b, o);
            o.eq("root present", root.is_some(), b.len() >= 0x24);
            if let Some(x) = root {
                pe_root(x, o);
            }
            *id as u64
        }
    };
    o.f("device_type", 0x02, 4, 4, code);
    let d = &s.device_type;
    o.eq("is_endpoint()", d.is_endpoint(), matches!(t, 0 | 1 | 9));
    o.eq("is_root()", d.is_root(), matches!(t, 4 | 10));
    o.eq("is_downstream_port()", d.is_downstream_port(), matches!(t, 4 | 6 | 8));
}
