//! Reference register maps of the extended capabilities (first part). Offsets are relative to the
//! capability header, as in the PCI Express and CXL specifications.
use crate::obs::{get_bits, Obs};
use pcics::capabilities::pci_express::LinkWidth;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::{
    compute_express_link::{pcie_dvsec_for_cxl_device as cxl, ComputeExpressLink},
    DesignatedVendorSpecificExtendedCapability as Dvsec, DvsecType,
};
use pcics::extended_capabilities::*;

pub fn rcrb(s: &RootComplexRegisterBlockHeader, _b: &[u8], o: &mut Obs) {
    r!(o, s.vendor_id, 0x04, 0, 16);
    r!(o, s.device_id, 0x06, 0, 16);
    r!(o, s.rcrb_capabilities.crs_software_visibility, 0x08, 0, 1);
    r!(o, s.rcrb_control.crs_software_visibility_enable, 0x0c, 0, 1);
}

pub fn vsec(s: &VendorSpecificExtendedCapability, b: &[u8], o: &mut Obs) {
    use vendor_specific_extended_capability::VsecRegisters as R;
    rs!(o, 0x04, [16 s.header.vsec_id, 4 s.header.vsec_rev, 12 s.header.vsec_length]);
    let len = get_bits(b, 0x04 * 8 + 20, 12).unwrap_or(0) as usize;
    o.tab(0);
    let (want, got): (&str, &str) = (
        if len < 8 { "InvalidLength" } else if b.len() >= len { "Valid" } else { "Incomplete" },
        match &s.registers {
            R::Valid(x) => {
                o.blob("vsec.registers", 8, x);
                o.eq("vsec.registers.len", x.len(), len.wrapping_sub(8));
                "Valid"
            }
            R::Incomplete(x) => {
                o.blob("vsec.registers", 8, x);
                o.eq("vsec.registers.len", x.len(), b.len() - 8);
                "Incomplete"
            }
            R::InvalidLength(v) => {
                o.eq("vsec.registers.invalid_length", *v as usize, len);
                "InvalidLength"
            }
        },
    );
    o.eq("vsec.registers", got, want);
    o.reg();
}

pub fn cac(s: &ConfigurationAccessCorrelation, _b: &[u8], o: &mut Obs) {
    r!(o, s.device_correlation, 0x04, 0, 32);
}

pub fn acs(s: &AccessControlServices, b: &[u8], o: &mut Obs) {
    let c = &s.acs_capability;
    rs!(o, 0x04, [1 c.acs_source_validation, 1 c.acs_translation_blocking, 1 c.acs_p2p_request_redirect,
        1 c.acs_p2p_completion_redirect, 1 c.acs_upstream_forwarding, 1 c.acs_p2p_egress_control,
        1 c.acs_direct_translated_p2p, 1 _, 8 c.egress_control_vector_size]);
    let c = &s.acs_control;
    rs!(o, 0x06, [1 c.acs_source_validation_enable, 1 c.acs_translation_blocking_enable,
        1 c.acs_p2p_request_redirect_enable, 1 c.acs_p2p_completion_redirect_enable,
        1 c.acs_upstream_forwarding_enable, 1 c.acs_p2p_egress_control_enable,
        1 c.acs_direct_translated_p2p_enable]);
    let size = get_bits(b, 0x05 * 8, 8).unwrap_or(0) as usize;
    let v = o.drain("egress_control_vectors", s.egress_control_vectors(), 256);
    for (i, x) in v.iter().enumerate() {
        o.tab(i);
        o.f("egress_control_vectors", 0x08 + i / 8, (i % 8) as u32, 1, *x as u64);
    }
    // the table is whole dwords
    let whole = b.len() >= 8 + (size + 31) / 32 * 4;
    o.dep(0x08, (size + 31) / 32 * 4);
    o.tab(0);
    if size != 0 {
        o.rule("egress_control_vectors.count", if whole { v.len() == size } else { v.len() <= size }, || {
            format!("{} vectors reported, {} declared, complete: {}", v.len(), size, whole)
        });
    } else {
        // 00h stands for 256 when egress control is implemented, otherwise it is undefined
        o.rule("egress_control_vectors.count", v.len() <= 256, || format!("{} vectors for size 0", v.len()));
    }
    o.reg();
}

pub fn ari(s: &AlternativeRoutingIdInterpretation, _b: &[u8], o: &mut Obs) {
    let c = &s.ari_capability;
    rs!(o, 0x04, [1 c.mfvc_function_groups_capability, 1 c.acs_function_groups_capability, 6 _, 8 c.next_function_number]);
    let c = &s.ari_control;
    rs!(o, 0x06, [1 c.mfvc_function_groups_enable, 1 c.acs_function_groups_enable, 2 _, 3 c.function_group]);
}

pub fn ats(s: &AddressTranslationServices, _b: &[u8], o: &mut Obs) {
    let c = &s.ats_capability;
    rs!(o, 0x04, [5 c.invalidate_queue_depth, 1 c.page_aligned_request, 1 c.global_invalidate_supported]);
    let c = &s.ats_control;
    rs!(o, 0x06, [5 c.smallest_translation_unit, 10 _, 1 c.enable]);
}

pub fn sriov(s: &SingleRootIoVirtualization, b: &[u8], o: &mut Obs) {
    let c = &s.sriov_capabilities;
    rs!(o, 0x04, [1 c.vf_migration_capable, 1 c.ari_capable_hierarchy_preserved, 1 c.vf_10bit_tag_requester_supported,
        18 _, 11 c.vf_migration_interrupt_message_number]);
    let c = &s.sriov_control;
    rs!(o, 0x08, [1 c.vf_enable, 1 c.vf_migration_enable, 1 c.vf_migration_interrupt_enable, 1 c.vf_mse,
        1 c.ari_capable_hierarchy, 1 c.vf_10bit_tag_requester_enable]);
    r!(o, s.sriov_status.vf_migration_status, 0x0a, 0, 1);
    r!(o, s.initial_vfs, 0x0c, 0, 16);
    r!(o, s.total_vfs, 0x0e, 0, 16);
    r!(o, s.num_vfs, 0x10, 0, 16);
    r!(o, s.function_dependency_link, 0x12, 0, 8);
    r!(o, s.first_vf_offset, 0x14, 0, 16);
    r!(o, s.vf_stride, 0x16, 0, 16);
    r!(o, s.vf_device_id, 0x1a, 0, 16);
    r!(o, s.page_sizes.supported, 0x1c, 0, 32);
    r!(o, s.page_sizes.system, 0x20, 0, 32);
    r!(o, s.vf_migration_state_array_offset, 0x3c, 0, 32);
    crate::bars::observe(&s.base_addresses, b, 0x24, o);
}

pub fn multicast(s: &Multicast, b: &[u8], o: &mut Obs) {
    let c = &s.multicast_capability;
    rs!(o, 0x04, [6 c.mc_max_group, 2 _, 6 c.mc_window_size_requested, 1 _, 1 c.mc_ecrc_regeneration_supported]);
    let c = &s.multicast_control;
    rs!(o, 0x06, [6 c.mc_num_group, 9 _, 1 c.mc_enable]);
    r!(o, s.mc_base_address.mc_index_position, 0x08, 0, 6);
    r!(o, s.mc_base_address.mc_base_address, 0x08, 12, 52, << 12);
    r!(o, s.mc_receive, 0x10, 0, 64);
    r!(o, s.mc_block_all, 0x18, 0, 64);
    r!(o, s.mc_block_untranslated, 0x20, 0, 64);
    o.eq("mc_overlay_bar present", s.mc_overlay_bar.is_some(), b.len() >= 0x30);
    if let Some(v) = &s.mc_overlay_bar {
        r!(o, v.mc_overlay_size, 0x28, 0, 6);
        r!(o, v.mc_overlay_bar, 0x28, 6, 58, << 6);
    }
}

pub fn pri(s: &PageRequestInterface, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [1 s.page_request_control.enable, 1 s.page_request_control.reset]);
    let c = &s.page_request_status;
    rs!(o, 0x06, [1 c.response_failure, 1 c.unexpected_page_request_group_index, 6 _, 1 c.stopped, 6 _, 1 c.prg_response_pasid_required]);
    r!(o, s.outstanding_page_request_capacity, 0x08, 0, 32);
    r!(o, s.outstanding_page_request_allocation, 0x0c, 0, 32);
}

pub fn rebar(s: &ResizableBar, b: &[u8], o: &mut Obs) {
    let n = get_bits(b, 0x08 * 8 + 5, 3).unwrap_or(0) as usize;
    let v = o.drain("resizable_bar", s.clone(), 6);
    o.tab(0);
    o.eq("resizable_bar.count", v.len(), n);
    for (i, e) in v.iter().enumerate() {
        o.tab(i);
        let at = 0x04 + 8 * i;
        r!(o, e.capability.support_map_from_1mb_to_128tb, at, 0, 32);
        let c = &e.control;
        rs!(o, at + 4, [3 c.bar_index, 2 _, 3 c.number_of_resizable_bars, 6 c.bar_size, 2 _, 16 c.support_map_from_256tb_to_8eb]);
        let cap = get_bits(b, at as u32 * 8, 32).unwrap_or(0);
        let hi = get_bits(b, at as u32 * 8 + 48, 16).unwrap_or(0);
        for p in 0..70usize {
            let want = match p {
                20..=47 => cap >> (p - 16) & 1 == 1,
                48..=63 => hi >> (p - 48) & 1 == 1,
                _ => false,
            };
            o.eq("is_function_supports_power_of_two", e.is_function_supports_power_of_two(p), want);
        }
    }
    o.reg();
}

codes!(dynamic_power_allocation::TransitionLatencyUnit { Self::Unit1ms => 0, Self::Unit10ms => 1, Self::Unit100ms => 2, Self::Reserved => 3 });
codes!(dynamic_power_allocation::PowerAllocationScale { Self::Mul10 => 0, Self::Mul1_0 => 1, Self::Mul0_1 => 2, Self::Mul0_01 => 3 });

pub fn dpa(s: &DynamicPowerAllocation, b: &[u8], o: &mut Obs) {
    let c = &s.dpa_capability;
    rs!(o, 0x04, [5 c.substate_max, 3 _, 2 c.transition_latency_unit, 2 _, 2 c.power_allocation_scale, 2 _,
        8 c.transition_latency_value_0, 8 c.transition_latency_value_1]);
    r!(o, s.dpa_latency_indicator, 0x08, 0, 32);
    rs!(o, 0x0c, [5 s.dpa_status.substate_status, 3 _, 1 s.dpa_status.substate_control_enabled]);
    r!(o, s.dpa_control.substate_control, 0x0e, 0, 5);
    o.tab(0);
    let n = get_bits(b, 0x04 * 8, 5).unwrap_or(0) as usize + 1;
    o.blob("dpa_power_allocation_array", 0x10, s.dpa_power_allocation_array.0);
    o.eq("dpa_power_allocation_array.len", s.dpa_power_allocation_array.0.len(), n);
    o.reg();
}

codes!(tph_requester::StModeSelect { Self::NoStMode => 0, Self::InterruptVectorMode => 1, Self::DeviceSpecificMode => 2; Reserved });
codes!(tph_requester::TphRequesterEnable { Self::NotPermitted => 0, Self::TphPermitted => 1, Self::Reserved => 2, Self::TphAndExtendedTphPermitted => 3 });

pub fn tph(s: &TphRequester, b: &[u8], o: &mut Obs) {
    use tph_requester::StTable as T;
    let c = &s.tph_requester_capability;
    rs!(o, 0x04, [1 c.no_st_mode_supported, 1 c.interrupt_vector_mode_supported, 1 c.device_specific_mode_supported,
        5 _, 1 c.extended_tph_requester_supported]);
    let c2 = &s.tph_requester_control;
    rs!(o, 0x08, [3 c2.st_mode_select, 5 _, 2 c2.tph_requester_enable]);
    let size = get_bits(b, 0x06 * 8, 11).unwrap_or(0) as usize;
    let need = 0x0c + 2 * (size + 1);
    o.tab(0);
    let loc: u64 = match &c.st_table {
        T::NotPresent => 0,
        T::Valid { size: z, data } => {
            o.f("st_table.size", 0x06, 0, 11, *z as u64);
            o.blob("st_table.data", 0x0c, data);
            o.rule("st_table valid", size <= 63 && b.len() >= need && data.len() == need - 0x0c, || {
                format!("valid table of {} bytes for size {} with {} bytes captured", data.len(), size, b.len())
            });
            1
        }
        T::Invalid { size: z, data } => {
            o.f("st_table.size", 0x06, 0, 11, *z as u64);
            o.blob("st_table.data", 0x0c, data);
            o.rule("st_table invalid", size > 63 || b.len() < need, || {
                format!("table of size {} reported invalid with {} bytes captured", size, b.len())
            });
            1
        }
        T::MsiXTable { size: z } => {
            o.f("st_table.size", 0x06, 0, 11, *z as u64);
            2
        }
        T::Reserved => 3,
    };
    o.f("st_table.location", 0x05, 1, 2, loc);
    o.reg();
}

pub fn max_latency(s: &latency_tolerance_reporting::MaxLatency, val: u64, scale: u64, o: &mut Obs) {
    o.eq("MaxLatency::value()", s.value() as u64, if scale <= 5 { val << (5 * scale) } else { 0 });
}

pub fn ltr(s: &LatencyToleranceReporting, b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [10 s.max_snoop_latency.value, 3 s.max_snoop_latency.scale]);
    rs!(o, 0x06, [10 s.max_no_snoop_latency.value, 3 s.max_no_snoop_latency.scale]);
    for (at, l) in [(0x04, &s.max_snoop_latency), (0x06, &s.max_no_snoop_latency)] {
        let (v, sc) = (get_bits(b, at * 8, 10).unwrap_or(0), get_bits(b, at * 8 + 10, 3).unwrap_or(0));
        max_latency(l, v, sc, o);
        o.wb("MaxLatency -> u16", u16::from(l.clone()), get_bits(b, at * 8, 13).unwrap_or(0) as u16);
    }
}

fn preset_p(v: u64) -> String {
    match v { 0..=10 => format!("P{}", v), _ => format!("Reserved({})", v) }
}
fn preset_hint(v: u64) -> String {
    ["Minus6dB", "Minus7dB", "Minus8dB", "Minus9dB", "Minus10dB", "Minus11dB", "Minus12dB", "Reserved"][v as usize & 7].into()
}

pub fn spe(s: &SecondaryPciExpress, b: &[u8], o: &mut Obs) {
    let c = &s.link_control_3;
    let v = &c.lower_skp_os_generation_vector;
    rs!(o, 0x04, [1 c.perform_equalization, 1 c.link_equalization_request_interrupt_enable, 7 _,
        1 v.speed_2_5_gtps, 1 v.speed_5_0_gtps, 1 v.speed_8_0_gtps, 1 v.speed_16_0_gtps, 1 v.speed_32_0_gtps,
        1 v.speed_64_0_gtps, 1 v.reserved]);
    r!(o, s.lane_error_status.0, 0x08, 0, 32);
    let rest = b.len().saturating_sub(0x0c) / 2;
    for (n, w) in [(1usize, LinkWidth::X1), (2, LinkWidth::X2), (4, LinkWidth::X4), (8, LinkWidth::X8),
        (12, LinkWidth::X12), (16, LinkWidth::X16), (32, LinkWidth::X32)] {
        o.tab(0);
        let lanes = o.drain("equalization_control_lanes", s.equalization_control_lanes(w), 32);
        let ok = if rest >= n { lanes.len() == n } else { lanes.len() <= rest };
        o.rule("equalization_control_lanes.count", ok, || format!("{} lanes reported for width {}, {} captured", lanes.len(), n, rest));
        if n == 32 || rest < n {
            for (i, l) in lanes.iter().enumerate() {
                o.tab(i);
                let at = (0x0c + 2 * i) as u32 * 8;
                o.dep(0x0c + 2 * i, 2);
                if let (Some(a), Some(h), Some(c), Some(d)) =
                    (get_bits(b, at, 4), get_bits(b, at + 4, 3), get_bits(b, at + 8, 4), get_bits(b, at + 12, 3)) {
                    // the fields are private: shown by `{:?}` only
                    let text = format!("{:?}", l);
                    let mut got: Vec<&str> = text.split(|c| c == '{' || c == '}').nth(1).unwrap_or("").split(',').map(str::trim).collect();
                    let want = [
                        format!("downstream_port_receiver_preset_hint: {}", preset_hint(h)),
                        format!("downstream_port_transmitter_preset: {}", preset_p(a)),
                        format!("upstream_port_receiver_preset_hint: {}", preset_hint(d)),
                        format!("upstream_port_transmitter_preset: {}", preset_p(c)),
                    ];
                    got.sort();
                    let (mut got, mut want): (Vec<String>, Vec<String>) = (got.iter().map(|x| x.to_string()).collect(), want.to_vec());
                    let name = |x: &String| x.split(':').next().unwrap_or("").to_string();
                    if got.iter().map(name).ne(want.iter().map(name)) {
                        // under other names: only the values are known
                        for v in [&mut got, &mut want] {
                            v.iter_mut().for_each(|x| *x = x.rsplit(':').next().unwrap_or("").trim().to_string());
                            v.sort();
                        }
                    }
                    o.eq("equalization_control_lanes", got.join(", "), want.join(", "));
                    let hint = pcics::capabilities::pci_express::ReceiverPresetHint::from(h as u8);
                    o.eq("receiver preset hint in dB", hint as i32, if h < 7 { -6 - h as i32 } else { 0 });
                }
            }
        }
    }
    o.reg();
}

pub fn pmux(s: &ProtocolMultiplexing, b: &[u8], o: &mut Obs) {
    let c = &s.pmux_capability;
    let l = &c.pmux_supported_link_speeds;
    rs!(o, 0x04, [6 c.pmux_protocol_array_size, 2 _, 1 l.speed_2_5_gtps, 1 l.speed_5_0_gtps, 1 l.speed_8_0_gtps, 1 l.speed_16_0_gtps]);
    let c = &s.pmux_control;
    rs!(o, 0x08, [6 c.pmux_channel_0_assignment, 2 _, 6 c.pmux_channel_1_assignment, 2 _, 6 c.pmux_channel_2_assignment, 2 _,
        6 c.pmux_channel_3_assignment]);
    let c = &s.pmux_status;
    rs!(o, 0x0c, [
        1 c.pmux_channel_0_disabled_link_speed, 1 c.pmux_channel_0_disabled_link_width, 1 c.pmux_channel_0_disabled_link_protocol_specific, 5 _,
        1 c.pmux_channel_1_disabled_link_speed, 1 c.pmux_channel_1_disabled_link_width, 1 c.pmux_channel_1_disabled_link_protocol_specific, 5 _,
        1 c.pmux_channel_2_disabled_link_speed, 1 c.pmux_channel_2_disabled_link_width, 1 c.pmux_channel_2_disabled_link_protocol_specific, 5 _,
        1 c.pmux_channel_3_disabled_link_speed, 1 c.pmux_channel_3_disabled_link_width, 1 c.pmux_channel_3_disabled_link_protocol_specific]);
    let n = get_bits(b, 0x04 * 8, 6).unwrap_or(0) as usize;
    let v = o.drain("pmux_protocol_array", s.pmux_protocol_array.clone(), 63);
    o.tab(0);
    o.eq("pmux_protocol_array.count", v.len(), n);
    for (i, e) in v.into_iter().enumerate() {
        o.tab(i);
        r!(o, e.protocol_id, 0x10 + 4 * i, 0, 16);
        r!(o, e.authority_id, 0x12 + 4 * i, 0, 16);
        let raw: [u8; 4] = e.into();
        o.wb("PmuxProtocolArrayEntry -> [u8; 4]", Some(&raw[..]), b.get(0x10 + 4 * i..0x14 + 4 * i));
    }
    o.reg();
}

pub fn pasid(s: &ProcessAddressSpaceId, _b: &[u8], o: &mut Obs) {
    let c = &s.pacid_capability;
    rs!(o, 0x04, [1 _, 1 c.execute_permission_supported, 1 c.privileged_mode_supported, 5 _, 5 c.max_pasid_width]);
    let c = &s.pacid_control;
    rs!(o, 0x06, [1 c.pasid_enable, 1 c.execute_permission_enable, 1 c.privileged_mode_enable]);
}

pub fn lnr(s: &LnRequester, _b: &[u8], o: &mut Obs) {
    let c = &s.lnr_capability;
    rs!(o, 0x04, [1 c.lnr_64_supported, 1 c.lnr_128_supported, 6 _, 5 c.lnr_registration_max]);
    let c = &s.lnr_control;
    rs!(o, 0x06, [1 c.lnr_enable, 1 c.lnr_cls, 6 _, 5 c.lnr_registration_limit]);
}

codes!(downstream_port_containment::DpcTrigger { Self::Disabled => 0, Self::ErrFatalMessage => 1, Self::ErrNonFatalMessage => 2, Self::Reserved => 3 });

pub fn dpc(s: &DownstreamPortContainment, b: &[u8], o: &mut Obs) {
    use downstream_port_containment::DpcTriggerReason as T;
    let c = &s.dpc_capability;
    rs!(o, 0x04, [5 c.dpc_interrupt_message_number, 1 c.rp_extensions_for_dpc, 1 c.poisoned_tlp_egress_blocking_supported,
        1 c.dpc_software_triggering_supported, 4 c.rp_pio_log_size, 1 c.dl_active_err_cor_signaling_supported]);
    let c = &s.dpc_control;
    rs!(o, 0x06, [2 c.dpc_trigger_enable, 1 c.dpc_completion_control, 1 c.dpc_interrupt_enable, 1 c.dpc_err_cor_enable,
        1 c.poisoned_tlp_egress_blocking_enable, 1 c.dpc_software_trigger, 1 c.dl_active_err_cor_enable]);
    let c = &s.dpc_status;
    let (reason, ext) = match &c.dpc_trigger_reason {
        T::UnmaskedUncorrectableError => (0u64, None),
        T::ReceivingAnErrNonFatal => (1, None),
        T::ReceivingAnErrFatal => (2, None),
        T::RpPioError => (3, Some(0u64)),
        T::DpcSoftwareTriggerBit => (3, Some(1)),
        T::Reserved(v) => (3, Some(if *v > 1 { *v as u64 } else { u64::MAX })),
    };
    rs!(o, 0x08, [1 c.dpc_trigger_status, 2 reason, 1 c.dpc_interrupt_status, 1 c.dpc_rp_busy, 2 _, 1 _, 5 c.rp_pio_first_error_pointer]);
    o.dep(0x08, 1);
    if let Some(x) = ext {
        o.f("dpc_trigger_reason.extension", 0x08, 5, 2, x);
        o.wb("DpcTriggerReason::extension_value", c.dpc_trigger_reason.extension_value() as u64, get_bits(b, 0x08 * 8 + 5, 2).unwrap_or(0));
    }
    o.wb("DpcTriggerReason::value", c.dpc_trigger_reason.value() as u64, get_bits(b, 0x08 * 8 + 1, 2).unwrap_or(0));
    r!(o, s.dpc_error_source_id, 0x0a, 0, 16);
    let rp = get_bits(b, 0x04 * 8 + 5, 1) == Some(1);
    let log = get_bits(b, 0x05 * 8, 4).unwrap_or(0) as usize;
    o.eq("rp_extensions present", s.rp_extensions.is_some(), rp);
    if let Some(x) = &s.rp_extensions {
        for (at, p) in [(0x0c, &x.rp_pio_status), (0x10, &x.rp_pio_mask), (0x14, &x.rp_pio_severity), (0x18, &x.rp_pio_syserr), (0x1c, &x.rp_pio_exception)] {
            rs!(o, at, [1 p.cfg_ur_cpl, 1 p.cfg_ca_cpl, 1 p.cfg_cto, 5 _, 1 p.io_ur_cpl, 1 p.io_ca_cpl, 1 p.io_cto, 5 _,
                1 p.mem_ur_cpl, 1 p.mem_ca_cpl, 1 p.mem_cto]);
        }
        for (i, v) in x.rp_pio_header_log.0.iter().enumerate() {
            o.f("rp_pio_header_log", 0x20 + 4 * i, 0, 32, *v as u64);
        }
        o.eq("rp_pio_impspec_log present", x.rp_pio_impspec_log.is_some(), log >= 5);
        if let Some(v) = x.rp_pio_impspec_log {
            r!(o, v, 0x30, 0, 32);
        }
        o.eq("rp_pio_tlp_prefix_log present", x.rp_pio_tlp_prefix_log.is_some(), log > 5);
        if let Some(v) = &x.rp_pio_tlp_prefix_log {
            for (i, w) in v.0.iter().enumerate() {
                if i < log.saturating_sub(5) {
                    o.f("rp_pio_tlp_prefix_log", 0x34 + 4 * i, 0, 32, *w as u64);
                } else {
                    o.eq("rp_pio_tlp_prefix_log unimplemented word", *w, 0);
                }
            }
        }
    }
}

codes!(l1_pm_substates::PortTPowerOnScale { Self::Time2us => 0, Self::Time10us => 1, Self::Time100us => 2, Self::Reserved => 3 });

pub fn l1pm(s: &L1PmSubstates, b: &[u8], o: &mut Obs) {
    let c = &s.l1_pm_substates_capabilities;
    rs!(o, 0x04, [1 c.pci_pm_l1_2_supported, 1 c.pci_pm_l1_1_supported, 1 c.aspm_l1_2_supported, 1 c.aspm_l1_1_supported,
        1 c.l1_pm_substates_supported, 3 _, 8 c.port_common_mode_restore_time, 2 c.port_t_power_on.scale, 1 _, 5 c.port_t_power_on.value]);
    let d = &s.l1_pm_substates_control_1;
    rs!(o, 0x08, [1 d.pci_pm_l1_2_enable, 1 d.pci_pm_l1_1_enable, 1 d.aspm_l1_2_enable, 1 d.aspm_l1_1_enable, 4 _,
        8 d.common_mode_restore_time, 10 d.ltr_l1_2_threshold.value, 3 _, 3 d.ltr_l1_2_threshold.scale]);
    let e = &s.l1_pm_substates_control_2;
    rs!(o, 0x0c, [2 e.t_power_on.scale, 1 _, 5 e.t_power_on.value]);
    let us = |code: Option<u64>| [2u32, 10, 100, 0][code.unwrap_or(3) as usize & 3];
    o.eq("t_power_on.scale in us", e.t_power_on.scale.clone() as u32, us(get_bits(b, 0x0c * 8, 2)));
    o.eq("port_t_power_on.scale in us", c.port_t_power_on.scale.clone() as u32, us(get_bits(b, 0x04 * 8 + 16, 2)));
    let g = |bit, w| get_bits(b, bit, w).unwrap_or(0);
    for (bit, t) in [(0x06 * 8, &c.port_t_power_on), (0x0c * 8, &e.t_power_on)] {
        let want = [Some(2), Some(10), Some(100), None][g(bit, 2) as usize].map(|m: usize| m * g(bit + 3, 5) as usize);
        o.eq("PortTPowerOn::value()", t.value(), want);
        o.wb("PortTPowerOn -> u8", u8::from(t.clone()), (g(bit, 8) & 0xfb) as u8);
    }
    max_latency(&d.ltr_l1_2_threshold, g(0x0a * 8, 10), g(0x0b * 8 + 5, 3), o);
    o.wb("L1PmSubstatesCapabilities -> u32", u32::from(c.clone()), g(0x04 * 8, 32) as u32 & 0x00fb_ff1f);
    o.wb("L1PmSubstatesControl1 -> u32", u32::from(d.clone()), g(0x08 * 8, 32) as u32 & 0xe3ff_ff0f);
    o.wb("L1PmSubstatesControl2 -> u32", u32::from(e.clone()), g(0x0c * 8, 32) as u32 & 0xfb);
}

pub fn ptm(s: &PrecisionTimeMeasurement, _b: &[u8], o: &mut Obs) {
    let c = &s.ptm_capability;
    rs!(o, 0x04, [1 c.ptm_requester_capable, 1 c.ptm_responder_capable, 1 c.ptm_root_capable, 5 _, 8 c.local_clock_granularity]);
    let c = &s.ptm_control;
    rs!(o, 0x08, [1 c.ptm_enable, 1 c.root_select, 6 _, 8 c.effective_granularity]);
}

codes!(pci_express_over_m_phy::LaneWidthStatus { Self::X1 => 1, Self::X2 => 2, Self::X4 => 4, Self::X8 => 8, Self::X12 => 12, Self::X16 => 16, Self::X32 => 32; Reserved });
codes!(pci_express_over_m_phy::PhyLocation { Self::LocalPhy => 0, Self::RemotePhy => 1; Reserved });

pub fn mphy(s: &PciExpressOverMphy, b: &[u8], o: &mut Obs) {
    let c = &s.mpcie_capabilities;
    let (t, x) = (&c.maximum_tx_lane_width_capability, &c.maximum_rx_lane_width_capability);
    rs!(o, 0x04, [1 c.mpcie_link_speed_capability.hs_g1, 1 c.mpcie_link_speed_capability.hs_g2, 13 _, 1 c.configuration_software_supported,
        1 t.x1, 1 t.x2, 1 t.x4, 1 t.x8, 1 t.x12, 1 t.x16, 1 t.x32, 1 _,
        1 x.x1, 1 x.x2, 1 x.x4, 1 x.x8, 1 x.x12, 1 x.x16, 1 x.x32]);
    let c = &s.mpcie_control.mpcie_target_link_speed_control;
    rs!(o, 0x08, [1 c.hs_g1, 1 c.hs_g2]);
    let c = &s.mpcie_status;
    rs!(o, 0x0c, [1 c.mpcie_current_link_speed_status.hs_g1, 1 c.mpcie_current_link_speed_status.hs_g2, 13 _,
        1 c.mpcie_configuration_software_status, 8 c.tx_lane_width_status, 8 c.rx_lane_width_status]);
    r!(o, s.mpcie_lane_error_status, 0x10, 0, 32);
    let c = &s.mpcie_phy_control_address;
    let ua = c.upper_addr as u64;
    rs!(o, 0x14, [8 c.lower_addr, 8 _, 5 (ua & 0x1f), 3 _, 1 (ua >> 5), 3 c.phy_location, 2 _, 1 c.read, 1 c.config]);
    let c = &s.mpcie_phy_control_data;
    rs!(o, 0x18, [8 c.phy_register_data, 21 _, 1 c.phy_control_error, 1 c.rrap_abort_a, 1 c.phy_control_pending]);
    let _ = b;
}

pub fn frs(s: &FrsQueuing, _b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [12 s.frs_queuing_capability.frs_queue_max_depth, 4 _, 5 s.frs_queuing_capability.frs_interrupt_message_number]);
    rs!(o, 0x08, [1 s.frs_queuing_status.frs_message_received, 1 s.frs_queuing_status.frs_message_overflow]);
    r!(o, s.frs_queuing_control.frs_interrupt_enable, 0x0a, 0, 1);
    let c = &s.frs_message_queue;
    rs!(o, 0x0c, [16 c.frs_message_queue_function_id, 4 c.frs_message_queue_reason, 12 c.frs_message_queue_depth]);
}

pub fn rtr(s: &ReadinessTimeReporting, b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [9 s.reset_time.value, 3 s.reset_time.scale, 9 s.dl_up_time.value, 3 s.dl_up_time.scale, 7 _, 1 s.valid]);
    rs!(o, 0x08, [9 s.flr_time.value, 3 s.flr_time.scale, 9 s.d3hot_to_d0_time.value, 3 s.d3hot_to_d0_time.scale]);
    for (bit, t) in [(0x04 * 8, &s.reset_time), (0x04 * 8 + 12, &s.dl_up_time), (0x08 * 8, &s.flr_time), (0x08 * 8 + 12, &s.d3hot_to_d0_time)] {
        let g = |bit, w| get_bits(b, bit, w).unwrap_or(0);
        o.eq("actual_time_value", t.actual_time_value(), g(bit, 9) << (5 * g(bit + 9, 3)));
    }
}

codes!(cxl::HdmCount { Self::ZeroRanges => 0, Self::OneHdmRange => 1, Self::TwoHdmRanges => 2, Self::Reserved => 3 });
codes!(cxl::CxlResetTimeout { Self::MaxTime10ms => 0, Self::MaxTime100ms => 1, Self::MaxTime1s => 2, Self::MaxTime10s => 3, Self::MaxTime100s => 4; Reserved });
codes!(cxl::CacheSfGranularity { Self::Tracking64B => 0, Self::Tracking128B => 1, Self::Tracking256B => 2, Self::Tracking512B => 3, Self::Tracking1KB => 4, Self::Tracking2KB => 5, Self::Tracking4KB => 6, Self::Reserved => 7 });
codes!(cxl::CacheCleanEviction { Self::Needed => 0, Self::NotNeeded => 1 });
codes!(cxl::CacheSizeUnit { Self::NotReported => 0, Self::Unit64K => 1, Self::Unit1MB => 2; Reserved });
codes!(cxl::MediaType { Self::Volatile => 0, Self::NonVolatile => 1, Self::Cdat => 2; Reserved });
codes!(cxl::MemoryClass { Self::Memory => 0, Self::Storage => 1, Self::Cdat => 2; Reserved });
codes!(cxl::DesiredInterleave { Self::NoInterleave => 0, Self::Granularity256B => 1, Self::Granularity4KB => 2, Self::Granularity512B => 3, Self::Granularity1KB => 4, Self::Granularity2KB => 5, Self::Granularity8KB => 6, Self::Granularity16KB => 7; Reserved });
codes!(cxl::MemoryActiveTimeout { Self::MaxTime1s => 0, Self::MaxTime4s => 1, Self::MaxTime16s => 2, Self::MaxTime64s => 3, Self::MaxTime256s => 4; Reserved });

pub fn dvsec(s: &Dvsec, b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [16 s.dvsec_vendor_id, 4 s.dvsec_revision, 12 s.dvsec_length]);
    r!(o, s.dvsec_id, 0x08, 0, 16);
    let g = |bit, w| get_bits(b, bit, w).unwrap_or(0);
    let (vendor, len, id) = (g(0x04 * 8, 16), g(0x04 * 8 + 20, 12) as usize, g(0x08 * 8, 16));
    use ComputeExpressLink as C;
    match &s.dvsec_type {
        DvsecType::Unspecified(x) => {
            o.tab(0);
            o.blob("dvsec registers", 0x0a, x);
            o.eq("dvsec registers length", x.len(), len.wrapping_sub(0x0a));
            o.reg();
            o.rule("dvsec vendor", vendor != 0x1e98, || "CXL structure reported as unspecified".into());
        }
        DvsecType::ComputeExpressLink(x) => {
            o.rule("dvsec vendor", vendor == 0x1e98, || format!("vendor {:#x} reported as CXL", vendor));
            let code = match x {
                C::PcieDvsecForCxlDevice(d) => {
                    cxl_device(d, b, o);
                    0
                }
                C::NonCxlFunctionMapDvsec(_) => 2,
                C::Cxl20ExtensionsDvsecForPorts(_) => 3,
                C::GpfDvsecForCxlPorts(_) => 4,
                C::GpfDvsecForCxlDevices(_) => 5,
                C::PcieDvsecForFlexBusPort(_) => 7,
                C::RegisterLocatorDvsec(_) => 8,
                C::MldDvsec(_) => 9,
                C::PcieDvsecForTestCapability(_) => 10,
                C::Undefined(v) => {
                    o.rule("cxl id undefined", !matches!(id, 0 | 2 | 3 | 4 | 5 | 7..=10), || format!("id {} reported undefined", id));
                    *v as u64
                }
            };
            o.f("cxl dvsec id", 0x08, 0, 16, code);
            // the declared length decides whether the structure is complete
            o.dep(0x04, 6);
        }
    }
}

fn cxl_device(d: &cxl::PcieDvsecForCxlDevice, b: &[u8], o: &mut Obs) {
    let g = |bit, w| get_bits(b, bit, w).unwrap_or(0);
    let c = &d.cxl_capability;
    rs!(o, 0x0a, [1 c.cache_capable, 1 c.io_capable, 1 c.mem_capable, 1 c.mem_hwinit_mode, 2 c.hdm_count,
        1 c.cache_writeback_and_invalidate_capable, 1 c.cxl_reset_capable, 3 c.cxl_reset_timeout, 1 c.cxl_reset_mem_clr_capable,
        1 _, 1 c.multiple_logical_device, 1 c.viral_capable, 1 c.pm_init_completion_reporting_capable]);
    let c = &d.cxl_control;
    let cov = match c.cache_sf_coverage {
        cxl::CacheSfCoverage::NoSnoopFilter => 0u64,
        cxl::CacheSfCoverage::SnoopFilter(v) => {
            o.rule("cache_sf_coverage", v.is_power_of_two() && v >= 1 << 16, || format!("snoop filter coverage {:#x}", v));
            (v.trailing_zeros() as u64).wrapping_sub(15)
        }
    };
    rs!(o, 0x0c, [1 c.cache_enable, 1 c.io_enable, 1 c.mem_enable, 5 cov, 3 c.cache_sf_granularity, 1 c.cache_clean_eviction, 2 _, 1 c.viral_enable]);
    o.wb("CacheSfCoverage -> u8", u8::from(c.cache_sf_coverage.clone()) as u64, g(0x0c * 8 + 3, 5));
    r!(o, d.cxl_status.viral_status, 0x0e, 14, 1);
    let c = &d.cxl_control2;
    rs!(o, 0x10, [1 c.disable_caching, 1 c.initiate_cache_write_back_and_invalidation, 1 c.initiate_cxl_reset, 1 c.cxl_reset_mem_clr_enable]);
    let c = &d.cxl_status2;
    rs!(o, 0x12, [1 c.cache_invalid, 1 c.cxl_reset_complete, 1 c.cxl_reset_error, 12 _, 1 c.power_management_initialization_complete]);
    r!(o, d.cxl_lock.config_lock, 0x14, 0, 1);
    rs!(o, 0x16, [4 d.cxl_capability2.cache_size_unit, 4 _, 8 d.cxl_capability2.cache_size]);
    for (at, s, e) in [(0x18usize, &d.cxl_range_1_size, &d.cxl_range_1_base), (0x28, &d.cxl_range_2_size, &d.cxl_range_2_base)] {
        rs!(o, at + 4, [1 s.memory_info_valid, 1 s.memory_active, 3 s.media_type, 3 s.memory_class, 5 s.desired_interleave, 3 s.memory_active_timeout]);
        o.f("memory_size.high", at, 0, 32, s.memory_size >> 32);
        o.fs("memory_size.low", at + 4, 28, 4, s.memory_size & 0xffff_ffff, 28);
        o.f("memory_base.high", at + 8, 0, 32, e.memory_base >> 32);
        // bits 27:0 of the low base register are reserved: either kept or cleared
        o.fs("memory_base.low", at + 12, 28, 4, e.memory_base & 0xf000_0000, 28);
        o.dep(at + 12, 4);
    }
}
