//! Reference register maps of the extended capabilities (second part).
use crate::obs::{get_bits, Obs};
use pcics::extended_capabilities::advanced_error_reporting as aer_m;
use pcics::extended_capabilities::multifunction_virtual_channel as mfvc_m;
use pcics::extended_capabilities::power_budgeting as pb_m;
use pcics::extended_capabilities::root_complex_link_declaration as rcld_m;
use pcics::extended_capabilities::virtual_channel as vc_m;
use pcics::extended_capabilities::*;

fn uncorrectable(c: &aer_m::UncorrectableError, at: usize, o: &mut Obs) {
    rs!(o, at, [1 c.link_training_error, 3 _, 1 c.data_link_protocol_error_status, 1 c.surprise_down_error_status, 6 _,
        1 c.poisoned_tlp_received_status, 1 c.flow_control_protocol_error_status, 1 c.completion_timeout_status,
        1 c.completer_abort_status, 1 c.unexpected_completion_status, 1 c.receiver_overflow_status, 1 c.malformed_tlp_status,
        1 c.ecrc_error_status, 1 c.unsupported_request_error_status, 1 c.acs_violation_status,
        1 c.uncorrectable_internal_error_status, 1 c.mc_blocked_tlp_status, 1 c.atomicop_egress_blocked_status,
        1 c.tlp_prefix_blocked_error_status, 1 c.poisoned_tlp_egress_blocked_status]);
}
fn correctable(c: &aer_m::CorrectableError, at: usize, o: &mut Obs) {
    rs!(o, at, [1 c.receiver_error_status, 5 _, 1 c.bad_tlp_status, 1 c.bad_dllp_status, 1 c.replay_num_rollover_status, 3 _,
        1 c.replay_timer_timeout_status, 1 c.advisory_non_fatal_error_status, 1 c.corrected_internal_error_status,
        1 c.header_log_overflow_status]);
}

pub fn aer(s: &AdvancedErrorReporting, b: &[u8], o: &mut Obs) {
    uncorrectable(&s.uncorrectable_error_status, 0x04, o);
    uncorrectable(&s.uncorrectable_error_mask, 0x08, o);
    uncorrectable(&s.uncorrectable_error_severity, 0x0c, o);
    correctable(&s.correctable_error_status, 0x10, o);
    correctable(&s.correctable_error_mask, 0x14, o);
    let c = &s.advanced_error_capabilities_and_control;
    rs!(o, 0x18, [5 c.first_error_pointer, 1 c.ecrc_generation_capable, 1 c.ecrc_generation_enable, 1 c.ecrc_check_capable,
        1 c.ecrc_check_enable, 1 c.multiple_header_recording_capable, 1 c.multiple_header_recording_enable,
        1 c.tlp_prefix_log_present, 1 c.completion_timeout_prefix_or_header_log_capable]);
    for (i, v) in s.header_log.0.iter().enumerate() {
        o.f("header_log", 0x1c + 4 * i, 0, 32, *v as u64);
    }
    let root = b.len() >= 0x38;
    o.eq("root_error_command present", s.root_error_command.is_some(), root);
    o.eq("root_error_status present", s.root_error_status.is_some(), root);
    o.eq("error_source_identification present", s.error_source_identification.is_some(), root);
    if let Some(c) = &s.root_error_command {
        rs!(o, 0x2c, [1 c.correctable_error_reporting_enable, 1 c.non_fatal_error_reporting_enable, 1 c.fatal_error_reporting_enable]);
    }
    if let Some(c) = &s.root_error_status {
        rs!(o, 0x30, [1 c.err_cor_received, 1 c.multiple_err_cor_received, 1 c.err_fatal_or_nonfatal_received,
            1 c.multiple_err_fatal_or_nonfatal_received, 1 c.first_uncorrectable_fatal, 1 c.non_fatal_error_messages_received,
            1 c.fatal_error_messages_received, 20 _, 5 c.advanced_error_interrupt_message_number]);
    }
    if let Some(c) = &s.error_source_identification {
        rs!(o, 0x34, [16 c.err_cor_source_identification, 16 c.err_fatal_or_nonfatal_source_identification]);
    }
    o.eq("tlp_prefix_log present", s.tlp_prefix_log.is_some(), get_bits(b, 0x18 * 8 + 11, 1) == Some(1));
    if let Some(l) = &s.tlp_prefix_log {
        for (i, v) in l.0.iter().enumerate() {
            o.f("tlp_prefix_log", 0x38 + 4 * i, 0, 32, *v as u64);
        }
    }
}

pub fn dsn(s: &DeviceSerialNumber, _b: &[u8], o: &mut Obs) {
    r!(o, s.lower_dword, 0x04, 0, 32);
    r!(o, s.upper_dword, 0x08, 0, 32);
}

static GT300: [u64; 13] = [0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff];
codes!(pb_m::DataScale { Self::One => 0, Self::Deci => 1, Self::Centi => 2, Self::Milli => 3 });
codes!(pb_m::PmState { Self::D0 => 0, Self::D1 => 1, Self::D2 => 2, Self::D3 => 3 });
codes!(pb_m::PmSubState { Self::Default => 0, Self::Specific(v) => if *v == 0 { 99 } else { *v } });
codes!(pb_m::OperationConditionType { Self::PmeAux => 0, Self::Auxiliary => 1, Self::Idle => 2, Self::Sustained => 3,
    Self::SustainedEmergencyPowerReductionState => 4, Self::MaximumEmergencyPowerReductionState => 5, Self::Maximum => 7; Reserved });
codes!(pb_m::PowerRail { Self::Power12v => 0, Self::Power3_3v => 1, Self::Power1_5vOr1_8v => 2, Self::Thermal => 3; Reserved });

pub fn power_budgeting(s: &PowerBudgeting, b: &[u8], o: &mut Obs) {
    r!(o, s.data_select, 0x04, 0, 8);
    use pb_m::BasePower as B;
    match &s.data.base_power {
        B::Value(v) => {
            o.f("base_power", 0x08, 0, 8, *v as u64);
            o.rule("base_power plain value", *v <= 0xef, || format!("plain value {:#x}", v));
        }
        B::Gt239Le250 => o.f("base_power", 0x08, 0, 8, 0xf0),
        B::Gt250Le275 => o.f("base_power", 0x08, 0, 8, 0xf1),
        B::Gt275Le300 => o.f("base_power", 0x08, 0, 8, 0xf2),
        B::Gt300 => o.any("base_power", 0x08, 0, 8, &GT300),
    }
    let c = &s.data;
    rs!(o, 0x08, [8 _, 2 c.data_scale, 3 c.pm_sub_state, 2 c.pm_state, 3 c.operation_condition_type, 3 c.power_rail]);
    let m = [1.0f64, 0.1, 0.01, 0.001][get_bits(b, 0x09 * 8, 2).unwrap_or(0) as usize];
    o.rule("data_scale.multiplier()", (c.data_scale.multiplier() - m).abs() < m * 1e-9, || format!("{}", c.data_scale.multiplier()));
    r!(o, s.power_budget_capability.system_allocated, 0x0c, 0, 1);
}

pub fn rcilc(s: &RootComplexInternalLinkControl, _b: &[u8], o: &mut Obs) {
    let c = &s.root_complex_link_capabilities;
    rs!(o, 0x04, [4 c.max_link_speed, 6 c.maximum_link_width, 2 c.active_state_power_management_support, 3 c.l0s_exit_latency, 3 c.l1_exit_latency]);
    crate::regs_std::speeds(&c.supported_link_speeds_vector, 0x04, 18, o);
    let c = &s.root_complex_link_control;
    rs!(o, 0x08, [2 c.active_state_power_management_control, 5 _, 1 c.extended_synch]);
    let c = &s.root_complex_link_status;
    rs!(o, 0x0a, [4 c.current_link_speed, 6 c.negotiated_link_width]);
}

pub fn rcec(s: &RootComplexEventCollectorEndpointAssociation, _b: &[u8], o: &mut Obs) {
    r!(o, s.association_bitmap_for_rcieps, 0x04, 0, 32);
}

codes!(rcld_m::ElementType { Self::ConfigurationSpaceElement => 0, Self::SystemEgressPortOrInternalSink => 1, Self::InternalRootComplexLink => 2; Reserved });

pub fn esd(s: &rcld_m::ElementSelfDescription, b: &[u8], o: &mut Obs) {
    rs!(o, 0x04, [4 s.element_type, 4 s.reserved, 8 s.number_of_link_entries, 8 s.component_id, 8 s.port_number]);
    o.wb("ElementType -> u8", u8::from(s.element_type.clone()) as u64, get_bits(b, 0x04 * 8, 4).unwrap_or(0));
}

pub fn rcld(s: &RootComplexLinkDeclaration, b: &[u8], o: &mut Obs) {
    use rcld_m::{LinkAddress as A, LinkEntriesState as S};
    esd(&s.element_self_description, b, o);
    let n = get_bits(b, 0x05 * 8, 8).unwrap_or(0) as usize;
    let avail = b.len().saturating_sub(0x10) / 16;
    let v = o.drain("link_entries", s.link_entries.clone(), 255);
    o.tab(0);
    o.eq("link_entries.count", v.len(), n.min(avail));
    let want = if avail >= n { "Valid" } else if (b.len() - 0x10) % 16 == 0 { "Incomplete" } else { "Invalid" };
    let got = match s.link_entries.state { S::Valid => "Valid", S::Incomplete => "Incomplete", S::Invalid => "Invalid" };
    o.eq("link_entries.state", got, want);
    for (i, e) in v.into_iter().enumerate() {
        o.tab(i);
        let at = 0x10 + 16 * i;
        let d = &e.link_description;
        rs!(o, at, [1 d.link_valid, 1 d.link_type, 1 d.associate_rcrb_header, 13 _, 8 d.target_component_id, 8 d.target_port_number]);
        let raw = get_bits(b, (at as u32 + 8) * 8, 64).unwrap_or(0);
        o.dep(at, 16);
        let mapped = get_bits(b, at as u32 * 8 + 1, 1) == Some(0);
        match &e.link_address {
            A::MemoryMappedSpace(a) => {
                o.rule("link_address type", mapped, || "memory-mapped address for a configuration space link".into());
                o.f("link_address", at + 8, 0, 64, *a);
            }
            A::ConfigurationSpace { n, reserved, function, device, bus, address } => {
                o.rule("link_address type", !mapped, || "configuration space address for a memory-mapped link".into());
                let w = if raw & 7 == 0 { 8 } else { raw & 7 };
                o.eq("link_address.n", *n as u64, w);
                o.eq("link_address.reserved", *reserved as u64, raw >> 3 & 0x1ff);
                o.eq("link_address.function", *function as u64, raw >> 12 & 7);
                o.eq("link_address.device", *device as u64, raw >> 15 & 0x1f);
                o.eq("link_address.bus", *bus as u64, raw >> 20 & ((1 << w) - 1));
                o.eq("link_address.address", *address, raw >> (20 + w) << (20 + w));
            }
        }
        let back: [u32; 2] = e.link_address.into();
        o.wb("LinkAddress -> [u32; 2]", back, [raw as u32, (raw >> 32) as u32]);
    }
    o.reg();
}

codes!(vc_m::ReferenceClock { Self::Rc100ns => 0; Reserved });
codes!(vc_m::VcArbitrationSelect { Self::HardwareFixedArbitration => 0, Self::Wrr32phases => 1, Self::Wrr64phases => 2, Self::Wrr128phases => 3; Reserved });
codes!(vc_m::PortArbitrationSelect { Self::HardwareFixedArbitration => 0, Self::Wrr32phases => 1, Self::Wrr64phases => 2, Self::Wrr128phases => 3,
    Self::TimeBasedWrr128phases => 4, Self::Wrr256phases => 5; Reserved });
codes!(mfvc_m::FunctionArbitrationSelect { Self::HardwareFixedArbitration => 0, Self::Wrr32phases => 1, Self::Wrr64phases => 2, Self::Wrr128phases => 3,
    Self::TimeBasedWrr128phases => 4, Self::Wrr256phases => 5; Reserved });

pub const VC_PHASES: [usize; 8] = [0, 32, 64, 128, 0, 0, 0, 0];
pub const PORT_PHASES: [usize; 8] = [0, 32, 64, 128, 128, 256, 0, 0];

fn vc_common(c2: &vc_m::PortVcCapability2, ctl: &vc_m::PortVcControl, st: &vc_m::PortVcStatus, b: &[u8], o: &mut Obs) {
    let a = &c2.vc_arbitration_capability;
    rs!(o, 0x08, [1 a.hardware_fixed_arbitration, 1 a.wrr_32_phases, 1 a.wrr_64_phases, 1 a.wrr_128_phases, 4 a.reserved, 16 _, 8 c2.vc_arbitration_table_offset]);
    rs!(o, 0x0c, [1 ctl.load_vc_arbitration_table, 3 ctl.vc_arbitration_select]);
    r!(o, st.vc_arbitration_table_status, 0x0e, 0, 1);
    o.eq("vc_arbitration_table_length()", ctl.vc_arbitration_select.vc_arbitration_table_length(),
        VC_PHASES[get_bits(b, 0x0c * 8 + 1, 3).unwrap_or(0) as usize]);
}

fn vat(t: vc_m::VcArbitrationTable, at: usize, phases: usize, whole: bool, o: &mut Obs) {
    let v = o.drain("vc_arbitration_table", t, 128);
    o.tab(0);
    o.dep(at, phases / 2);
    o.rule("vc_arbitration_table.count", if whole { v.len() == phases } else { v.len() <= phases }, || {
        format!("{} phases reported, {} declared, complete: {}", v.len(), phases, whole)
    });
    for (i, e) in v.iter().enumerate() {
        o.tab(i);
        r!(o, e.vc_id, at + i / 2, (i as u32 % 2) * 4, 3);
    }
    o.reg();
}

/// entries of a port/function arbitration table, known only by their printed form
fn arb_table<T: std::fmt::Debug>(v: &[T], name: &'static str, at: usize, bits: usize, count: usize, whole: bool, o: &mut Obs) {
    o.dep(at, bits * count / 8);
    o.rule(name, if whole { v.len() == count } else { v.len() <= count }, || {
        format!("{} phases reported, {} declared, complete: {}", v.len(), count, whole)
    });
    for (i, e) in v.iter().enumerate() {
        let txt = format!("{:?}", e);
        // the last number in it; names may hold digits, too
        let Some(num) = txt.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).last().and_then(|x| x.parse::<u64>().ok()) else { continue };
        let bit = at * 8 + bits * i;
        o.f(name, bit / 8, bit as u32 % 8, bits as u32, num);
    }
}

pub fn vc(s: &VirtualChannel, b: &[u8], o: &mut Obs) {
    let c = &s.port_vc_capability_1;
    rs!(o, 0x04, [3 c.extended_vc_count, 1 _, 3 c.low_priority_extended_vc_count, 1 _, 2 c.reference_clock]);
    let g = |bit, w| get_bits(b, bit, w).unwrap_or(0) as usize;
    let bits = 1usize << g(0x05 * 8 + 2, 2);
    o.dep(0x05, 1);
    o.eq("port_arbitration_table_entry_size.bits()", c.port_arbitration_table_entry_size.bits(), bits);
    vc_common(&s.port_vc_capability_2, &s.port_vc_control, &s.port_vc_status, b, o);
    let (off, phases) = (g(0x0b * 8, 8) * 16, VC_PHASES[g(0x0c * 8 + 1, 3)]);
    if off == 0 {
        let v = o.drain("vc_arbitration_table", s.vc_arbitration_table(), 128);
        o.tab(0);
        o.rule("vc_arbitration_table absent", v.is_empty(), || format!("{} phases from a table that is not present", v.len()));
        o.reg();
    } else {
        vat(s.vc_arbitration_table(), off, phases, b.len() >= off + phases / 2, o);
    }
    let n = g(0x04 * 8, 3) + 1;
    let evcs = o.drain("extended_virtual_channels", s.extended_virtual_channels(), 8);
    o.tab(0);
    o.eq("extended_virtual_channels.count", evcs.iter().filter(|x| x.is_ok()).count(), n.min((b.len() - 0x10) / 12));
    for (i, e) in evcs.iter().enumerate() {
        let Ok(e) = e else { continue };
        o.tab(i);
        let at = 0x10 + 12 * i;
        let (k, q, t) = (&e.vc_resource_capability, &e.vc_resource_control, &e.vc_resource_status);
        let p = &k.port_arbitration_capability;
        rs!(o, at, [1 p.hardware_fixed_arbitration, 1 p.wrr_32_phases, 1 p.wrr_64_phases, 1 p.wrr_128_phases, 1 p.time_based_wrr_128_phases,
            1 p.wrr_256_phases, 2 p.reserved, 6 _, 1 k.advanced_packet_switching, 1 k.reject_snoop_transactions, 7 k.maximum_time_slots, 1 _,
            8 k.port_arbitration_table_offset]);
        rs!(o, at + 4, [8 q.tc_or_vc_map, 8 _, 1 q.load_port_arbitration_table, 3 q.port_arbitration_select, 4 _, 3 q.vc_id, 4 _, 1 q.vc_enable]);
        rs!(o, at + 10, [1 t.port_arbitration_table_status, 1 t.vc_negotiation_pending]);
        let sel = g((at as u32 + 6) * 8 + 1, 3);
        o.eq("port_arbitration_table_length()", q.port_arbitration_select.port_arbitration_table_length(), PORT_PHASES[sel]);
        o.wb("PortArbitrationSelect -> u8", u8::from(q.port_arbitration_select.clone()) as usize, sel);
        let (poff, count) = (g((at as u32 + 3) * 8, 8) * 16, PORT_PHASES[sel]);
        let v = o.drain("port_arbitration_table", s.port_arbitration_table(e), 256);
        o.tab(i);
        if poff == 0 {
            o.rule("port_arbitration_table absent", v.is_empty(), || format!("{} phases from a table that is not present", v.len()));
        } else {
            arb_table(&v, "port_arbitration_table", poff, bits, count, b.len() >= poff + bits * count / 8, o);
        }
    }
    o.reg();
}

pub fn mfvc(s: &MultifunctionVirtualChannel, b: &[u8], o: &mut Obs) {
    let c = &s.port_vc_capability_1;
    rs!(o, 0x04, [3 c.extended_vc_count, 1 _, 3 c.low_priority_extended_vc_count, 1 _, 2 c.reference_clock, 2 c.function_arbitration_table_entry_size.0]);
    let g = |bit, w| get_bits(b, bit, w).unwrap_or(0) as usize;
    let bits = 1usize << g(0x05 * 8 + 2, 2);
    o.eq("function_arbitration_table_entry_size.bits()", c.function_arbitration_table_entry_size.bits(), bits);
    vc_common(&s.port_vc_capability_2, &s.port_vc_control, &s.port_vc_status, b, o);
    let (off, phases) = (g(0x0b * 8, 8) * 16, VC_PHASES[g(0x0c * 8 + 1, 3)]);
    o.eq("vc_arbitration_table present", s.vc_arbitration_table.is_some(), off != 0);
    if let Some(t) = &s.vc_arbitration_table {
        vat(t.clone(), off, phases, b.len() >= off + phases / 2, o);
    }
    let n = g(0x04 * 8, 3) + 1;
    let evcs = o.drain("extended_virtual_channels", s.extended_virtual_channels.clone(), 8);
    o.tab(0);
    o.eq("extended_virtual_channels.count", evcs.len(), n.min((b.len() - 0x10) / 12));
    for (i, e) in evcs.into_iter().enumerate() {
        o.tab(i);
        let at = 0x10 + 12 * i;
        {
            let (k, q, t) = (&e.vc_resource_capability, &e.vc_resource_control, &e.vc_resource_status);
            let p = &k.function_arbitration_capability;
            rs!(o, at, [1 p.hardware_fixed_arbitration, 1 p.wrr_32_phases, 1 p.wrr_64_phases, 1 p.wrr_128_phases, 1 p.time_based_wrr_128_phases,
                1 p.wrr_256_phases, 2 p.reserved, 8 _, 7 k.maximum_time_slots, 1 _, 8 k.function_arbitration_table_offset]);
            rs!(o, at + 4, [8 q.tc_to_vc_map, 8 _, 1 q.load_function_arbitration_table, 3 q.function_arbitration_select, 4 _, 3 q.vc_id, 4 _, 1 q.vc_enable]);
            rs!(o, at + 10, [1 t.function_arbitration_table_status, 1 t.vc_negotiation_pending]);
        }
        let sel = g((at as u32 + 6) * 8 + 1, 3);
        let q = &e.vc_resource_control;
        o.eq("function_arbitration_table_length()", q.function_arbitration_select.function_arbitration_table_length(), PORT_PHASES[sel]);
        o.wb("FunctionArbitrationSelect -> u8", u8::from(q.function_arbitration_select.clone()) as usize, sel);
        o.wb("VcResourceControl -> u32", u32::from(q.clone()) as usize, g((at as u32 + 4) * 8, 32) & 0x870f_00ff);
        o.wb("VcResourceCapability -> u32", u32::from(e.vc_resource_capability.clone()) as usize, g(at as u32 * 8, 32) & 0xff7f_00ff);
        o.wb("VcResourceStatus -> u16", u16::from(e.vc_resource_status.clone()) as usize, g((at as u32 + 10) * 8, 16) & 3);
        let (foff, count) = (g((at as u32 + 3) * 8, 8) * 16, PORT_PHASES[sel]);
        let whole = b.len() >= foff + bits * count / 8;
        o.eq("function_arbitration_table present", e.function_arbitration_table.is_some(), foff >= 32 && whole);
        o.dep(foff, bits * count / 8);
        if let Some(t) = &e.function_arbitration_table {
            let v = o.drain("function_arbitration_table", t.clone(), 256);
            o.tab(i);
            arb_table(&v, "function_arbitration_table", foff, bits, count, whole, o);
        }
        let mut want = [0u8; 12];
        if let Some(raw) = b.get(at..at + 12) {
            for (k, m) in [0xffu8, 0, 0x7f, 0xff, 0xff, 0, 0x0f, 0x87, 0, 0, 3, 0].iter().enumerate() {
                want[k] = raw[k] & m;
            }
        }
        let back: [u8; 12] = e.into();
        o.wb("ExtendedVirtualChannel -> [u8; 12]", back, want);
    }
    o.reg();
}
