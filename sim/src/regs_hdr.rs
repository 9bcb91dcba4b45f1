//! Reference register map of the configuration header.
use crate::obs::{get_bits, Obs};
use crate::bars;
use pcics::header::*;

fn gb(b: &[u8], off: usize, lo: u32, w: u32) -> u64 {
    get_bits(b, off as u32 * 8 + lo, w).unwrap_or(0)
}

codes!(DevselTiming { Self::Fast => 0, Self::Medium => 1, Self::Slow => 2, Self::Undefined => 3 });
codes!(InterruptPin { Self::Unused => 0, Self::IntA => 1, Self::IntB => 2, Self::IntC => 3, Self::IntD => 4,
    Self::Reserved(v) => if *v > 4 { *v as u64 } else { u64::MAX } });

fn status<const T: char>(c: &Status<T>, at: usize, o: &mut Obs) {
    rs!(o, at, [3 c.reserved, 1 c.interrupt_status, 1 c.capabilities_list, 1 c.is_66mhz_capable, 1 c.user_definable_features,
        1 c.fast_back_to_back_capable, 1 c.master_data_parity_error, 2 c.devsel_timing, 1 c.signaled_target_abort,
        1 c.received_target_abort, 1 c.received_master_abort, 1 c.system_error, 1 c.detected_parity_error]);
}

fn rom(c: &ExpansionRom, at: usize, b: &[u8], o: &mut Obs) {
    rs!(o, at, [1 c.is_enabled, 10 c.reserved]);
    o.fs("expansion_rom.address", at, 11, 21, c.address as u64, 11);
    let raw = gb(b, at, 0, 32);
    o.wb("ExpansionRom -> u32", u32::from(c.clone()) as u64, raw);
    o.wb("ExpansionRom -> u64", u64::from(c.clone()), raw);
}

fn io_window(c: &IoAccessAddressRange, at: usize, b: &[u8], o: &mut Obs) {
    let w = |i: usize| gb(b, at + 2 * i, 0, 16) as u16;
    let want = match w(0) & 3 {
        0 => IoAccessAddressRange::Addr16Bit { base: w(0) & !3, limit: w(2) & !3 },
        1 => IoAccessAddressRange::Addr32Bit {
            base: (w(1) as u32) << 16 | (w(0) & !3) as u32,
            limit: (w(3) as u32) << 16 | (w(2) & !3) as u32,
        },
        k => IoAccessAddressRange::Unknown {
            io_address_capability: k as u8,
            base_lower: w(0) & !3,
            base_upper: w(1),
            limit_lower: w(2) & !3,
            limit_upper: w(3),
        },
    };
    o.dep(at, 8);
    o.eq("cardbus I/O window", c.clone(), want);
    let back: [[u16; 2]; 2] = c.clone().into();
    let keep = if w(0) & 3 == 0 { 0 } else { 0xffff };
    o.wb("IoAccessAddressRange -> registers", back, [[w(0), w(1) & keep], [w(2) & !3, w(3) & keep]]);
}

pub fn header(h: &Header, b: &[u8], o: &mut Obs) {
    r!(o, h.vendor_id, 0x00, 0, 16);
    r!(o, h.device_id, 0x02, 0, 16);
    let c = &h.command;
    rs!(o, 0x04, [1 c.io_space, 1 c.memory_space, 1 c.bus_master, 1 c.special_cycles, 1 c.memory_write_and_invalidate_enable,
        1 c.vga_palette_snoop, 1 c.parity_error_response, 1 c.stepping, 1 c.serr_enable, 1 c.fast_back_to_back_enable,
        1 c.interrupt_disable, 5 c.reserved]);
    status(&h.status, 0x06, o);
    r!(o, h.revision_id, 0x08, 0, 8);
    rs!(o, 0x09, [8 h.class_code.interface, 8 h.class_code.sub, 8 h.class_code.base]);
    let m = crate::classes::meaning(gb(b, 0x0b, 0, 8) as u8, gb(b, 0x0a, 0, 8) as u8, gb(b, 0x09, 0, 8) as u8);
    o.eq("class_code.meaning()", h.class_code.meaning(), m);
    r!(o, h.cache_line_size, 0x0c, 0, 8);
    r!(o, h.latency_timer, 0x0d, 0, 8);
    r!(o, h.is_multi_function, 0x0e, 7, 1);
    rs!(o, 0x0f, [4 h.bist.completion_code, 2 _, 1 h.bist.is_running, 1 h.bist.is_capable]);
    o.wb("BuiltInSelfTest -> u8", u8::from(h.bist.clone()) as u64, gb(b, 0x0f, 0, 8) & 0xcf);
    let t = gb(b, 0x0e, 0, 7);
    o.wb("HeaderType -> u8", u8::from(&h.header_type) as u64, t);
    o.wb("HeaderType -> u8", u8::from(h.header_type.clone()) as u64, t);
    o.wb("InterruptPin -> u8", u8::from(h.interrupt_pin), if t <= 2 { gb(b, 0x3d, 0, 8) as u8 } else { 0 });
    let common = |cap: usize, o: &mut Obs| {
        o.f("capabilities_pointer", cap, 2, 6, h.capabilities_pointer as u64 >> 2);
        o.eq("capabilities_pointer alignment", h.capabilities_pointer & 3, 0);
        r!(o, h.interrupt_line, 0x3c, 0, 8);
        r!(o, h.interrupt_pin, 0x3d, 0, 8);
    };
    let code = match &h.header_type {
        HeaderType::Normal(n) => {
            common(0x34, o);
            bars::observe(&n.base_addresses, b, 0x10, o);
            r!(o, n.cardbus_cis_pointer, 0x28, 0, 32);
            r!(o, n.sub_vendor_id, 0x2c, 0, 16);
            r!(o, n.sub_device_id, 0x2e, 0, 16);
            rom(&n.expansion_rom, 0x30, b, o);
            r!(o, n.min_grant, 0x3e, 0, 8);
            r!(o, n.max_latency, 0x3f, 0, 8);
            0
        }
        HeaderType::Bridge(n) => {
            common(0x34, o);
            bars::observe(&n.base_addresses, b, 0x10, o);
            rs!(o, 0x18, [8 n.primary_bus_number, 8 n.secondary_bus_number, 8 n.subordinate_bus_number, 8 n.secondary_latency_timer]);
            status(&n.secondary_status, 0x1e, o);
            r!(o, n.memory_base, 0x20, 0, 16);
            r!(o, n.memory_limit, 0x22, 0, 16);
            rom(&n.expansion_rom, 0x38, b, o);
            let c = &n.bridge_control;
            rs!(o, 0x3e, [1 c.parity_error_response_enable, 1 c.serr_enable, 1 c.isa_enable, 1 c.vga_enable, 1 c.vga_16_enable,
                1 c.master_abort_mode, 1 c.secondary_bus_reset, 1 c.fast_back_to_back_enable, 1 c.primary_discard_timer,
                1 c.secondary_discard_timer, 1 c.discard_timer_status, 1 c.discard_timer_serr_enable]);
            let (ib, il) = (gb(b, 0x1c, 0, 8), gb(b, 0x1d, 0, 8));
            o.dep(0x1c, 2);
            o.dep(0x30, 4);
            use BridgeIoAddressRange as I;
            let want = match (ib & 15, il & 15) {
                (0, 0) if ib == 0 && il == 0 => I::NotImplemented,
                (0, 0) => I::IoAddr16 { base: (ib as u16) << 8, limit: (il as u16) << 8 },
                (1, 1) => I::IoAddr32 {
                    base: (gb(b, 0x30, 0, 16) << 16 | (ib & 0xf0) << 8) as u32,
                    limit: (gb(b, 0x32, 0, 16) << 16 | (il & 0xf0) << 8) as u32,
                },
                (x, y) if x == y => I::Reserved { base: ib as u8, limit: il as u8 },
                _ => I::Malformed { base: ib as u8, limit: il as u8 },
            };
            o.eq("io_address_range", n.io_address_range.clone(), want);
            let (pb, pl) = (gb(b, 0x24, 0, 16), gb(b, 0x26, 0, 16));
            o.dep(0x24, 12);
            use BridgePrefetchableMemory as P;
            let want = match (pb & 15, pl & 15) {
                (0, 0) if pb == 0 && pl == 0 => P::NotImplemented,
                (0, 0) => P::MemAddr32 { base: (pb as u32) << 16, limit: (pl as u32) << 16 },
                (1, 1) => P::MemAddr64 {
                    base: gb(b, 0x28, 0, 32) << 32 | (pb & 0xfff0) << 16,
                    limit: gb(b, 0x2c, 0, 32) << 32 | (pl & 0xfff0) << 16,
                },
                (x, y) if x == y => P::Reserved { base: pb as u16, limit: pl as u16 },
                _ => P::Malformed { base: pb as u16, limit: pl as u16 },
            };
            o.eq("prefetchable_memory", n.prefetchable_memory.clone(), want);
            1
        }
        HeaderType::Cardbus(n) => {
            common(0x14, o);
            bars::observe(&n.base_addresses, b, 0x10, o);
            status(&n.secondary_status, 0x16, o);
            rs!(o, 0x18, [8 n.pci_bus_number, 8 n.cardbus_bus_number, 8 n.subordinate_bus_number, 8 n.cardbus_latency_timer]);
            r!(o, n.memory_base_address_0, 0x1c, 0, 32);
            r!(o, n.memory_limit_address_0, 0x20, 0, 32);
            r!(o, n.memory_base_address_1, 0x24, 0, 32);
            r!(o, n.memory_limit_address_1, 0x28, 0, 32);
            io_window(&n.io_access_address_range_0, 0x2c, b, o);
            io_window(&n.io_access_address_range_1, 0x34, b, o);
            let c = &n.bridge_control;
            rs!(o, 0x3e, [1 c.parity_error_response_enable, 1 c.serr_enable, 1 c.isa_enable, 1 c.vga_enable, 1 _, 1 c.master_abort_mode,
                1 c.cardbus_reset, 1 c.ireq_int_enable, 1 c.memory_0_prefetch_enable, 1 c.memory_1_prefetch_enable, 1 c.write_posting_enable]);
            o.eq("optional registers before they are supplied",
                (n.subsystem_vendor_id, n.subsystem_device_id, n.legacy_mode_base_address, n.reserved), (None, None, None, None));
            // the registers past the 64-byte header, supplied by the caller from what was captured
            let rest = b.get(0x40..).unwrap_or_default();
            let mut full = n.clone();
            let set = full.try_set_optional_registers(rest).is_ok();
            o.eq("optional registers readable", set, rest.len() >= 0x40);
            if set {
                o.eq("optional registers present", (full.subsystem_vendor_id.is_some(), full.subsystem_device_id.is_some(),
                    full.legacy_mode_base_address.is_some(), full.reserved.is_some()), (true, true, true, true));
                if let (Some(v), Some(d), Some(l), Some(x)) =
                    (full.subsystem_vendor_id, full.subsystem_device_id, full.legacy_mode_base_address, full.reserved) {
                    rs!(o, 0x40, [16 v, 16 d]);
                    r!(o, l, 0x44, 0, 32);
                    o.blob("cardbus reserved area", 0x48, &x);
                }
            } else {
                o.rule("optional registers after a failed read", full == *n, || "a refused read changed the header".into());
            }
            2
        }
        HeaderType::Reserved(v) => {
            o.rule("reserved header type", *v > 2, || format!("header type {} reported as reserved", v));
            o.eq("registers of an unknown layout", (h.capabilities_pointer, h.interrupt_line, u8::from(h.interrupt_pin)), (0, 0, 0));
            *v as u64
        }
    };
    o.f("header_type", 0x0e, 0, 7, code);
    let want = match t {
        0 => Some(gb(b, 0x30, 0, 32)),
        1 => Some(gb(b, 0x38, 0, 32)),
        _ => None,
    };
    o.eq("expansion_rom()", h.header_type.expansion_rom().map(|x| u32::from(x) as u64), want);
}
