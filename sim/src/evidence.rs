//! Evidence file of one check.
use crate::stats::Stats;

fn q(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            c if (c as u32) < 32 => t.push(' '),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

/// Outcomes the generator is meant to reach, by list.
fn expected(prop: u8) -> Vec<String> {
    let s = |p: &str, v: &[&str]| v.iter().map(|x| format!("{}{}", p, x)).collect::<Vec<_>>();
    let std = [
        "Null", "PowerManagement", "Agp", "Vpd", "SlotId", "Msi", "CompactPciHotSwap", "PciX", "PciXBridge", "Hypertransport", "VendorSpecific",
        "DebugPort", "CompactPciResourceControl", "PciHotPlug", "BridgeSubsystem", "Agp8x", "SecureDevice", "PciExpress", "MsiX", "Sata",
        "AdvancedFeatures", "EnhancedAllocation", "FlatteningPortalBridge", "unassigned", "!Pointer", "!Header", "!Data", "!Msi/Size64bit",
        "!PciX/CommandAndStatus", "!PciXBridge/Mandatory", "!Hypertransport/MsiMapping", "!VendorSpecific/Data", "!PciExpress/RequiredBytesSlice",
        "!EnhancedAllocation/NumEntries",
    ];
    let ext = [
        "Null", "Aer", "Vc", "SerialNumber", "PowerBudgeting", "Rcld", "Rcilc", "Rcec", "Mfvc", "VcMfvcPresent", "Rcrb", "Vsec", "Cac", "Acs", "Ari",
        "Ats", "SrIov", "MrIov", "Multicast", "PageRequest", "ReservedForAmd", "ResizableBar", "Dpa", "Tph", "Ltr", "SecondaryPciExpress", "Pmux",
        "Pasid", "Lnr", "Dpc", "L1Pm", "Ptm", "Mphy", "Frs", "Rtr", "Dvsec", "VfResizableBar", "DataLinkFeature", "PhysicalLayer16", "LaneMargining",
        "HierarchyId", "Npem", "PhysicalLayer32", "AlternateProtocol", "Sfi", "ShadowFunctions", "DataObjectExchange", "Device3", "IntegrityAndDataEncryption", "PhysicalLayer64GTps", "FlitLogging", "FlitPerformanceMeasurement", "FlitErrorInjection", "unassigned", "!Offset", "!Header", "!Data", "!Aer/Common",
        "!Rcld/NumberOfLinkEntries", "!Mfvc/VcArbitrationTableData", "!ResizableBar/ShortData", "!Pmux/PmuxProtocolArray", "!Dpc/Mandatory",
        "!Dvsec/VendorSpecificRegisters",
    ];
    let (a, b) = match prop {
        3 | 10 => (true, false),
        4 | 11 => (false, true),
        8 | 9 | 12 => (false, false),
        _ => (true, true),
    };
    let mut v = vec![];
    if a {
        v.extend(s("std ", &std));
    }
    if b {
        v.extend(s("ext ", &ext));
    }
    if matches!(prop, 1 | 5 | 8 | 13) {
        v.extend(s("header ", &["endpoint", "bridge", "cardbus", "unassigned", "!Header"]));
    }
    if prop == 9 {
        v.extend(s("window ", &["mem32", "mem1M", "mem64", "mem64-cut", "mem-reserved", "io", "of a virtual function"]));
    }
    if prop == 12 {
        v.extend(s("table of ", &["EnhancedAllocation", "Vc", "Rcld", "Mfvc", "Acs", "ResizableBar", "Dpa", "Tph", "Pmux"]));
    }
    if prop == 7 {
        v.extend(s("handle ", &[
            "Capabilities", "ExtendedCapabilities", "BaseAddresses<6>", "BaseAddresses<2>", "BaseAddresses<1>", "EnhancedAllocationEntries",
            "vc::ExtendedVirtualChannels", "vc::VcArbitrationTable", "vc::PortArbitrationTable", "mfvc::VcArbitrationTable",
            "mfvc::FunctionArbitrationTable", "mfvc::ExtendedVirtualChannels", "ResizableBar", "EgressControlVectors", "PmuxProtocolArray",
            "LinkEntries", "SrIov BaseAddresses<6>", "EqualizationControlLanes",
        ]));
        v.extend(s("handles compare ", &["equal", "unequal"]));
        v.extend(s("copy at ", &["the start", "the middle", "the end"]));
    }
    if prop == 16 {
        v.extend(s("again ", &["aligned", "unaligned", "by another thread", "by a new process"]));
    }
    if prop == 15 {
        v.extend(s("alone ", &[
            "PowerManagement", "Agp", "Vpd", "SlotId", "Msi", "PciX", "PciXBridge", "Hypertransport", "VendorSpecific", "DebugPort", "BridgeSubsystem",
            "PciExpress", "MsiX", "Sata", "AdvancedFeatures", "EnhancedAllocation", "FlatteningPortalBridge", "Aer", "Vc", "SerialNumber",
            "PowerBudgeting", "Rcld", "Rcilc", "Rcec", "Mfvc", "Rcrb", "Vsec", "Cac", "Acs", "Ari", "Ats", "SrIov", "Multicast", "PageRequest",
            "ResizableBar", "Dpa", "Tph", "Ltr", "SecondaryPciExpress", "Pmux", "Pasid", "Lnr", "Dpc", "L1Pm", "Ptm", "Frs", "Rtr", "Dvsec",
            "VfResizableBar", "!Msi/Size64bit", "!EnhancedAllocation/NumEntries", "!Aer/Common", "!Rcld/NumberOfLinkEntries",
        ]));
    }
    v
}

#[allow(clippy::too_many_arguments)]
pub fn json(prop: u8, thorough: bool, seed: u64, st: &Stats, wall: f64, violations: u32, workers: usize, also: Option<&str>) -> String {
    let mut faults: Vec<_> = st.faults.iter().collect();
    faults.sort();
    let mut reach: Vec<_> = st.reach.values().collect();
    reach.sort();
    let missing: Vec<String> = expected(prop).into_iter().filter(|e| !st.reach.values().any(|r| r.0 == *e)).collect();
    let rate = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let samples: Vec<String> = st.samples.iter().map(|(i, s)| q(&format!("run {}: {}", i, s))).collect();
    let mut t = String::from("{\n");
    t += &format!("  \"property\": \"P{:02}\",\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", prop, q(if thorough { "thorough" } else { "quick" }), seed);
    t += "  \"coverage\": {\n";
    t += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", st.runs, st.nontrivial.len());
    t += &format!(
        "    \"rule\": {},\n",
        q("a run counts as distinct and non-trivial by its sequence of (list outcomes per capture, faults fired, handle operations), when it yielded at least one list entry and either a fault fired or two or more entries were decoded; an evaluation is one simulated run of one plan; comparisons counts single reported values, outcomes, rules and handle operations compared with the reference")
    );
    t += &format!("    \"samples\": [\n      {}\n    ],\n", samples.join(",\n      "));
    t += &format!("    \"comparisons\": {},\n    \"fault_free_runs\": {},\n    \"runs_per_hour\": {},\n", st.evals, st.clean_runs, rate(st.runs));
    t += &format!("    \"simulated_seconds\": {:.3},\n    \"events\": {},\n    \"captures\": {},\n    \"captures_cut_short\": {},\n    \"list_entries\": {},\n    \"values_compared\": {},\n", st.sim_us as f64 / 1e6, st.events, st.captures, st.short_captures, st.entries, st.values);
    t += &format!("    \"longest_lists\": [{}, {}],\n", st.max_std, st.max_ext);
    t += &format!("    \"distinct_capture_shapes\": {},\n    \"distinct_fault_sequences\": {},\n    \"distinct_handle_histories\": {},\n", st.shapes.len(), st.fault_seqs.len(), st.histories.len());
    t += &format!("    \"faults_fired\": {{{}}},\n", faults.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "));
    t += &format!("    \"reached\": {{{}}},\n", reach.iter().take(400).map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "));
    t += &format!("    \"not_reached\": [{}],\n", missing.iter().map(|m| q(m)).collect::<Vec<_>>().join(", "));
    t += &format!("    \"configuration\": {},\n", q(crate::VARIANT));
    if let Some(a) = also {
        t += &format!("    \"other_configurations\": [{}],\n", a.trim());
    }
    t += &format!("    \"digest\": \"{:016x}\",\n    \"workers\": {},\n", st.digest, workers);
    t += &format!("    \"real_code\": [{}],\n", [q("the pcics crate, unmodified, as built from /repo"), q("heterob, snafu, modular-bitfield as locked")].join(", "));
    t += &format!("    \"stubs\": [{}]\n", [q("devices (register files)"), q("collectors reading the configuration space"), q("capture storage")].join(", "));
    t += "  },\n";
    t += &format!("  \"wall_s\": {:.2},\n  \"violations\": {},\n", wall, violations);
    t += &format!(
        "  \"assumptions\": [{}, {}, {}]\n}}\n",
        q("the register layouts written down in sim/src/regs_*.rs, walk.rs and bars.rs are those of the PCI specifications the library implements"),
        q("a capture is a prefix of the configuration space starting at offset 0, at most 4096 bytes"),
        q("violations outside of the explored runs are possible: the search is seeded, not exhaustive")
    );
    t
}
