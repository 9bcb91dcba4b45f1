#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json
C = "src/capabilities.rs"; X = "src/extended_capabilities.rs"; H = "src/header.rs"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}
IFH = ["inputs", "fault_sequences", "histories"]
ps = [
P("P01", "Decoding never panics, whatever bytes were captured",
  "Decoding the header, walking both capability lists, reading every value and nested table of every decoded structure, printing any of it and converting it back to registers never panics, overflows or indexes out of bounds. This holds for any bytes of any length, including captures of absent, half-read or corrupted devices.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "every byte sequence of 0..4096 bytes, however it came about (short reads, all-ones, torn or stale storage, driver writes during the capture), in both cargo feature configurations",
  "The tests decode a few hundred well-formed byte arrays; a panic needs a particular combination of a length or count field and the place where the capture ends.",
  ["src/"], [("fallible slicing and typed decoding errors", "TryFrom<&[u8]> implementations in src/header, src/capabilities/*, src/extended_capabilities/*"), ("list iterators", f"{C} Capabilities::next, {X} ExtendedCapabilities::next")],
  observe=["public constructors, iterators, Debug/Display, From<structure> for register"]),
P("P02", "Every walk over captured data ends, within the room the space has",
  "The walk over the standard list yields at most as many entries as fit into its region (48) and the walk over the extended list at most 960, even when pointers form a cycle. Every other iterator over decoded data ends within its declared count or its captured bytes, and once any iterator has ended it stays ended.",
  IFH, "every capture, in particular every next-pointer graph: self loops, long cycles, overlapping entries, pointers into the header or past the end",
  "No test has a list with a cycle; the number of pointer graphs is astronomically large.",
  [C, X, "src/capabilities/enhanced_allocation.rs", "src/extended_capabilities/"],
  [("bounded list iterators", f"{C} Capabilities::next; {X} ExtendedCapabilities::next"), ("nested table iterators", "virtual_channel.rs, multifunction_virtual_channel.rs, root_complex_link_declaration.rs, resizable_bar.rs, enhanced_allocation.rs, access_control_services.rs, protocol_multiplexing.rs, secondary_pci_express.rs, bar.rs")],
  state=[("position of a list walk", "next pointer and number of entries the region still has room for", f"{C} Capabilities, {X} ExtendedCapabilities")]),
P("P03", "The standard list is exactly what the captured pointers chain together",
  "The standard capability walk visits, in chain order, exactly the entries reached from the header's capability pointer through the next pointers with their two reserved bottom bits ignored, up to a null pointer, and reports each at its own offset and as the kind its ID names (unassigned IDs as reserved, carrying the ID). A pointer that leads outside the captured region, or to an entry whose two-byte header was not captured, gives one error naming that place and ends the walk.",
  IFH, "every standard region content and capture length, for endpoint, bridge, CardBus and unassigned header layouts",
  "Tests walk a handful of real dumps with ordered, aligned, complete chains.",
  [C, H], [("list iterator", f"{C} Capabilities::next / parse_cap"), ("start of the list", f"{H} capabilities_pointer per layout type")],
  observe=["sequence of (offset, kind) or error yielded by Capabilities"]),
P("P04", "The extended list is exactly what the captured headers chain together",
  "The extended capability walk visits, in chain order, exactly the entries reached from offset 0x100 through the next offsets with their two reserved bottom bits ignored, up to a zero offset, and reports each with its own offset, version and ID and as the kind its ID names. An all-zero entry header ends the walk silently; an offset below the extended space or past the captured bytes, or a cut-off entry header, gives one error naming that place and ends the walk.",
  IFH, "every extended region content and capture length",
  "Tests walk a handful of real dumps with ordered, aligned, complete chains.",
  [X], [("list iterator", f"{X} ExtendedCapabilities::next / parse_ecap"), ("header decoding", f"{X} ExtendedCapabilityHeader")],
  observe=["sequence of (offset, version, id, kind) or error yielded by ExtendedCapabilities"]),
P("P05", "A short capture yields errors or absence, never invented values",
  "When a capture ends early, every value still reported equals the captured bytes at its place, and nothing is reported for registers whose bytes were not captured: the structure fails with the error that names the missing part, or an optional part is reported absent. Conversely, a structure or optional part whose bytes were all captured is never refused or reported absent for lack of data. An error says the place of its entry, the structure it concerns and, where it gives sizes, counts or codes, the ones that entry needs or holds.",
  ["inputs", "crash_points", "fault_sequences"], "every device and every length at which its capture can stop (short read, collector crash, lost tail in storage)",
  "Tests decode complete structures; only a few single-structure error cases are sampled.",
  ["src/"], [("typed short-data errors", "CapabilityError/ExtendedCapabilityError and the per-structure error enums"), ("optional tail registers", "AGP, AER root registers, DPC RP PIO logs, MSI mask/pending, virtual channel tables, ...")]),
P("P06", "Damage stays local: each entry depends only on its own bytes",
  "What is decoded for an entry of either list depends only on the bytes of that entry (plus the header's layout type and vendor and device IDs), not on the bytes of its neighbours or on the offset the entry sits at. An entry that cannot be decoded is reported as an error at its place and does not hide or change the entries after it.",
  IFH, "every pair of captures that differ outside of an entry; every place an entry can be moved to; every combination of undecodable entries",
  "Tests never compare decodings across captures.",
  [C, X, "src/capabilities/", "src/extended_capabilities/"], [("per-entry slicing", f"{C} parse_cap, {X} parse_ecap"), ("errors carry the place and the walk goes on", f"{C} CapabilityError, {X} ExtendedCapabilityError")]),
P("P07", "Iterator handles behave as values: copies and order of use never matter",
  "Whatever order handles over the same or different captures are opened, advanced, copied, compared, drained through any standard adaptor and dropped in, each handle yields exactly the remaining items of its own sequence. A copy continues from where the original stood and neither influences the other, size hints bracket the items left, and handles with different remaining items never compare equal while a copy always equals its original.",
  ["schedules", "histories", "inputs"], "every interleaving of open, next, nth, clone, compare, drain and drop over any number of handles and captures, for all list, table and base-address iterators",
  "Tests drain one fresh iterator once.",
  [C, X, "src/header/bar.rs", "src/capabilities/enhanced_allocation.rs", "src/extended_capabilities/"],
  [("iterator state kept by value", "Capabilities, ExtendedCapabilities, BaseAddresses, EnhancedAllocationEntries, *ArbitrationTable, ExtendedVirtualChannels, LinkEntries, ResizableBar, EgressControlVectors, PmuxProtocolArray, EqualizationControlLanes")],
  state=[("iterator position", "remaining bytes, counters and partially consumed bytes", "fields of the iterators above")]),
P("P08", "Every header field holds the stored register value of its layout type",
  "For each of the endpoint, bridge and CardBus layouts every decoded header field, flag, window and class name equals what the 64 captured header bytes store at that layout's register, with encoded values mapped as the PCI specification defines. Unassigned layout types keep the common fields, report their type code and nothing else, and fewer than 64 bytes are refused.",
  ["inputs", "fault_sequences"], "every 64-byte header content for every layout type, incl. registers changed by drivers and faults; optional CardBus registers for every capture length",
  "Tests decode a few samples per layout, mostly with zero or sparse registers.",
  [H, "src/header/"], [("layout selection and field extraction", f"{H} TryFrom<&[u8]> for Header"), ("class names", "src/header/class_code.rs"), ("command, status, bridge control", "src/header/command.rs, status.rs, bridge_control.rs, cardbus_bridge_control.rs")]),
P("P09", "Base addresses are decoded into the windows the registers describe",
  "Each non-zero base address register of a header or of a virtual-function block is reported exactly once, in register order and under its own region number, with the space, width, prefetchability and address its bits encode; a 64-bit window consumes two registers. A zero register is skipped, and a reserved type or a 64-bit window in the last register is reported as such.",
  ["inputs", "fault_sequences", "histories"], "every content of 1, 2 or 6 base address registers, in headers and in virtual-function blocks",
  "Tests have about a dozen register combinations.",
  ["src/header/bar.rs", H, "src/extended_capabilities/single_root_io_virtualization.rs"], [("base address iteration", "src/header/bar.rs BaseAddresses::next"), ("use in layouts", f"{H}, single_root_io_virtualization.rs")]),
P("P10", "Standard capabilities are decoded to the stored register values",
  "For every standard capability whose mandatory bytes were captured, decoding succeeds as the variant its bytes select, and every reported field, flag, enumeration and derived quantity equals what the captured registers store at the place and width the capability's specification gives. Optional registers are present exactly when the capability's own bits or the function kind call for them and they were captured.",
  ["inputs", "fault_sequences", "configurations"], "every register content of all standard capability kinds and their variants, at any offset, in both cargo feature configurations",
  "Each capability has one or two sample decodings; most bits are constant in all of them.",
  [C, "src/capabilities/"], [("decoders", "src/capabilities/*.rs"), ("dispatch by ID", f"{C} parse_cap")]),
P("P11", "Extended capabilities are decoded to the stored register values",
  "For every extended capability whose mandatory bytes were captured, decoding succeeds as the variant its bytes select, and every reported field, flag, enumeration and derived quantity equals what the captured registers store at the place and width the capability's specification gives. Optional registers are present exactly when the capability's own bits call for them and they were captured.",
  ["inputs", "fault_sequences"], "every register content of all extended capability kinds and their variants, at any offset",
  "Each capability has at most one or two sample decodings; most bits are constant in all of them.",
  [X, "src/extended_capabilities/"], [("decoders", "src/extended_capabilities/**/*.rs"), ("dispatch by ID", f"{X} parse_ecap")]),
P("P12", "Nested tables hold exactly the declared and captured elements",
  "Every variable-length part of a capability (allocation entries, virtual channels and arbitration tables, link entries, lane registers, resizable BARs, egress vectors, power arrays, steering tags, protocol arrays, vendor-specific data) yields its elements in order, each equal to the stored bytes at its place. There are never more elements than the capability declares nor than were captured, and a table that was captured in full yields all of its declared elements.",
  ["inputs", "crash_points", "configurations"], "every declared count, element size and offset in combination with every capture length, in both cargo feature configurations",
  "Tests have one complete table of one size per kind.",
  ["src/capabilities/enhanced_allocation.rs", "src/capabilities/vendor_specific.rs", "src/extended_capabilities/"],
  [("table iterators", "virtual_channel.rs, multifunction_virtual_channel.rs, root_complex_link_declaration.rs, secondary_pci_express.rs, resizable_bar.rs, access_control_services.rs, dynamic_power_allocation.rs, tph_requester.rs, protocol_multiplexing.rs, enhanced_allocation.rs")]),
P("P13", "Converting decoded values back reproduces the registers",
  "Where the library converts a decoded value back to its register or code (base addresses, I/O and memory ranges, ROM addresses, capability and class codes, power and latency registers and the other reverse conversions), the result equals the captured register in every bit the decoded value represents. Writing it to the device and capturing again decodes to an equal value.",
  ["inputs", "histories", "fault_sequences"], "every register content that can be captured and every decode, write back, capture, decode cycle",
  "Tests round-trip single samples of a few of the conversions.",
  [H, "src/header/", "src/extended_capabilities/", "src/capabilities/"], [("reverse conversions", "From<structure> for u8/u16/u32/[u8; N] across the crate")]),
P("P14", "Comparing two captures' structures detects changes and only changes",
  "Structures decoded from identical bytes compare equal, and structures that compare equal report the same kind and the same value for every public field and every element of their tables. Comparison is symmetric, so a register change visible in a decoded value is never missed when snapshots of a device are compared.",
  ["inputs", "histories", "fault_sequences"], "every pair of captures of changing devices, and every pair of copies with a few bytes changed",
  "Equality is used by the tests, not tested: a comparison that ignores a field makes them pass.",
  ["src/"], [("derived and hand-written equality", "PartialEq implementations, in particular in bar.rs, virtual_channel.rs, multifunction_virtual_channel.rs, root_complex_link_declaration.rs, access_control_services.rs, resizable_bar.rs, protocol_multiplexing.rs")]),
P("P15", "A structure decoded on its own agrees with what the lists report",
  "The header or a capability structure decoded through its own public conversion from a slice starting at its data gives, for a slice of any length, the same outcome, error and reported values that the lists give for the same bytes. Conversions from fixed-size arrays, where offered, agree with those from slices, so it does not matter which entry point a program uses.",
  ["inputs", "crash_points", "configurations"], "every structure of every capture, handed over with every length, through every public conversion, in both cargo feature configurations",
  "Tests use one entry point per structure with one sample, never two for the same bytes.",
  [C, X, H, "src/capabilities/", "src/extended_capabilities/"], [("entry slicing of the lists", f"{C} parse_cap, {X} parse_ecap"), ("public conversions", "TryFrom<&[u8]>, TryFrom<&Slice>, From<[u8; N]>, try_new across the crate")]),
P("P16", "Decoding depends on the captured bytes and on nothing else",
  "Decoding the same bytes again - later, after any other decoding, from a copy that lies elsewhere in memory at any alignment with other bytes around it, or on another thread - gives equal results that report the same values. Copies of decoded structures equal their originals.",
  ["histories", "schedules", "inputs"], "every history of decodings before it, every place in memory and every thread the same capture is decoded at",
  "Tests decode each sample once, from a static array, in a fresh order.",
  ["src/"], [("decoders are pure functions of their input", "whole crate: no global state, no unsafe, no address dependence")]),
]
with open("/verif/properties.jsonl", "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
