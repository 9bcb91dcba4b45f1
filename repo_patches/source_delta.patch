From cb3af14c958b6c0b02b8c05eba6fe46c6580f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 01/20] fix: stop the capabilities list at an unreadable
 capability header

The pointer was left unchanged, so the iterator returned the same
CapabilityError::Header forever.
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 2409f4c55a8cf5515ebe9b5f32ef9d7d0e1fe86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:40 +0000
Subject: [PATCH 02/20] fix: mask the reserved bottom bits of next capability
 pointers

The specification asks software to mask these two bits, as is already done
for the pointer in the header; an unmasked pointer led to a misaligned entry.
---
 src/capabilities.rs          | 3 ++-
 src/extended_capabilities.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..878554c 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -366,7 +366,8 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        // The bottom two bits are reserved and must be masked
+        *pointer = *next & !0b11;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..f58f7ea 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -280,7 +280,9 @@ fn parse_ecap<'a>(
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    // The bottom two bits are reserved and must be masked
+    let next_cap_offset: u16 = next_cap_offset;
+    *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
 
-- 
2.43.0


From 31e453602e9e6f80fea8ec6096ff0e6e67251db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:08 +0000
Subject: [PATCH 03/20] fix: end circular capabilities lists

A next pointer that leads back to an earlier entry made both list iterators
endless. No more entries are returned than fit into the region.
---
 src/capabilities.rs          | 21 ++++++++++++++++++---
 src/extended_capabilities.rs | 15 +++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 878554c..e86bee7 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -150,7 +150,7 @@ assert_eq!(sample, result);
 
 use snafu::prelude::*;
 
-use super::DDR_OFFSET;
+use super::{DDR_LENGTH, DDR_OFFSET};
 use crate::header::{Header, HeaderType};
 
 // 01h PCI Power Management Interface
@@ -342,10 +342,21 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// Number of capabilities the region still has room for. A list that goes on after that is
+    /// circular.
+    remaining: usize,
 }
 impl<'a> Capabilities<'a> {
+    /// Capabilities are DWORD aligned
+    const MAX_NUMBER: usize = DDR_LENGTH / 4;
+
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self {
+            data,
+            header,
+            pointer: header.capabilities_pointer,
+            remaining: Self::MAX_NUMBER,
+        }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
@@ -353,7 +364,11 @@ impl<'a> Iterator for Capabilities<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        if self.pointer == 0 {
+            return None;
+        }
+        self.remaining = self.remaining.checked_sub(1)?;
+        Some(parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index f58f7ea..23826bb 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -101,7 +101,7 @@ let sample = vec![
 use heterob::{P3, bit_numbering::{LsbInto, Lsb}, endianness::FromLeBytes};
 use snafu::prelude::*;
 
-use super::ECS_OFFSET;
+use super::{ECS_LENGTH, ECS_OFFSET};
 
 /// Extended Capability Header length in bytes
 pub const ECH_BYTES: usize = 4;
@@ -186,10 +186,20 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// Number of capabilities the space still has room for. A list that goes on after that is
+    /// circular.
+    remaining: usize,
 }
 impl<'a> ExtendedCapabilities<'a> {
+    /// Extended capabilities are DWORD aligned
+    const MAX_NUMBER: usize = ECS_LENGTH / ECH_BYTES;
+
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self {
+            ecs,
+            next_capability_offset: ECS_OFFSET as u16,
+            remaining: Self::MAX_NUMBER,
+        }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
@@ -199,6 +209,7 @@ impl<'a> Iterator for ExtendedCapabilities<'a> {
         if self.next_capability_offset == 0 {
             return None;
         }
+        self.remaining = self.remaining.checked_sub(1)?;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 1987a638ad9e6811af0b0fff6956345ec4ddf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:10 +0000
Subject: [PATCH 04/20] fix: decode extended capabilities from their own offset

Thirteen of them were given the start of the extended configuration space
instead, and decoded whichever capability comes first.
---
 src/extended_capabilities.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 23826bb..cd91e8c 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -295,6 +295,7 @@ fn parse_ecap<'a>(
     let next_cap_offset: u16 = next_cap_offset;
     *next_capability_offset = next_cap_offset & !0b11;
 
+    let ecap_bytes = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -329,7 +330,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -337,7 +338,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -345,7 +346,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -366,7 +367,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -375,11 +376,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -395,7 +396,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -403,7 +404,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -419,23 +420,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From e0f29142d3505ff753475a0d2ab71e0687fa90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 05/20] fix: missing or truncated virtual channel arbitration
 tables

A zero table offset (no table) and a table that is not completely captured
made vc_arbitration_table() and port_arbitration_table() panic.
---
 src/extended_capabilities/virtual_channel.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..300cb95 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,11 +118,8 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
-        VcArbitrationTable::new(data)
+        VcArbitrationTable::new(self.table_data(offset, entries_number / 2))
     }
     pub fn port_arbitration_table(
         &'a self,
@@ -137,11 +134,17 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entry_size_bits * entries_number / 8);
         PortArbitrationTable::new(data, entry_size_bits)
     }
+    /// Available bytes of an arbitration table. A zero offset means the table is not present.
+    fn table_data(&self, offset: u8, length: usize) -> &'a [u8] {
+        let data = (offset as usize * DQWORD)
+            .checked_sub(ECH_BYTES)
+            .and_then(|start| self.data.get(start..))
+            .unwrap_or_default();
+        &data[..data.len().min(length)]
+    }
 }
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
     type Error = ExtendedCapabilityDataError;
-- 
2.43.0


From d207504127b57f5b58de88b08ee6929f6d4a5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 06/20] fix: truncated lane equalization control registers

equalization_control_lanes() panicked when fewer registers are available
than the link has lanes.
---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..37de47c 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(&self.ecl_data[..self.ecl_data.len().min(end)])
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From dca37d18f0e8d5790029f9b563643e092fa97caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:29 +0000
Subject: [PATCH 07/20] fix: keep reserved and broken base addresses when
 writing registers

Collecting base addresses to registers dropped both kinds, and panicked for a
64-bit address in the last register.
---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..9a85a3f 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(dword) = dwords.get_mut(i + 1) {
+                        *dword = (base_address >> 32) as u32;
+                    }
+                },
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
             }
 
         }
-- 
2.43.0


From e7aaf3dbf0ee0d6f0562631d9b08633d0a4db3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:32 +0000
Subject: [PATCH 08/20] fix: write back CardBus I/O ranges of every address
 capability

The capability bits of a 32-bit range were lost, which made it a 16-bit one,
and a range of unknown capability panicked.
---
 src/header.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..42c2d26 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,23 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
-                let base_lower = u16::from_le_bytes([base[2], base[3]]);
+                let base_lower = u16::from_le_bytes([base[0] & !0b11 | 0x01, base[1]]);
+                let base_upper = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
-                let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
-                let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
-                [[base_upper, base_lower], [limit_upper, limit_lower]]
+                let limit_lower = u16::from_le_bytes([limit[0], limit[1]]);
+                let limit_upper = u16::from_le_bytes([limit[2], limit[3]]);
+                [[base_lower, base_upper], [limit_lower, limit_upper]]
+            },
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                let base_lower = base_lower & !0b11 | (io_address_capability & 0b11) as u16;
+                [[base_lower, base_upper], [limit_lower, limit_upper]]
             },
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From 94a4a33a21e21823028b395d728fd7f50103f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:11 +0000
Subject: [PATCH 09/20] fix: put the latency scale where the register has it

The max latency register keeps its scale in bits 12:10, but the conversion
back to the register put it in bits 15:13, where only the L1 PM Substates
Control 1 register has it.
---
 src/extended_capabilities/l1_pm_substates.rs             | 3 ++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..cb29a8f 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,8 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From e29c22d87d0902cf314144a4f414c80e76289d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 10/20] fix: read the whole egress control vector

The Egress Control Vector Size field is 8 bits wide, and a vector whose size
is not a multiple of 32 lost its last bits.
---
 src/extended_capabilities/access_control_services.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..49110fa 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,8 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let bits = u32::BITS as usize;
+        let end = (size + bits - 1) / bits * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
@@ -124,7 +125,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From ae5f87747c5c231b514456777f543664ef4101e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:17 +0000
Subject: [PATCH 11/20] fix: read the TLP prefix log from its own offset

The common registers had been skipped twice.
---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 49405ea7a7854bf0de85528dd89de67954b7be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:19 +0000
Subject: [PATCH 12/20] fix: keep a readable enhanced allocation entry at the
 end of data

An entry whose declared size runs past the captured bytes was dropped after it
had been decoded.  A missing second DW of a bridge was reported as missing
number of entries.
---
 src/capabilities/enhanced_allocation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..6117178 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
@@ -177,7 +177,7 @@ impl<'a> Iterator for EnhancedAllocationEntries<'a> {
         } else {
             // according to entry size field
             let next_entry_start = (entry_size as usize + 1) * 4;
-            self.data = self.data.get(next_entry_start..)?;
+            self.data = self.data.get(next_entry_start..).unwrap_or_default();
         }
 
         Some(EnhancedAllocationEntry {
-- 
2.43.0


From 362f075961f178f7d32acf5ddf576949dfc5f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:22 +0000
Subject: [PATCH 13/20] fix: expected number of DPA allocation entries in error

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From 4a11878ed774fb468ae9bc0ea315b089c3765d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:24 +0000
Subject: [PATCH 14/20] fix: compare the partially read byte of port
 arbitration tables

Tables with different remaining entries compared equal.
---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 300cb95..a0ac69a 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -427,6 +427,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && (self.shift == 0 || self.byte == other.byte)
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From abb63be6703a5133a0d82749502f61458f934420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:27 +0000
Subject: [PATCH 15/20] fix: link entries in different states are not equal

---
 src/extended_capabilities/root_complex_link_declaration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..73a3c58 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -260,7 +260,7 @@ impl<'a> LinkEntries<'a> {
 
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
-        self.clone().eq(other.clone())
+        self.state == other.state && self.clone().eq(other.clone())
     }
 }
 impl<'a> Eq for LinkEntries<'a> {}
-- 
2.43.0


From 979ec3b852791d27f847277f4675f3e86cc15d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:29 +0000
Subject: [PATCH 16/20] fix: do not make up the upper half of a 64-bit GART
 pointer

---
 src/capabilities/accelerated_graphics_port.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/accelerated_graphics_port.rs b/src/capabilities/accelerated_graphics_port.rs
index 19e1456..81939a1 100644
--- a/src/capabilities/accelerated_graphics_port.rs
+++ b/src/capabilities/accelerated_graphics_port.rs
@@ -173,7 +173,7 @@ impl TryFrom<&[u8]> for AcceleratedGraphicsPort {
 
         let gart_pointer = match (gartlo, garthi) {
             (Some(gartlo), Some(garthi)) => Some(GartPointer { gartlo, garthi }),
-            (Some(gartlo), None) => Some(GartPointer { gartlo, garthi: 0 }),
+            (Some(gartlo), None) if !status.gart64b => Some(GartPointer { gartlo, garthi: 0 }),
             _ => None,
         };
         Ok(Self {
-- 
2.43.0


From 470ce1ebffc3e540010a39243a44b67798d8b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:32 +0000
Subject: [PATCH 17/20] fix: maximum cumulative read size in bytes

An ADQ is 128 bytes, so 2^(n+3) ADQs are 2^(n+10) bytes.
---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..78d70b9 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From cf3ab96f02560bcd893ad8dddf3fc518115d8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:12 +0000
Subject: [PATCH 18/20] fix: report extended capabilities 002Dh to 0034h as the
 kinds their IDs name

The kinds exist and know their IDs, but the list reported them as reserved.
---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index cd91e8c..e44bd96 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -448,6 +448,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From 2b1d90e5dc5142d328ea859b39d520fe2fd4635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 19/20] fix: number of bytes in the error about short virtual
 channel registers

---
 src/extended_capabilities/virtual_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index a0ac69a..cd2ad71 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -157,7 +157,7 @@ impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Virtual Channel",
-                size: 8,
+                size: 12,
             })?;
         Ok(Self {
             data: slice,
-- 
2.43.0


From 5c16403388cbef2e737440647438bb7bc774f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 20/20] fix: number of bytes in the error about a short
 multicast capability

---
 src/extended_capabilities/multicast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/multicast.rs b/src/extended_capabilities/multicast.rs
index 4ee890c..599f9b4 100644
--- a/src/extended_capabilities/multicast.rs
+++ b/src/extended_capabilities/multicast.rs
@@ -109,7 +109,7 @@ impl TryFrom<&[u8]> for Multicast {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Multicast",
-                size: Self::SIZE,
+                size: Self::SIZE - 8, // MC_Overlay_BAR is optional
             })?;
         let _: (u32, u32, u32, u32, u32, u32) =
             (rcv_l, rcv_h, blk_all_l, blk_all_h, blk_untr_l, blk_untr_h);
-- 
2.43.0

