From 3572ffaa26ea8da6a2de6dd20ceaf398a059cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 01/27] fix: only read the remainder of the current stripe in
 RAID4/5/6/10 streams

Reading the full requested length from one disk returned data of the wrong
disk for any read spanning more than one stripe.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 10e8e27981b464fd972f52578fed46279d6d1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 02/27] fix: locate data in additional RAID0 strip zones

Blocks in a second or later zone start at the device offset of that zone, and
are spread over the devices that are part of the zone. Compare rounded sizes
when counting zones, so a size that is not a multiple of the stripe size does
not yield a zone without devices.
---
 dissect/volume/raid/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..05641d4 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
@@ -166,12 +166,12 @@ class RAID0Stream(AlignedStream):
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
             offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
 
-            offset_on_disk = device.offset + device_start + offset_in_device
+            offset_on_disk = device.offset + device_start + zone.dev_start + offset_in_device
             device.fh.seek(offset_on_disk)
             result.append(device.fh.read(read_length))
 
-- 
2.43.0


From 0ffb18398456e7dd3197170d10cb744f0fcad883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 03/27] fix: only zero the unprovisioned blocks of a thin
 device read

A read that touched an unprovisioned block returned zeroes for all of the
requested range, including the blocks that do have data.
---
 dissect/volume/dm/thin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..7c1ebf0 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,23 +75,20 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                # Blocks that are not provisioned read as zeroes
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From a46c2d189ee2fc2699efcc08bee447601a529489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 04/27] fix: read the thin-pool superblock from the start of
 the metadata device

---
 dissect/volume/dm/thin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 7c1ebf0..6845041 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,8 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+
+        fh.seek(c_dm.THIN_SUPERBLOCK_LOCATION)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 71ec3c48c00e33e9cf966bb88a01245b6be2df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 05/27] fix: raise an error on a B-tree that loops or has an
 invalid node

Lookups on such a tree never returned.
---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..2253f54 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        visited = set()
         while True:
+            if block in visited:
+                raise DMError(f"Loop detected in B-tree at block {block}")
+            visited.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid B-tree node at block {block}, flags: {node.header.flags:#x}")
 
 
 class Node:
-- 
2.43.0


From 61a2146342540b94c25ed6461f515ed8e1ad53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 06/27] fix: raise a DDFError for an invalid DDF section
 signature

Formatting the error message raised an AttributeError instead.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..36b86c2 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -270,7 +270,7 @@ def _read_section_header(
 ) -> c_ddf.Physical_Disk_Records | c_ddf.Virtual_Disk_Records | c_ddf.Controller_Data | c_ddf.Physical_Disk_Data:
     obj = structure(fh)
     if obj.Signature != signature:
-        raise DDFError(f"Invalid {structure.name} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
+        raise DDFError(f"Invalid {structure.__name__} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
     return obj
 
 
-- 
2.43.0


From 2933ae4ecb707e9803fdd5a79fa784182c95d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 07/27] fix: continue with the next DDF configuration record
 after an unused one

All records after an unused, spare or vendor record were lost.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 36b86c2..e76724c 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -293,12 +293,12 @@ def _read_virtual_disk_configuration_records(
     for _ in range(count):
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
+        offset += size
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 8f257df1441d68619924269cd7a5fc337896e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 08/27] fix: convert the DDF starting block to a byte offset

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index e76724c..e83cbf9 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From ac5d04183680c5a07e8bd29078395c682e4a09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 09/27] fix: take the data offset into account when opening a
 RAID1 set

---
 dissect/volume/raid/raid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..46ac0ea 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,8 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
-            return disk.open()
+            _, (data_offset, disk) = next(iter(self.disk_map.items()))
+            fh = disk.open()
+            return RangeStream(fh, data_offset, disk.size - data_offset) if data_offset else fh
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
         if self.level == Level.RAID10:
-- 
2.43.0


From a88da3439f7eb0cbd92b034eeabeed5377379eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 10/27] fix: use the unicode flag to decide the encoding of a
 DDF virtual disk name

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index e83cbf9..7be426e 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8") if self.type & c_ddf.DDF_VDE_UNICODE_NAME else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 476baf3ff958e5e0a63b86b4c329289098cee2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 11/27] fix: raise an error on an unsupported DDF RAID10 layout

The virtual disk got no layout, which failed with a TypeError when opened.
---
 dissect/volume/ddf/ddf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7be426e..f13be40 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -325,6 +325,8 @@ def _convert_raid_layout(prl: int, rlq: int, srl: int, pec: int, sec: int) -> tu
             layout = 0x102  # 2 near copies, 1 far copy
         elif num_disks == 3 and rlq == c_ddf.DDF_VDCR_RAID1_MULTI:
             layout = 0x103  # 3 near copies, 1 far copy
+        else:
+            raise ValueError(f"Unsupported DDF RAID1 layout: ({prl}, {rlq})")
 
         num_disks *= sec
         level = Level.RAID10
-- 
2.43.0


From 195da63454772e2d56ea9643de237a47602c3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 12/27] fix: use the update time of the MD superblock for
 update_time

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From 575e2ee928f1d5212c6bf8c12188e90500c4f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 13/27] fix: align the location of a version 1.0 MD superblock
 to 4K

Reference: super_1_load
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..f363d06 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From df4f25e40b00e3b5b48759990ad1d13eb390f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:20 +0000
Subject: [PATCH 14/27] fix: handle spare and journal devices of an MD array

A journal device replaced the data of the first disk, and a spare device made
sorting the disks fail with a TypeError.
---
 dissect/volume/md/md.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f363d06..249d843 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,9 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        physical_disks = sorted(
+            physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk or 0)
+        )
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
@@ -111,13 +113,9 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
+            # Spare, faulty and journal devices don't hold any data of the array
             role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
-                self.raid_disk = role
-            else:
-                self.raid_disk = None
+            self.raid_disk = role if role <= c_md.MD_DISK_ROLE_MAX else None
 
         else:
             self.set_uuid = UUID(bytes_le=self.sb.set_uuid0 + self.sb.set_uuid1 + self.sb.set_uuid2 + self.sb.set_uuid3)
-- 
2.43.0


From e76f5f14f5269dbc037f2e56eee20a5231952f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:39 +0000
Subject: [PATCH 15/27] fix: read the level of a version 0.90 MD superblock as
 a signed value

The level of a linear array is -1.
---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From d38f35b495e52c77b67fea69329ae5747f84aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:39 +0000
Subject: [PATCH 16/27] fix: allow whitespace and empty lines in multi-line
 LVM2 metadata lists

---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..f09e5b3 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -150,8 +150,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
     if value[0] == "[" and value[-1] != "]":
         lines = [value]
         for line in it:
+            line = line.strip()
             lines.append(line)
-            if line[-1] == "]":
+            if line.endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From e282ff9ece3f45d4c1a6dd115e10b42b188d7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:39 +0000
Subject: [PATCH 17/27] fix: raise an error on a VSS block chain that loops

---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..1a07439 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -653,8 +653,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    visited = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in visited:
+            raise Error(f"Loop detected in VSS block chain at offset {offset:#x}")
+        visited.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From 85f47b0804e810de5195fdf794da052145e8b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:39 +0000
Subject: [PATCH 18/27] fix: correct the argument order when comparing VSS
 block descriptors

---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 1a07439..9ea28ad 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -627,7 +627,7 @@ class BlockDescriptor:
         self.is_forwarder = bool(self.flags & BLOCK_FLAG.IS_FORWARDER)
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(BlockDescriptor, other):
+        if not isinstance(other, BlockDescriptor):
             return False
 
         return (
-- 
2.43.0


From 20f2cd5ea360480a07efdbc3ed0ac599f5c7023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:58 +0000
Subject: [PATCH 19/27] fix: visit every extended boot record only once

An extended partition that refers back to an earlier one made listing the
partitions recurse without end.
---
 dissect/volume/disk/schemes/mbr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..03c27c1 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -54,6 +54,7 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        self._visited = {self.offset}
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
     def _partitions(
@@ -72,6 +73,11 @@ class MBR:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
+                if part_offset in self._visited:
+                    # A chain that refers back to itself never ends
+                    continue
+                self._visited.add(part_offset)
+
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
-- 
2.43.0


From 9474d86a2360173e551615be87242fa7e02a4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:58 +0000
Subject: [PATCH 20/27] fix: take the drive offset of a Vinum sd into account

All sds on a drive were mapped to the start of the data section of that drive.
---
 dissect/volume/vinum/vinum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..2bdb338 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,9 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            disk = disks_by_name[sd.drive]
+                            # The data of an sd does not need to be at the start of the data section of the drive
+                            disk_map[idx] = (max((sd.driveoffset or 0) - disk.offset, 0), disk)
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From 199499da91ea1d7fb2d7552beedcb4a932cb6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:52 +0000
Subject: [PATCH 21/27] fix: limit the members of a linear set to their own
 data

A member with a data offset was mapped past its end, which shifted the
data of the members after it.
---
 dissect/volume/raid/stream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 05641d4..cbfb9d7 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -61,8 +61,9 @@ class LinearStream(MappingStream):
 
         offset = 0
         for disk_offset, disk in self.disk_map.values():
-            self.add(offset, disk.size, disk.open(), disk_offset)
-            offset += disk.size
+            size = disk.size - disk_offset
+            self.add(offset, size, disk.open(), disk_offset)
+            offset += size
 
 
 class Zone(NamedTuple):
-- 
2.43.0


From ad7e4476cda94b897f279c9e4a731082def6458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:40 +0000
Subject: [PATCH 22/27] fix: give spare and faulty MD 0.90 members no role

They were placed in the member map and counted as available members.
---
 dissect/volume/md/md.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 249d843..264e738 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -127,7 +127,11 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            # Only devices that are in sync have a role in the array, so not spare or faulty devices
+            disk = self.sb.disks[self.dev_number]
+            in_sync = disk.state & (1 << c_md.MD_DISK_SYNC) and not disk.state & (1 << c_md.MD_DISK_FAULTY)
+            self.raid_disk = disk.raid_disk if in_sync else None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From 48c1e6e40f34a9db9922ebcef78280d7eebb3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:52 +0000
Subject: [PATCH 23/27] fix: strip every comment, and only comments, from LVM
 metadata

A bare # line swallowed the line after it, and a comment that contains a
quote was kept, which broke a list or a section header in front of it.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index f09e5b3..e7c7e43 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -113,7 +113,8 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    # Strip comments, but leave a # inside of a string alone
+    s = re.sub(r'("(?:\\.|[^"\\\n])*")|#.*', r"\1", string)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From 86b29098d7deeff102ba85c420dd600c4c551cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:32 +0000
Subject: [PATCH 24/27] fix: do not require RAID segment fields that LVM leaves
 out

---
 dissect/volume/lvm/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..6e534ac 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -595,14 +595,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
-
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
     data_copies: int | None
     data_offset: int | None
     raids: list[str] | None
-- 
2.43.0


From 07c9ca0522ee8e7b067c0f3e63869e2276f73f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/27] fix: give logical volumes a creation time that is a
 time

---
 dissect/volume/lvm/metadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 6e534ac..e5b77d3 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -235,6 +235,10 @@ class LogicalVolume(MetaBase):
         super()._from_dict(obj, name=name, parent=parent)
         self._name = name
         self._volume_group = parent
+
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
+
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
 
-- 
2.43.0


From 7d3570fd028d2f09cac932ae17efefb399d3bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:24 +0000
Subject: [PATCH 26/27] fix: read shadow copies of stores that have no previous
 bitmap

---
 dissect/volume/vss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9ea28ad..4fadf0d 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,9 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if not self.desc3.store_previous_bitmap_offset:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From 5b3c5558619cf5cd1ebc1632be324273d86b026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:51 +0000
Subject: [PATCH 27/27] fix: read the entries of a VSS range list block by
 block

---
 dissect/volume/vss.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 4fadf0d..95c208a 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -493,12 +493,16 @@ class RangeList:
 
         buf = memoryview(data)
         self.entries = []
-        for entry_offset in range(0, len(data), STORE_RANGELIST_ENTRY_SIZE):
-            entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
-            if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
-                break
-            entry = c_vss.range_descriptor(entry_buf)
-            self.entries.append(entry)
+        # A block is not a multiple of the entry size, entries start over in each block
+        block_size = STORE_BLOCK_SIZE - len(c_vss.store_header)
+        for block_offset in range(0, len(data), block_size):
+            block_buf = buf[block_offset : block_offset + block_size]
+            for entry_offset in range(0, len(block_buf) - STORE_RANGELIST_ENTRY_SIZE + 1, STORE_RANGELIST_ENTRY_SIZE):
+                entry_buf = block_buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
+                if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
+                    break
+                entry = c_vss.range_descriptor(entry_buf)
+                self.entries.append(entry)
 
 
 class StoreBitmap:
-- 
2.43.0

