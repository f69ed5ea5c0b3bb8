From fc7d50efda0916b46dfb38c3483d21ff97e7fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 01/77] fix: abs_mod returned b instead of 0 for negative
 multiples of b

ped_round_down_to (-4, 4) gave -8, and ped_alignment_init normalised the
offset to grain_size rather than 0.
---
 libparted/cs/natmath.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index ea53afc..3bcf029 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -59,10 +59,9 @@ const PedAlignment* ped_alignment_none = NULL;
 static PedSector
 abs_mod (PedSector a, PedSector b)
 {
-	if (a < 0)
-		return a % b + b;
-	else
-		return a % b;
+	PedSector r = a % b;
+
+	return r < 0 ? r + b : r;
 }
 
 /* Rounds a number down to the closest number that is a multiple of
-- 
2.43.0


From 6e770e5a80f735161240b243c83d0efb49c2b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 02/77] fix: ped_round_to_nearest mis-rounded negative sectors

The C remainder of a negative sector is never above grain_size/2, so
negative sectors were always rounded down.
---
 libparted/cs/natmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 3bcf029..7a789c1 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -89,7 +89,7 @@ ped_round_up_to (PedSector sector, PedSector grain_size)
 PedSector
 ped_round_to_nearest (PedSector sector, PedSector grain_size)
 {
-	if (sector % grain_size > grain_size/2)
+	if (abs_mod (sector, grain_size) > grain_size/2)
 		return ped_round_up_to (sector, grain_size);
 	else
 		return ped_round_down_to (sector, grain_size);
-- 
2.43.0


From 9b4ff565a7522479490d8885c9bc5ab112ee68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 03/77] fix: extended_euclid truncated grain sizes to int

ped_alignment_intersect lost sectors (or divided by zero) when a grain
size was 2^31 sectors or more.
---
 libparted/cs/natmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/natmath.c b/libparted/cs/natmath.c
index 7a789c1..005d8a7 100644
--- a/libparted/cs/natmath.c
+++ b/libparted/cs/natmath.c
@@ -196,7 +196,7 @@ ped_alignment_duplicate (const PedAlignment* align)
  * 	gcd = x*a + y*b
  */
 static EuclidTriple _GL_ATTRIBUTE_PURE
-extended_euclid (int a, int b)
+extended_euclid (PedSector a, PedSector b)
 {
 	EuclidTriple	result;
 	EuclidTriple	tmp;
-- 
2.43.0


From ba49243afdcb46a869d56d82f7dfc9667aead204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 04/77] fix: constraint solver missed solutions ending at
 sector min_size - 1

A geometry starting at sector 0 with exactly the minimum size satisfies the
constraint, but solve_nearest reported that there is no solution.
---
 libparted/cs/constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index 146c318..c9693f6 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -310,7 +310,7 @@ _constraint_get_canonical_start_range (const PedConstraint* constraint)
 			constraint->end_range->end);
 	if (first_end_soln == -1 || last_end_soln == -1
 	    || first_end_soln > last_end_soln
-	    || last_end_soln < constraint->min_size)
+	    || last_end_soln < constraint->min_size - 1)
 		return NULL;
 
 	min_start = first_end_soln - constraint->max_size + 1;
-- 
2.43.0


From 286026e0247e67a2cf81a39f8b0cd62adc1b8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 05/77] fix: ped_geometry_map treats the sector as relative to
 src

The sector is an address inside src, as documented and as the result is
computed, but the bounds check took it as an absolute sector; the sector
just beyond dst was accepted.
---
 libparted/cs/geom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 99280ac..ea030cc 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -472,13 +472,13 @@ ped_geometry_map (const PedGeometry* dst, const PedGeometry* src,
 	PED_ASSERT (dst != NULL);
 	PED_ASSERT (src != NULL);
 
-	if (!ped_geometry_test_sector_inside (src, sector))
+	if (sector < 0 || sector >= src->length)
 		return -1;
 	if (dst->dev != src->dev)
 		return -1;
 
 	result = src->start + sector - dst->start;
-	if (result < 0 || result > dst->length)
+	if (result < 0 || result >= dst->length)
 		return -1;
 
 	return result;
-- 
2.43.0


From ce3d7322e8d8b10aec1270849a1d1666d5ef8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 06/77] fix: ped_geometry_check never terminated when the last
 group is bad

When a read of the only group failed, its last granule was never examined
on its own and the whole scan was retried forever; later groups were
examined beyond the requested range.
---
 libparted/cs/geom.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index ea030cc..6a7e6c9 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -432,8 +432,9 @@ retry:
 
 found_error:
 	ped_exception_catch();
-	for (i = group; i + granularity < group + count; i += granularity) {
-		if (!ped_geometry_read (geom, buffer, i, granularity)) {
+	for (i = group; i < offset + count; i += granularity) {
+		read_len = PED_MIN (granularity, offset + count - i);
+		if (!ped_geometry_read (geom, buffer, i, read_len)) {
 			ped_exception_catch();
 			ped_exception_leave_all();
 			return i;
-- 
2.43.0


From 2e91c15d8f37e7dfc7f5e2d0f3d81b51f0d375f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 07/77] fix: a failed ped_disk_set_partition_geom left metadata
 and free space laid out for the refused geometry

---
 libparted/disk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 0db7b5c..adc37f1 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2338,6 +2338,9 @@ ped_disk_set_partition_geom (PedDisk* disk, PedPartition* part,
 	return 1;
 
 error_pop_update_mode:
+	/* restore the geometry first: leaving update mode lays out the metadata
+	   and free space around it */
+	part->geom = old_geom;
 	_disk_pop_update_mode (disk);
 error:
 	ped_constraint_destroy (overlap_constraint);
-- 
2.43.0


From d8de7654e6a8cc3e80e07235dfac17f2a09c7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 08/77] fix: label alignment and constraints were ignored on a
 fresh, uncommitted disk

---
 include/parted/disk.in.h | 2 ++
 libparted/disk.c         | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/parted/disk.in.h b/include/parted/disk.in.h
index 8f6a5c3..297f9de 100644
--- a/include/parted/disk.in.h
+++ b/include/parted/disk.in.h
@@ -210,6 +210,8 @@ struct _PedDisk {
         int                 update_mode;        /**< mode without free/metadata
                                                    partitions, for easier
                                                    update */
+        int                 reading;            /**< being filled in from the
+                                                   device by ped_disk_new() */
 };
 
 struct _PedDiskOps {
diff --git a/libparted/disk.c b/libparted/disk.c
index adc37f1..4b5c371 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -198,7 +198,10 @@ ped_disk_new (PedDevice* dev)
 	disk = ped_disk_new_fresh (dev, type);
 	if (!disk)
 		goto error_close_dev;
-	if (!type->ops->read (disk))
+	disk->reading = 1;
+	int ok = type->ops->read (disk);
+	disk->reading = 0;
+	if (!ok)
 		goto error_destroy_disk;
 	disk->needs_clobber = 0;
 	ped_device_close (dev);
@@ -407,6 +410,7 @@ _ped_disk_alloc (const PedDevice* dev, const PedDiskType* disk_type)
 	disk->update_mode = 1;
 	disk->part_list = NULL;
 	disk->needs_clobber = 0;
+	disk->reading = 0;
 	return disk;
 
 error:
@@ -951,7 +955,7 @@ _partition_align (PedPartition* part, const PedConstraint* constraint)
 	PED_ASSERT (disk_type->ops->partition_align != NULL);
 	PED_ASSERT (part->disk->update_mode);
 
-	if (part->disk->needs_clobber)
+	if (part->disk->reading)
 		return 1; /* do not attempt to align partitions while reading them */
 	return disk_type->ops->partition_align (part, constraint);
 }
-- 
2.43.0


From b2d795850773d069fe3e85680002b685dcc1d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:57 +0000
Subject: [PATCH 09/77] fix: a refused partition addition left other partitions
 renumbered

---
 libparted/disk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/disk.c b/libparted/disk.c
index 4b5c371..ea07793 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -2175,6 +2175,9 @@ error:
 	ped_constraint_destroy (overlap_constraint);
 	ped_constraint_destroy (constraints);
 	_disk_pop_update_mode (disk);
+	/* enumerating PART may have renumbered others to make room for it */
+	if (ped_partition_is_active (part))
+		ped_disk_enumerate_partitions (disk);
 	return 0;
 }
 
-- 
2.43.0


From 2b91dc9b90c50693f0cef64ec3f349f20defda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:56 +0000
Subject: [PATCH 10/77] fix: dvh: adding a sixteenth boot file aborted instead
 of being refused

---
 libparted/labels/dvh.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7d7dae3..b6daf39 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -791,7 +791,10 @@ dvh_partition_enumerate (PedPartition* part)
 				return 1;
 			}
 		}
-		PED_ASSERT (0);
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Too many boot files"));
 	} else if (part->type & PED_PARTITION_EXTENDED) {
 		/* Volheader */
 		part->num = PNUM_VOLHDR + 1;
-- 
2.43.0


From b3a23261705f2dcd7d416dd3f7248824ab6e34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:36 +0000
Subject: [PATCH 11/77] fix: amiga: the block checksum read up to 2048 bytes of
 a 512-byte block

---
 libparted/labels/rdb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 499d385..765136f 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -136,12 +136,14 @@ static int
 _amiga_checksum (struct AmigaBlock *blk) {
 	uint32_t *rdb = (uint32_t *) blk;
 	uint32_t sum;
-	int i, end;
+	uint32_t i, end;
 
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	/* the block is one sector long: END counts 32-bit words */
+	if (end > PED_SECTOR_SIZE_DEFAULT / sizeof (*rdb))
+		end = PED_SECTOR_SIZE_DEFAULT / sizeof (*rdb);
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
-- 
2.43.0


From 7e09bd869373362c29ea7662d4cc01321c77d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 12/77] fix: gpt: accepting the nil type UUID made the
 partition vanish on the next read

---
 libparted/labels/gpt.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 780fb70..247d06c 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1758,6 +1758,15 @@ static int
 gpt_partition_set_type_uuid (PedPartition *part, const uint8_t *uuid)
 {
   GPTPartitionData *gpt_part_data = part->disk_specific;
+  static const uint8_t unused_entry[sizeof (efi_guid_t)];
+
+  if (memcmp (uuid, unused_entry, sizeof (efi_guid_t)) == 0)
+    {
+      ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                           _("The nil UUID marks an unused entry and cannot "
+                             "be used as a partition type."));
+      return 0;
+    }
 
   efi_guid_t* type_uuid = &gpt_part_data->type;
   memcpy(type_uuid, uuid, sizeof (efi_guid_t));
-- 
2.43.0


From 89be65eef75c0b6c2209f7f6a1c4423452c84491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 13/77] fix: msdos: an extended partition shorter than one
 track got metadata beyond its end

---
 libparted/labels/dos.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index e6a0105..4830f91 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -2497,6 +2497,7 @@ msdos_alloc_metadata (PedDisk* disk)
 		partition_probe_bios_geometry (ext_part, &bios_geom);
 		start = ext_part->geom.start;
 		end = start + bios_geom.sectors - 1;
+		end = PED_MIN (end, ext_part->geom.end);
 		if (ext_part->part_list)
 			end = PED_MIN (end,
 				       ext_part->part_list->geom.start - 1);
-- 
2.43.0


From 5118bb7954490944a3bb8a9c7e8d2684cc2e08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 14/77] fix: msdos: type ids that make a partition or the label
 unreadable were accepted

---
 libparted/labels/dos.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 4830f91..16ecb48 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1729,6 +1729,21 @@ int
 msdos_partition_set_type_id (PedPartition* part, uint8_t id)
 {
         DosPartitionData* dos_data = part->disk_specific;
+        int is_extended_id = (id == PARTITION_DOS_EXT
+                              || id == PARTITION_EXT_LBA
+                              || id == PARTITION_LINUX_EXT);
+
+        /* these would make the partition vanish or change its kind, or
+         * the label unrecognisable, when the table is read again
+         */
+        if (id == PARTITION_EMPTY
+            || (id == PARTITION_GPT && !(part->type & PED_PARTITION_LOGICAL))
+            || is_extended_id != (part->type == PED_PARTITION_EXTENDED)) {
+                ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                        _("Type id 0x%02x cannot be used for this partition."),
+                        id);
+                return 0;
+        }
 
         dos_data->system = id;
 
-- 
2.43.0


From 1ace3192e993ae03ed2a4cdf980bf77611afb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 15/77] fix: bsd: a partition whose system was never set
 vanished on the next read

---
 libparted/labels/bsd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index 38bc64c..dee088d 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -388,7 +388,7 @@ bsd_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		       	= bsd_data = ped_malloc (sizeof (BSDPartitionData));
 		if (!bsd_data)
 			goto error_free_part;
-		bsd_data->type = 0;
+		bsd_data->type = 0x8;	/* as bsd_partition_set_system; 0 is unused */
 		bsd_data->boot = 0;
 		bsd_data->raid = 0;
 		bsd_data->lvm  = 0;
-- 
2.43.0


From ee6589cf238000995c585e216874eb1a626e7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 16/77] fix: msdos: a Sun label whose checksum equals the msdos
 magic was taken for msdos

---
 libparted/labels/dos.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 16ecb48..941b140 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -456,6 +456,20 @@ fat_probe_fat32 (PedGeometry* geom);
 PedGeometry*
 ntfs_probe (PedGeometry* geom);
 
+/* Return nonzero if the sector S holds a valid Sun disk label.  */
+static int _GL_ATTRIBUTE_PURE
+is_sun_label (const void *s)
+{
+	const unsigned char *p = s;
+	unsigned int xor[2] = { 0, 0 };
+
+	if (p[508] != 0xda || p[509] != 0xbe)
+		return 0;
+	for (int i = 0; i < 512; i++)
+		xor[i % 2] ^= p[i];
+	return xor[0] == 0 && xor[1] == 0;
+}
+
 static int
 msdos_probe (const PedDevice *dev)
 {
@@ -519,6 +533,10 @@ msdos_probe (const PedDevice *dev)
 			goto probe_fail;
 	}
 
+	/* A Sun label ends in its XOR checksum, which can look like our magic */
+	if (is_sun_label (label))
+		goto probe_fail;
+
 	/* If this is an AIX Physical Volume, fail here.  IBMA in EBCDIC */
 	if (part_table->boot_code[0] == (char) 0xc9 &&
 	    part_table->boot_code[1] == (char) 0xc2 &&
-- 
2.43.0


From 11bc97bb3f0e01301eb74ed5fe00b4e581e396dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 17/77] fix: loop: a partition that is not the whole device was
 accepted and silently lost

---
 libparted/labels/loop.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 45d169d..68cf58f 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -234,20 +234,21 @@ loop_partition_get_flag (const PedPartition* part, PedPartitionFlag flag)
 static int
 loop_partition_align (PedPartition* part, const PedConstraint* constraint)
 {
-	PedGeometry*	new_geom;
-
-	new_geom = ped_constraint_solve_nearest (constraint, &part->geom);
-	if (!new_geom) {
-		ped_exception_throw (
-			PED_EXCEPTION_ERROR,
-			PED_EXCEPTION_CANCEL,
-			_("Unable to satisfy all constraints on the "
-			  "partition."));
-		return 0;
-	}
-	ped_geometry_set (&part->geom, new_geom->start, new_geom->length);
-	ped_geometry_destroy (new_geom);
-	return 1;
+	PedGeometry	dev_geom;
+
+	/* the only partition is the whole device: nothing else is stored */
+	ped_geometry_init (&dev_geom, part->disk->dev, 0,
+			   part->disk->dev->length);
+	if (_ped_partition_attempt_align (part, constraint,
+				ped_constraint_exact (&dev_geom)))
+		return 1;
+
+	ped_exception_throw (
+		PED_EXCEPTION_ERROR,
+		PED_EXCEPTION_CANCEL,
+		_("Unable to satisfy all constraints on the "
+		  "partition."));
+	return 0;
 }
 
 static int
-- 
2.43.0


From bdb44de8b97581ea62a0a2494b3725a441ea8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 18/77] fix: loop: no signature was written when a file system
 type was set but not present

---
 libparted/labels/loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index 68cf58f..fcdb373 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -169,7 +169,7 @@ loop_write (const PedDisk* disk)
 	char *buf = alloca (buflen);
 	PedPartition *part = ped_disk_get_partition (disk, 1);
 	/* if there is already a filesystem on the disk, we don't need to write the signature */
-	if (part && part->fs_type)
+	if (part && part->fs_type && ped_file_system_probe (&part->geom))
 		return 1;
 	if (!ped_device_read (disk->dev, buf, 0, 1))
 		return 0;
-- 
2.43.0


From 1c0bd62b1628128752b7ae8b30c22318b3c9b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 19/77] fix: dvh: an unnamed boot file was read back as the
 boot partition

---
 libparted/labels/dvh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index b6daf39..770d2ba 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -382,7 +382,8 @@ dvh_read (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 		part->num = NPARTAB + i + 1;
 
-		if (!strcmp (boot_name, ped_partition_get_name (part)))
+		if (boot_name[0]
+		    && !strcmp (boot_name, ped_partition_get_name (part)))
 			ped_partition_set_flag (part, PED_PARTITION_BOOT, 1);
 
 		PedConstraint *constraint_exact
-- 
2.43.0


From 7a40eb06cba5bc43aa1b9ee36b61e8b091d93f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 20/77] fix: dvh: boot files changed length on the next read,
 and short ones made the table unreadable

---
 libparted/labels/dvh.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 770d2ba..3f0bfbe 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -56,7 +56,7 @@ typedef struct _DVHDiskData {
 typedef struct _DVHPartData {
 	int	type;
 	char	name[VDNAMESIZE + 1];	/* boot volumes only */
-	int	real_file_size;		/* boot volumes only */
+	uint32_t	real_file_size;		/* boot volumes only */
 } DVHPartData;
 
 static PedDiskType dvh_disk_type;
@@ -241,10 +241,10 @@ _parse_boot_file (PedDisk* disk, struct volume_directory* vd)
 	PedPartition*	part;
 	DVHPartData*	dvh_part_data;
 	PedSector	start = PED_BE32_TO_CPU (vd->vd_lbn);
-	int		length = PED_BE32_TO_CPU (vd->vd_nbytes);
+	uint32_t	length = PED_BE32_TO_CPU (vd->vd_nbytes);
 
-	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL,
-				  start, start + length/512 - 1);
+	part = ped_partition_new (disk, PED_PARTITION_LOGICAL, NULL, start,
+				  start + (length + UINT64_C (511)) / 512 - 1);
 	if (!part)
 		return NULL;
 
@@ -428,6 +428,11 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	/* Assert it's a bootfile */
 	PED_ASSERT ((part->type & PED_PARTITION_LOGICAL) != 0);
 
+	/* the partition may have been resized since the size was recorded */
+	if ((dvh_part_data->real_file_size + INT64_C (511)) / 512
+	    != part->geom.length)
+		dvh_part_data->real_file_size = part->geom.length * 512;
+
 	vd->vd_nbytes = PED_CPU_TO_BE32 (dvh_part_data->real_file_size);
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
-- 
2.43.0


From 35a20aed9d6e20af1602e6630a91fb88e4b6160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 21/77] fix: dvh: setting a short boot file name read beyond
 its end

---
 libparted/labels/dvh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 3f0bfbe..6638591 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -715,7 +715,7 @@ dvh_partition_set_name (PedPartition* part, const char* name)
 
 	if (part->type == PED_PARTITION_LOGICAL) {
 		/* Bootfile */
-		memcpy (dvh_part_data->name, name, VDNAMESIZE);
+		strncpy (dvh_part_data->name, name, VDNAMESIZE);
 		dvh_part_data->name[VDNAMESIZE] = 0;
 	} else {
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From f17c752f2b71a14a7d7d51166fcd19aaff65da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 22/77] fix: dvh: clearing a flag on one partition cleared it
 on another

---
 libparted/labels/dvh.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 6638591..15297ef 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -622,7 +622,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->root = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->root = part->num;
+		else if (dvh_disk_data->root == part->num)
+			dvh_disk_data->root = 0;
 		break;
 
 	case PED_PARTITION_SWAP:
@@ -636,7 +639,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 			return 0;
 #endif
 		}
-		dvh_disk_data->swap = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->swap = part->num;
+		else if (dvh_disk_data->swap == part->num)
+			dvh_disk_data->swap = 0;
 		break;
 
 	case PED_PARTITION_BOOT:
@@ -650,7 +656,10 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 #endif
 			return 0;
 		}
-		dvh_disk_data->boot = state ? part->num : 0;
+		if (state)
+			dvh_disk_data->boot = part->num;
+		else if (dvh_disk_data->boot == part->num)
+			dvh_disk_data->boot = 0;
 		break;
 
 	case PED_PARTITION_LVM:
-- 
2.43.0


From 0c5cb459cdb2a00175a557bd5ee88b7ee8737b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 23/77] fix: dvh: duplicating a table lost its root, swap and
 boot flags and leaked memory

---
 libparted/labels/dvh.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 15297ef..7348ea8 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -135,16 +135,10 @@ dvh_duplicate (const PedDisk* disk)
 	if (!new_disk)
 		goto error;
 
-	new_disk->disk_specific = new_dvh_disk_data
-		= ped_malloc (sizeof (DVHDiskData));
-	if (!new_dvh_disk_data)
-		goto error_free_new_disk;
-
-	new_dvh_disk_data->dev_params = old_dvh_disk_data->dev_params;
+	new_dvh_disk_data = new_disk->disk_specific;
+	*new_dvh_disk_data = *old_dvh_disk_data;
 	return new_disk;
 
-error_free_new_disk:
-	free (new_disk);
 error:
 	return NULL;
 }
-- 
2.43.0


From 7e67b57ac242e9400ff64c7f58301642bfb311da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:28 +0000
Subject: [PATCH 24/77] fix: mac: setting an empty or blank name read before
 the name

---
 libparted/labels/mac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 6711d87..1b7c628 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1353,7 +1353,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	strncpy (mac_data->volume_name, name, 32);
 	mac_data->volume_name [32] = 0;
 	for (i = strlen (mac_data->volume_name) - 1;
-			mac_data->volume_name[i] == ' '; i--)
+			i >= 0 && mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
 }
 
-- 
2.43.0


From f41105c1fabb0112efb9eb4f7576f4b43a4b363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:28 +0000
Subject: [PATCH 25/77] fix: mac: a fresh partition map was counted one entry
 too short

---
 libparted/labels/mac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 1b7c628..cee0664 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -253,7 +253,7 @@ _disk_add_part_map_entry (PedDisk* disk, int warn)
 
 	mac_disk_data->part_map_entry_num = new_part->num;
 	mac_disk_data->part_map_entry_count
-		= new_part->geom.end - mac_disk_data->ghost_size;
+		= new_part->geom.end - mac_disk_data->ghost_size + 1;
 	ped_constraint_destroy (constraint_any);
 	return 1;
 
-- 
2.43.0


From 52d98497f422e5cef4e467a8d1d810fbeab7913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:00 +0000
Subject: [PATCH 26/77] fix: mac: the 32nd character of a partition name was
 dropped on disk

---
 libparted/labels/mac.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index cee0664..f06df4d 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -917,8 +917,7 @@ _generate_raw_part (PedDisk* disk, PedPartition* part,
 		= PED_CPU_TO_BE32 (mac_disk_data->last_part_entry_num);
 	part_map_entry->start_block = PED_CPU_TO_BE32 (part->geom.start);
 	part_map_entry->block_count = PED_CPU_TO_BE32 (part->geom.length);
-	strncpy (part_map_entry->name, mac_part_data->volume_name, 31);
-	part_map_entry->name[31] = '\0';
+	strncpy (part_map_entry->name, mac_part_data->volume_name, 32);
 	strncpy (part_map_entry->type, mac_part_data->system_name, 31);
 	part_map_entry->type[31] = '\0';
 
-- 
2.43.0


From 882a808cc741d9e69fd1c1894c7f2e458f66eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:00 +0000
Subject: [PATCH 27/77] fix: mac: partition flags disagreed with the type and
 name they are stored in

---
 libparted/labels/mac.c | 79 +++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index f06df4d..b47415d 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1178,6 +1178,22 @@ mac_partition_destroy (PedPartition* part)
 	free (part);
 }
 
+/* The flags are not stored: they are read back from the type and the name */
+static void
+_update_flags (MacPartitionData* mac_data)
+{
+	int is_unix = !strcasecmp (mac_data->system_name, "Apple_UNIX_SVR2");
+
+	mac_data->is_boot = !strcasecmp (mac_data->system_name,
+					 "Apple_Bootstrap")
+			    || !strcasecmp (mac_data->system_name,
+					    "Apple_Boot");
+	mac_data->is_root = is_unix && !strcmp (mac_data->volume_name, "root");
+	mac_data->is_swap = is_unix && !strcmp (mac_data->volume_name, "swap");
+	mac_data->is_lvm = !strcmp (mac_data->system_name, "Linux_LVM");
+	mac_data->is_raid = !strcmp (mac_data->system_name, "Linux_RAID");
+}
+
 static int
 mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 {
@@ -1186,11 +1202,12 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 	part->fs_type = fs_type;
 
 	if (fs_type && is_linux_swap (fs_type->name))
-		ped_partition_set_flag (part, PED_PARTITION_SWAP, 1);
+		strcpy (mac_data->volume_name, "swap");
 
 	if (mac_data->is_boot) {
 		strcpy (mac_data->system_name, "Apple_Bootstrap");
 		mac_data->status = 0x33;
+		_update_flags (mac_data);
 		return 1;
 	}
 
@@ -1206,6 +1223,7 @@ mac_partition_set_system (PedPartition* part, const PedFileSystemType* fs_type)
 		mac_data->status = 0x33;
 	}
 
+	_update_flags (mac_data);
 	return 1;
 }
 
@@ -1221,62 +1239,51 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	switch (flag) {
 	case PED_PARTITION_BOOT:
-		mac_data->is_boot = state;
-
-		if (part->fs_type)
-			return mac_partition_set_system (part, part->fs_type);
-
 		if (state) {
 			strcpy (mac_data->system_name, "Apple_Bootstrap");
 			mac_data->status = 0x33;
+		} else if (mac_data->is_boot) {
+			mac_data->is_boot = 0;
+			return mac_partition_set_system (part, part->fs_type);
 		}
-		return 1;
+		break;
 
 	case PED_PARTITION_ROOT:
 		if (state) {
+			strcpy (mac_data->system_name, "Apple_UNIX_SVR2");
 			strcpy (mac_data->volume_name, "root");
-			mac_data->is_swap = 0;
-		} else {
-			if (mac_data->is_root)
-				strcpy (mac_data->volume_name, "untitled");
-		}
-		mac_data->is_root = state;
-		return 1;
+		} else if (mac_data->is_root)
+			strcpy (mac_data->volume_name, "untitled");
+		break;
 
 	case PED_PARTITION_SWAP:
 		if (state) {
+			strcpy (mac_data->system_name, "Apple_UNIX_SVR2");
 			strcpy (mac_data->volume_name, "swap");
-			mac_data->is_root = 0;
-		} else {
-			if (mac_data->is_swap)
-				strcpy (mac_data->volume_name, "untitled");
-		}
-		mac_data->is_swap = state;
-		return 1;
+		} else if (mac_data->is_swap)
+			strcpy (mac_data->volume_name, "untitled");
+		break;
 
 	case PED_PARTITION_LVM:
-		if (state) {
+		if (state)
 			strcpy (mac_data->system_name, "Linux_LVM");
-			mac_data->is_lvm = state;
-		} else {
-			if (mac_data->is_lvm)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		else if (mac_data->is_lvm)
+			return mac_partition_set_system (part, part->fs_type);
+		break;
 
 	case PED_PARTITION_RAID:
-		if (state) {
+		if (state)
 			strcpy (mac_data->system_name, "Linux_RAID");
-			mac_data->is_raid = state;
-		} else {
-			if (mac_data->is_raid)
-				mac_partition_set_system (part, part->fs_type);
-		}
-		return 1;
+		else if (mac_data->is_raid)
+			return mac_partition_set_system (part, part->fs_type);
+		break;
 
 	default:
 		return 0;
 	}
+
+	_update_flags (mac_data);
+	return 1;
 }
 
 static int _GL_ATTRIBUTE_PURE
@@ -1345,7 +1352,6 @@ mac_partition_set_name (PedPartition* part, const char* name)
 			  "will prevent Linux from recognising it as such."))
 				!= PED_EXCEPTION_IGNORE)
 			return;
-		mac_data->is_root = mac_data->is_swap = 0;
 	}
 #endif
 
@@ -1354,6 +1360,7 @@ mac_partition_set_name (PedPartition* part, const char* name)
 	for (i = strlen (mac_data->volume_name) - 1;
 			i >= 0 && mac_data->volume_name[i] == ' '; i--)
 		mac_data->volume_name [i] = 0;
+	_update_flags (mac_data);
 }
 
 static const char* _GL_ATTRIBUTE_PURE
-- 
2.43.0


From 21561db4c9be5b5748d27ad7be48914bb082df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:45 +0000
Subject: [PATCH 28/77] fix: atari: a partition whose system was never set made
 the label unreadable

---
 libparted/labels/atari.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/labels/atari.c b/libparted/labels/atari.c
index 8ab3720..104fc41 100644
--- a/libparted/labels/atari.c
+++ b/libparted/labels/atari.c
@@ -1258,6 +1258,10 @@ atari_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		if (!atrpart)
 			goto error_free_part;
 		memset (atrpart, 0, sizeof (AtariPart));
+		/* without an id the table would not be recognised */
+		strcpy (atrpart->part_id,
+			part_type & PED_PARTITION_EXTENDED ? "XGM" : "RAW");
+		strcpy (atrpart->icd_id, atrpart->part_id);
 	} else {
 		part->disk_specific = NULL;
 	}
-- 
2.43.0


From b97c768929569d8f6b857ef8aa7ffadaa78989f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:45 +0000
Subject: [PATCH 29/77] fix: amiga: a partition added before others took their
 numbers on disk

---
 libparted/labels/rdb.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 765136f..e89c757 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -621,12 +621,16 @@ _amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
 }
 static PedPartition * _GL_ATTRIBUTE_PURE
 _amiga_next_real_partition(const PedDisk *disk, PedPartition *part) {
-	PedPartition *next;
-
-	for (next = ped_disk_next_partition (disk, part);
-		next != NULL && !ped_partition_is_active (next);
-		next = ped_disk_next_partition (disk, next));
-	return next;
+	PedPartition *next, *best = NULL;
+
+	/* the list on disk gives each partition its number: keep that order */
+	for (next = ped_disk_next_partition (disk, NULL); next;
+	     next = ped_disk_next_partition (disk, next))
+		if (ped_partition_is_active (next)
+		    && (!part || next->num > part->num)
+		    && (!best || next->num < best->num))
+			best = next;
+	return best;
 }
 #ifndef DISCOVER_ONLY
 static int
-- 
2.43.0


From bab7173c926452ffd069937ad84b82360e5d4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 30/77] fix: amiga: duplicating a table lost the partition
 numbers

---
 libparted/labels/rdb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index e89c757..3e27993 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -859,6 +859,7 @@ amiga_partition_duplicate (const PedPartition* part)
 				      part->geom.end);
 	if (!new_part)
 		return NULL;
+	new_part->num = part->num;
 
 	new_amiga_part = (struct PartitionBlock *) new_part->disk_specific;
 	memcpy (new_amiga_part, old_amiga_part, 256);
-- 
2.43.0


From cbcf20607664f5f2f185ae0e338940654469a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 31/77] fix: dvh: the volume header appeared twice in a
 duplicated table

---
 libparted/labels/dvh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7348ea8..6c9db10 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -135,6 +135,9 @@ dvh_duplicate (const PedDisk* disk)
 	if (!new_disk)
 		goto error;
 
+	/* the volume header is duplicated with the other partitions */
+	ped_disk_delete_all (new_disk);
+
 	new_dvh_disk_data = new_disk->disk_specific;
 	*new_dvh_disk_data = *old_dvh_disk_data;
 	return new_disk;
-- 
2.43.0


From 5a2c40fbde96bc4d3166eb75c2552a9e6d8454d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 32/77] fix: loop: the partition appeared twice in a duplicated
 table

---
 libparted/labels/loop.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/loop.c b/libparted/labels/loop.c
index fcdb373..57c30ae 100644
--- a/libparted/labels/loop.c
+++ b/libparted/labels/loop.c
@@ -103,7 +103,12 @@ loop_alloc (const PedDevice* dev)
 static PedDisk*
 loop_duplicate (const PedDisk* disk)
 {
-	return ped_disk_new_fresh (disk->dev, &loop_disk_type);
+	PedDisk *new_disk = ped_disk_new_fresh (disk->dev, &loop_disk_type);
+
+	/* the partition is duplicated by ped_disk_duplicate */
+	if (new_disk)
+		ped_disk_delete_all (new_disk);
+	return new_disk;
 }
 
 static void
-- 
2.43.0


From 330cad5610974fc4db15ff0b523c8238c8eafab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 33/77] fix: pc98: clearing a boot flag that the system
 requires reported success

---
 libparted/labels/pc98.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index cfa3ba4..b99d693 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -579,7 +579,9 @@ pc98_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	case PED_PARTITION_BOOT:
 		pc98_data->boot = state;
-		return ped_partition_set_system (part, part->fs_type);
+		/* some systems require the flag, which then stays set */
+		return ped_partition_set_system (part, part->fs_type)
+		       && !pc98_data->boot == !state;
 
 	default:
 		return 0;
-- 
2.43.0


From 8f5fe6736f30a392d76da8b003fc77316cadc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:17 +0000
Subject: [PATCH 34/77] fix: dvh: uninitialised memory was written after a boot
 file's name

---
 libparted/labels/dvh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 6c9db10..7b3ea73 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -434,7 +434,7 @@ _generate_boot_file (PedPartition* part, struct volume_directory* vd)
 	vd->vd_lbn = PED_CPU_TO_BE32 (part->geom.start);
 
 	memset (vd->vd_name, 0, VDNAMESIZE);
-	memcpy (vd->vd_name, dvh_part_data->name, VDNAMESIZE);
+	strncpy (vd->vd_name, dvh_part_data->name, VDNAMESIZE);
 }
 
 static int
-- 
2.43.0


From de77097b3230d7728a6a5fd269534b1ccde667c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 35/77] fix: amiga: stay inside the block table when following
 and allocating RDB blocks

---
 libparted/labels/rdb.c | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index 3e27993..a0e930b 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -562,7 +562,7 @@ amiga_read (PedDisk* disk)
 }
 
 static int
-_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
+_amiga_find_free_blocks(const PedDisk *disk, uint32_t *table, size_t tab_size,
 	struct LinkedBlock *block, uint32_t first, uint32_t type)
 {
 	PedSector next;
@@ -571,6 +571,13 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	PED_ASSERT(disk->dev != NULL);
 
 	for (next = first; next != LINK_END; next = PED_BE32_TO_CPU(block->lk_Next)) {
+		if (next < 0 || next >= tab_size) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("%s : Block %lld is outside the area reserved for the RDB."),
+				__func__, (long long) next);
+			return 0;
+		}
 		if (table[next] != IDNAME_FREE) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
 				PED_EXCEPTION_FIX | PED_EXCEPTION_IGNORE | PED_EXCEPTION_CANCEL,
@@ -605,7 +612,7 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 		}
 		table[next] = type;
 		if (PED_BE32_TO_CPU(block->lk_ID) == IDNAME_FILESYSHEADER) {
-			if (_amiga_find_free_blocks(disk, table, block,
+			if (_amiga_find_free_blocks(disk, table, tab_size, block,
 				PED_BE32_TO_CPU(LNK2(block)->lk2_Linked),
 				IDNAME_LOADSEG) == 0) return 0;
 		}
@@ -613,10 +620,12 @@ _amiga_find_free_blocks(const PedDisk *disk, uint32_t *table,
 	return 1;
 }
 static uint32_t _GL_ATTRIBUTE_PURE
-_amiga_next_free_block(uint32_t *table, uint32_t start, uint32_t type) {
-	int i;
+_amiga_next_free_block(uint32_t *table, size_t tab_size, uint32_t start,
+		       uint32_t type) {
+	uint32_t i;
 
-	for (i = start; table[i] != type && table[i] != IDNAME_FREE; i++);
+	for (i = start; i < tab_size && table[i] != type
+	     && table[i] != IDNAME_FREE; i++);
 	return i;
 }
 static PedPartition * _GL_ATTRIBUTE_PURE
@@ -640,7 +649,7 @@ amiga_write (const PedDisk* disk)
 	struct LinkedBlock *block;
 	struct PartitionBlock *partition;
 	PedPartition *part, *next_part;
-	PedSector cylblocks, first_hb, last_hb;
+	PedSector cylblocks, last_hb;
 	uint32_t * table;
 	uint32_t i;
 	uint32_t rdb_num, part_num, block_num, next_num;
@@ -668,14 +677,15 @@ amiga_write (const PedDisk* disk)
 
 	cylblocks = (PedSector) PED_BE32_TO_CPU (rdb->rdb_Heads) *
 		(PedSector) PED_BE32_TO_CPU (rdb->rdb_Sectors);
-	first_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksLo);
 	last_hb = (PedSector) PED_BE32_TO_CPU (rdb->rdb_RDBBlocksHi);
+	if (last_hb > disk->dev->length - 1)
+		last_hb = disk->dev->length - 1;
 
 	/* Allocate a free block table and initialize it.
 	   There must be room for at least RDB_NUM + 2 entries, since
 	   the first RDB_NUM+1 entries get IDNAME_RIGIDDISK, and the
 	   following one must have LINK_END to serve as sentinel.  */
-	size_t tab_size = 2 + MAX (last_hb - first_hb, rdb_num);
+	size_t tab_size = 2 + MAX (last_hb, rdb_num);
 	if (!(table = ped_malloc (tab_size * sizeof *table)))
 		return 0;
 
@@ -691,7 +701,7 @@ amiga_write (const PedDisk* disk)
 	}
 
 	/* And fill the free block table */
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BadBlockList), IDNAME_BADBLOCK) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -699,7 +709,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list bad blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_PartitionList), IDNAME_PARTITION) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -707,7 +717,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list partition blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_FileSysHeaderList), IDNAME_FILESYSHEADER) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -715,7 +725,7 @@ amiga_write (const PedDisk* disk)
 			_("%s : Failed to list file system blocks."), __func__);
 		goto error_free_table;
 	}
-	if (_amiga_find_free_blocks(disk, table, block,
+	if (_amiga_find_free_blocks(disk, table, tab_size, block,
 		PED_BE32_TO_CPU (rdb->rdb_BootBlockList), IDNAME_BOOT) == 0)
 	{
 		ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -724,7 +734,7 @@ amiga_write (const PedDisk* disk)
 		goto error_free_table;
 	}
 
-	block_num = part_num = _amiga_next_free_block(table, rdb_num+1,
+	block_num = part_num = _amiga_next_free_block(table, tab_size, rdb_num+1,
                                                       IDNAME_PARTITION);
 	part = _amiga_next_real_partition(disk, NULL);
 	rdb->rdb_PartitionList = PED_CPU_TO_BE32(part ? part_num : LINK_END);
@@ -733,8 +743,14 @@ amiga_write (const PedDisk* disk)
 		PED_ASSERT(part->geom.start % cylblocks == 0);
 		PED_ASSERT((part->geom.end + 1) % cylblocks == 0);
 
+		if (block_num > last_hb) {
+			ped_exception_throw(PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("There is no free block left for a partition in the RDB."));
+			goto error_free_table;
+		}
 		next_part = _amiga_next_real_partition(disk, part);
-		next_num = _amiga_next_free_block(table, block_num+1, IDNAME_PARTITION);
+		next_num = _amiga_next_free_block(table, tab_size, block_num+1, IDNAME_PARTITION);
 
 		partition = PART(part->disk_specific);
 		if (next_part == NULL)
-- 
2.43.0


From 70132c1acc6675b8193261ec845753307570d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:58 +0000
Subject: [PATCH 36/77] fix: geometry: refuse sector numbers outside the
 representable range instead of aborting

---
 libparted/cs/geom.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 6a7e6c9..21087d6 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -40,6 +40,7 @@
 
 #include <config.h>
 
+#include <limits.h>
 #include <parted/parted.h>
 #include <parted/debug.h>
 
@@ -154,7 +155,6 @@ ped_geometry_set (PedGeometry* geom, PedSector start, PedSector length)
 {
 	PED_ASSERT (geom != NULL);
 	PED_ASSERT (geom->dev != NULL);
-	PED_ASSERT (start >= 0);
 
 	if (length < 1) {
 		ped_exception_throw (
@@ -165,6 +165,16 @@ ped_geometry_set (PedGeometry* geom, PedSector start, PedSector length)
 		return 0;
 	}
 
+	/* such values may come straight from a damaged partition table */
+	if (start < 0 || length - 1 > LLONG_MAX - start) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("Sector number out of range!"
+                          " (start sector=%jd length=%jd)"), start, length);
+		return 0;
+	}
+
 	geom->start = start;
 	geom->length = length;
 	geom->end = start + length - 1;
-- 
2.43.0


From 38dc9fe37fb25c3216ac0c465fc6a58b17331382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:08 +0000
Subject: [PATCH 37/77] fix: amiga: refuse an RDB with an impossible geometry
 instead of dividing by zero

---
 libparted/labels/rdb.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/rdb.c b/libparted/labels/rdb.c
index a0e930b..07a0834 100644
--- a/libparted/labels/rdb.c
+++ b/libparted/labels/rdb.c
@@ -23,6 +23,8 @@
 
 #include <config.h>
 
+#include <limits.h>
+
 #include <parted/parted.h>
 #include <parted/debug.h>
 #include <parted/endian.h>
@@ -489,6 +491,16 @@ amiga_read (PedDisk* disk)
 		return 0;
 	}
 
+	/* Everything is measured in cylinders of this geometry */
+	if (!rdb->rdb_Heads || !rdb->rdb_Sectors
+	    || (uint64_t) PED_BE32_TO_CPU (rdb->rdb_Heads)
+	       * PED_BE32_TO_CPU (rdb->rdb_Sectors) > INT_MAX) {
+		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("%s : The geometry in the rdb block is invalid."),
+			__func__);
+		return 0;
+	}
+
 	/* Let's copy the rdb read geometry to the dev */
 	/* FIXME: should this go into disk->dev->bios_geom instead? */
 	disk->dev->hw_geom.cylinders = PED_BE32_TO_CPU (rdb->rdb_Cylinders);
@@ -547,8 +559,11 @@ amiga_read (PedDisk* disk)
 
 		PedConstraint *constraint_exact
 			= ped_constraint_exact (&part->geom);
-		if (constraint_exact == NULL)
+		if (constraint_exact == NULL) {
+			ped_partition_destroy(part);
+			free(partition);
 			return 0;
+		}
 		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
 		ped_constraint_destroy (constraint_exact);
 		if (!ok) {
-- 
2.43.0


From 43105cf0f6d7ca7c884ea6e3a7bf940381df1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 38/77] fix: msdos: accept adjacent logical partitions when
 reading instead of aborting

---
 libparted/labels/dos.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 941b140..058c2b6 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1390,6 +1390,14 @@ write_ext_table (const PedDisk* disk,
 		PedGeometry*		geom;
 		PedCHSGeometry		bios_geom;
 
+		if (ped_partition_is_active (part->prev)) {
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+				_("There is no room for the boot record of "
+				  "partition %d on %s."),
+				part->num, disk->dev->path);
+			goto cleanup;
+		}
 		geom = ped_geometry_new (disk->dev, part->prev->geom.start,
 				part->geom.end - part->prev->geom.start + 1);
 		if (!geom)
@@ -2392,7 +2400,9 @@ add_logical_part_metadata (PedDisk* disk, const PedPartition* log_part)
 	if (log_part->num == 5 && metadata_length < bios_geom.sectors)
 		return 1;
 
-	PED_ASSERT (metadata_length > 0);
+	/* no room: the boot record of this partition is somewhere else */
+	if (metadata_length <= 0)
+		return 1;
 
 	return add_metadata_part (disk, PED_PARTITION_LOGICAL,
 				  metadata_start, metadata_end);
-- 
2.43.0


From 1dc654caa95383c3f88a48f470369a8532409693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 39/77] fix: msdos: write an empty extended boot record as a
 whole sector

---
 libparted/labels/dos.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 058c2b6..b17f66b 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1420,19 +1420,21 @@ write_ext_table (const PedDisk* disk,
 static int
 write_empty_table (const PedDisk* disk, PedSector sector)
 {
-	DosRawTable		table;
+	DosRawTable*		table;
 	void*			table_sector;
+	int			ok;
 
 	PED_ASSERT (disk != NULL);
 
-	if (ptt_read_sector (disk->dev, sector, &table_sector)) {
-		memcpy (&table, table_sector, sizeof (table));
-		free(table_sector);
-	}
-	memset (&(table.partitions), 0, sizeof (table.partitions));
-	table.magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
+	if (!ptt_read_sector (disk->dev, sector, &table_sector))
+		return 0;
+	table = table_sector;
+	memset (&(table->partitions), 0, sizeof (table->partitions));
+	table->magic = PED_CPU_TO_LE16 (MSDOS_MAGIC);
 
-	return ped_device_write (disk->dev, (void*) &table, sector, 1);
+	ok = ped_device_write (disk->dev, table_sector, sector, 1);
+	free (table_sector);
+	return ok;
 }
 
 /* Find the first logical partition, and write the partition table for it.
-- 
2.43.0


From f0c8a9137502fd20763c4d7e44c13f1549fb6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 40/77] fix: msdos: stop at an endless chain of extended boot
 records

---
 libparted/labels/dos.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index b17f66b..3b91d71 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -57,6 +57,7 @@ static const char MBR_BOOT_CODE[] = {
 
 /* The maximum number of DOS primary partitions.  */
 #define DOS_N_PRI_PARTITIONS	4
+#define DOS_MAX_TABLES		1024
 
 #define PARTITION_EMPTY		0x00
 #define PARTITION_FAT12		0x01
@@ -1147,7 +1148,8 @@ raw_part_parse (const PedDisk* disk, const DosRawPartition* raw_part,
 }
 
 static int
-read_table (PedDisk* disk, PedSector sector, int is_extended_table)
+read_table (PedDisk* disk, PedSector sector, int is_extended_table,
+	    int* tables_left)
 {
 	int			i;
 	DosRawTable*		table;
@@ -1160,6 +1162,15 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 	PED_ASSERT (disk->dev != NULL);
 
 	void *label = NULL;
+	/* boot records that link back to each other never end */
+	if ((*tables_left)-- <= 0) {
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+			_("Invalid partition table - endless chain of "
+			"extended boot records on %s."),
+			disk->dev->path);
+		goto error;
+	}
 	if (!ptt_read_sector (disk->dev, sector, &label))
 		goto error;
 
@@ -1234,7 +1245,8 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 
 		/* non-nested extended partition */
 		if (part->type == PED_PARTITION_EXTENDED) {
-			if (!read_table (disk, part->geom.start, 1))
+			if (!read_table (disk, part->geom.start, 1,
+					 tables_left))
 				goto error;
 		}
 	}
@@ -1257,7 +1269,7 @@ read_table (PedDisk* disk, PedSector sector, int is_extended_table)
 				 */
 				continue;
 			}
-			if (!read_table (disk, part_start, 1))
+			if (!read_table (disk, part_start, 1, tables_left))
 				goto error;
 		}
 	}
@@ -1278,8 +1290,10 @@ msdos_read (PedDisk* disk)
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
 
+	int tables_left = DOS_MAX_TABLES;
+
 	ped_disk_delete_all (disk);
-	if (!read_table (disk, 0, 0))
+	if (!read_table (disk, 0, 0, &tables_left))
 		return 0;
 
 #ifndef DISCOVER_ONLY
-- 
2.43.0


From 77264f44c752f23fe32575229080eb6eee038795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:23 +0000
Subject: [PATCH 41/77] fix: pc98: refuse overlapping partitions when reading a
 table

---
 libparted/labels/pc98.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index b99d693..5ef2eb8 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -269,13 +269,10 @@ read_table (PedDisk* disk)
 {
 	int			i;
 	PC98RawTable		table;
-	PedConstraint*		constraint_any;
 
 	PED_ASSERT (disk != NULL);
 	PED_ASSERT (disk->dev != NULL);
 
-	constraint_any = ped_constraint_any (disk->dev);
-
 	if (!ped_device_read (disk->dev, (void*) &table, 0, 2))
 		goto error;
 
@@ -327,7 +324,13 @@ read_table (PedDisk* disk)
 
 		part->num = i + 1;
 
-		if (!ped_disk_add_partition (disk, part, constraint_any))
+		PedConstraint *constraint_exact
+			= ped_constraint_exact (&part->geom);
+		if (constraint_exact == NULL)
+			goto error;
+		bool ok = ped_disk_add_partition (disk, part, constraint_exact);
+		ped_constraint_destroy (constraint_exact);
+		if (!ok)
 			goto error;
 
 		if (part->geom.start != part_start
@@ -344,12 +347,10 @@ read_table (PedDisk* disk)
 		part->fs_type = ped_file_system_probe (&part->geom);
 	}
 
-	ped_constraint_destroy (constraint_any);
 	return 1;
 
 error:
 	ped_disk_delete_all (disk);
-	ped_constraint_destroy (constraint_any);
 	return 0;
 }
 
-- 
2.43.0


From 52087a03af9a396ab7cea515347713f2ed56e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:23 +0000
Subject: [PATCH 42/77] fix: mac: the conflicting map size message lacked an
 argument

---
 libparted/labels/mac.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index b47415d..eae2618 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -776,6 +776,7 @@ mac_read (PedDisk* disk)
 				  "Entry 1 says it is %d, but entry %d says "
 				  "it is %d!"),
 				last_part_entry_num,
+				num,
 				_rawpart_get_partmap_size (raw_part, disk))
 					!= PED_EXCEPTION_IGNORE)
 				goto error_delete_all;
-- 
2.43.0


From 252c47652dd9206a0f350a90d905b00498ae7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 43/77] fix: clobber: also clear an Amiga RDB beyond the first
 9 KiB on devices with large sectors

---
 libparted/disk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libparted/disk.c b/libparted/disk.c
index ea07793..4504872 100644
--- a/libparted/disk.c
+++ b/libparted/disk.c
@@ -327,11 +327,13 @@ ped_disk_clobber (PedDevice* dev)
 
 	/* How many sectors to zero out at each end.
 	   This must be large enough to zero out the magic bytes
-	   starting at offset 8KiB on a DASD partition table.
+	   starting at offset 8KiB on a DASD partition table, and an
+	   Amiga RDB, which may be in any of the first 16 sectors.
 	   Doing the same from the end of the disk is probably
 	   overkill, but at least on GPT, we do need to zero out
 	   the final sector.  */
-	const PedSector n_sectors = 9 * 1024 / dev->sector_size + 1;
+	const PedSector n_sectors = PED_MAX (9 * 1024 / dev->sector_size + 1,
+					     16);
 
 	/* Clear the first few.  */
 	PedSector n = n_sectors;
-- 
2.43.0


From 4f81b03d7231458606704b0fd502d53f65d6b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 44/77] fix: gpt: refuse impossible entry counts and sizes
 instead of aborting or overflowing

---
 libparted/labels/gpt.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 247d06c..2b37ae3 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -648,7 +648,7 @@ static void *
 gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
                    size_t *ptes_bytes)
 {
-  uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
+  size_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
   *ptes_bytes = p_ent_size * PED_LE32_TO_CPU(gpt->NumberOfPartitionEntries);
   size_t ptes_sectors = ped_div_round_up (*ptes_bytes,
                                           disk->dev->sector_size);
@@ -658,6 +658,11 @@ gpt_read_PE_array (PedDisk const *disk, GuidPartitionTableHeader_t const *gpt,
       errno = ENOMEM;
       return NULL;
     }
+  if (ptes_sectors > disk->dev->length)
+    {
+      errno = EINVAL;
+      return NULL;
+    }
   void *ptes = ped_malloc (ptes_sectors * disk->dev->sector_size);
   if (ptes == NULL)
     return NULL;
@@ -717,6 +722,11 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
             && pe_size <= (UINT32_MAX >> 4)))
     return 0;
 
+  /* gpt_read can handle no more than this many entries.  */
+  uint32_t pe_count = PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
+  if (pe_count == 0 || pe_count > 8192)
+    return 0;
+
   if (PED_LE64_TO_CPU (gpt->MyLBA) != my_lba)
     return 0;
 
@@ -756,7 +766,7 @@ _header_is_valid (PedDisk const *disk, GuidPartitionTableHeader_t *gpt,
 static PedSector
 _ptes_sectors(PedDisk const *disk, GuidPartitionTableHeader_t const *gpt)
 {
-  size_t ptes_bytes = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
+  size_t ptes_bytes = (size_t) PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry) *
                       PED_LE32_TO_CPU (gpt->NumberOfPartitionEntries);
   /* Minimum amount of space reserved is 128 128 byte entries */
   if (ptes_bytes < 128*128)
@@ -1092,7 +1102,7 @@ gpt_read (PedDisk *disk)
       goto error_free_ptes;
     }
 
-  uint32_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
+  size_t p_ent_size = PED_LE32_TO_CPU (gpt->SizeOfPartitionEntry);
   for (i = 0; i < gpt_disk_data->entry_count; i++)
     {
       GuidPartitionEntry_t *pte
-- 
2.43.0


From f647b92b93a8fa0020907d9115412d7da56cf755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:15 +0000
Subject: [PATCH 45/77] fix: gpt: recognise a GPT whose primary header has lost
 its signature

---
 libparted/labels/gpt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 2b37ae3..39bfec3 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -551,10 +551,15 @@ gpt_probe (const PedDevice *dev)
     }
   free (label);
 
+  /* Look at both headers: either copy may be damaged.  */
+  const PedSector header_lba[2] = { 1, dev->length - 1 };
   void *pth_raw = ped_malloc (pth_get_size (dev));
-  if (ped_device_read (dev, pth_raw, 1, GPT_HEADER_SECTORS)
-      || ped_device_read (dev, pth_raw, dev->length - 1, GPT_HEADER_SECTORS))
+  if (!pth_raw)
+    return 0;
+  for (int i = 0; i < 2 && !gpt_sig_found; i++)
     {
+      if (!ped_device_read (dev, pth_raw, header_lba[i], GPT_HEADER_SECTORS))
+        continue;
       GuidPartitionTableHeader_t *gpt = pth_new_from_raw (dev, pth_raw);
       if (gpt->Signature == PED_CPU_TO_LE64 (GPT_HEADER_SIGNATURE))
         gpt_sig_found = 1;
-- 
2.43.0


From d2144a26736376ac4622d2a06f2d81a4e1dc765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:59 +0000
Subject: [PATCH 46/77] fix: geometry: keep the sector after the end
 representable too

---
 libparted/cs/geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 21087d6..9c38af9 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -166,7 +166,7 @@ ped_geometry_set (PedGeometry* geom, PedSector start, PedSector length)
 	}
 
 	/* such values may come straight from a damaged partition table */
-	if (start < 0 || length - 1 > LLONG_MAX - start) {
+	if (start < 0 || length > LLONG_MAX - start) {
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
 			PED_EXCEPTION_CANCEL,
-- 
2.43.0


From 9a3edcbe0cefd780faf85c03ecfd093b254bfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 47/77] fix: geometry: never read beyond the end of the device

---
 libparted/cs/geom.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/cs/geom.c b/libparted/cs/geom.c
index 9c38af9..9660349 100644
--- a/libparted/cs/geom.c
+++ b/libparted/cs/geom.c
@@ -302,7 +302,8 @@ ped_geometry_read (const PedGeometry* geom, void* buffer, PedSector offset,
 
 	real_start = geom->start + offset;
 
-	if (real_start + count - 1 > geom->end)
+	if (real_start + count - 1 > geom->end
+	    || real_start + count > geom->dev->length)
 		return 0;
 
 	if (!ped_device_read (geom->dev, buffer, real_start, count))
-- 
2.43.0


From c0715134b473b1fb37cd498970b3e1d1dd2941cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:53 +0000
Subject: [PATCH 48/77] fix: amiga file systems: do not trust sizes and links
 found in the RDB when probing

---
 libparted/fs/amiga/affs.c  | 11 +++++++----
 libparted/fs/amiga/amiga.c | 12 +++++++++++-
 libparted/fs/amiga/apfs.c  |  9 +++++----
 libparted/fs/amiga/asfs.c  |  2 +-
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/libparted/fs/amiga/affs.c b/libparted/fs/amiga/affs.c
index 750eab2..2786633 100644
--- a/libparted/fs/amiga/affs.c
+++ b/libparted/fs/amiga/affs.c
@@ -78,7 +78,7 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 			_("%s : Failed to allocate block\n"), __func__);
 		goto error_block;
 	}
-	if (!ped_device_read (geom->dev, block, geom->start, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read boot block %llu\n"), __func__, geom->start);
 		goto error;
@@ -88,13 +88,16 @@ _generic_affs_probe (PedGeometry* geom, uint32_t kind)
 	}
 
 	/* Find and test the root block */
+	if (reserved < 0 || reserved >= geom->length / blocksize)
+		goto error;
 	len = geom->length / blocksize - reserved;
 	pos = (len - 1) / 2;
-	root = geom->start + (pos + reserved) * blocksize;
+	root = (pos + reserved) * blocksize;
 
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	if (!ped_geometry_read (geom, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
-			_("%s : Couldn't read root block %llu\n"), __func__, root);
+			_("%s : Couldn't read root block %llu\n"), __func__,
+			geom->start + root);
 		goto error;
 	}
 	if (_affs_probe_root(block, blocksize) == 1) {
diff --git a/libparted/fs/amiga/amiga.c b/libparted/fs/amiga/amiga.c
index 1a909fc..9d17d05 100644
--- a/libparted/fs/amiga/amiga.c
+++ b/libparted/fs/amiga/amiga.c
@@ -164,7 +164,7 @@ _amiga_checksum (struct AmigaBlock *blk) {
 	sum = PED_BE32_TO_CPU (rdb[0]);
 	end = PED_BE32_TO_CPU (rdb[1]);
 
-	if (end > PED_SECTOR_SIZE_DEFAULT) end = PED_SECTOR_SIZE_DEFAULT;
+	if (end > PED_SECTOR_SIZE_DEFAULT / 4) end = PED_SECTOR_SIZE_DEFAULT / 4;
 
 	for (i = 1; i < end; i++) sum += PED_BE32_TO_CPU (rdb[i]);
 
@@ -306,12 +306,17 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 	{
 		PedSector start, end;
 		PedSector cylblocks;
+		uint64_t blocksize;
 
 		/* Let's look for loops in the partition table */
 		if (_amiga_loop_check(partblock, partlist, i)) {
 			free (rdb);
 			return NULL;
 		}
+		if (partblock >= geom->dev->length) {
+			free (rdb);
+			return NULL;
+		}
 		/* Let's read a partition block to get its geometry*/
 		if (!ped_device_read (geom->dev, part, (PedSector)partblock, 1)) {
 			switch (ped_exception_throw(PED_EXCEPTION_ERROR,
@@ -342,6 +347,11 @@ amiga_find_part (PedGeometry *geom, struct PartitionBlock *part)
 		/* And check if it is the one we are searching for */
 		if (start == geom->start && end == geom->end) {
 			free (rdb);
+			/* Don't let the caller use an absurd block size */
+			blocksize = (uint64_t) PED_BE32_TO_CPU (part->de_SizeBlock)
+				* PED_BE32_TO_CPU (part->de_SectorPerBlock) / 128;
+			if (blocksize == 0 || blocksize > 1024)
+				return NULL;
 			return part;
 		}
 	}
diff --git a/libparted/fs/amiga/apfs.c b/libparted/fs/amiga/apfs.c
index aeaa1f3..e115c86 100644
--- a/libparted/fs/amiga/apfs.c
+++ b/libparted/fs/amiga/apfs.c
@@ -71,7 +71,7 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 			_("%s : Failed to allocate block\n"), __func__);
 		goto error_block;
 	}
-	if (!ped_device_read (geom->dev, block, geom->start, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read boot block %llu\n"), __func__, geom->start);
 		goto error;
@@ -81,10 +81,11 @@ _generic_apfs_probe (PedGeometry* geom, uint32_t kind)
 	}
 
 	/* Find and test the root block */
-	root = geom->start+reserved*blocksize;
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	root = (PedSector) reserved*blocksize;
+	if (!ped_geometry_read (geom, block, root, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
-			_("%s : Couldn't read root block %llu\n"), __func__, root);
+			_("%s : Couldn't read root block %llu\n"), __func__,
+			geom->start + root);
 		goto error;
 	}
 	if (_apfs_probe_root(block, blocksize, kind) == 1) {
diff --git a/libparted/fs/amiga/asfs.c b/libparted/fs/amiga/asfs.c
index c4c65e5..25da7c2 100644
--- a/libparted/fs/amiga/asfs.c
+++ b/libparted/fs/amiga/asfs.c
@@ -85,7 +85,7 @@ _asfs_probe (PedGeometry* geom)
 		goto error_block;
 	}
 	root = geom->start;
-	if (!ped_device_read (geom->dev, block, root, blocksize)) {
+	if (!ped_geometry_read (geom, block, 0, blocksize)) {
 		ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
 			_("%s : Couldn't read root block %llu\n"), __func__, root);
 		goto error;
-- 
2.43.0


From fdcbb5f2d62a4bb516b9fbd3efa30bd37de0952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:31 +0000
Subject: [PATCH 49/77] fix: ext2: a nonsensical backup superblock made the
 probe read nowhere or recurse for ever

---
 libparted/fs/ext2/interface.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libparted/fs/ext2/interface.c b/libparted/fs/ext2/interface.c
index 5f64ab3..c60b619 100644
--- a/libparted/fs/ext2/interface.c
+++ b/libparted/fs/ext2/interface.c
@@ -82,10 +82,13 @@ _ext2_generic_probe (PedGeometry* geom, int expect_ext_ver)
 					- group_blocks * group_nr
 					- first_data_block;
 
-			if (start < 0)
+			/* a first group that isn't before this one would
+			   be probed for ever */
+			if (start < 0 || start >= geom->start)
+				return NULL;
+			if (!ped_geometry_init (&probe_geom, geom->dev, start,
+						block_count * block_size))
 				return NULL;
-			ped_geometry_init (&probe_geom, geom->dev,
-					   start, block_count * block_size);
 			return _ext2_generic_probe (&probe_geom,
                                                     expect_ext_ver);
 		} else {
-- 
2.43.0


From 5469ce7569fdbaecb34d88faa9629c7c7a576527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 50/77] fix: sun: a new partition without a file system type
 was written with no tag and lost

---
 libparted/labels/sun.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 853576b..7736785 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -511,7 +511,7 @@ sun_partition_new (const PedDisk* disk, PedPartitionType part_type,
 		       	= sun_data = ped_malloc (sizeof (SunPartitionData));
 		if (!sun_data)
 			goto error_free_part;
-		sun_data->type = 0;
+		sun_data->type = 0x83;
 		sun_data->is_boot = 0;
 		sun_data->is_root = 0;
 		sun_data->is_lvm = 0;
-- 
2.43.0


From a79c2abe9d06c49d41da57830170dce6e7e53a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 51/77] fix: msdos: keep an existing disk signature when adding
 boot code

---
 libparted/labels/dos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/dos.c b/libparted/labels/dos.c
index 3b91d71..34c95c2 100644
--- a/libparted/labels/dos.c
+++ b/libparted/labels/dos.c
@@ -1486,7 +1486,8 @@ msdos_write (const PedDisk* disk)
 	DosRawTable *table = (DosRawTable *) s0;
 
 	if (!table->boot_code[0]) {
-		memset (table, 0, 512);
+		/* keep the disk signature */
+		memset (table->boot_code, 0, sizeof (table->boot_code));
 		memcpy (table->boot_code, MBR_BOOT_CODE, sizeof (MBR_BOOT_CODE));
 	}
 
-- 
2.43.0


From be607420345154d66440f0a36898a952081ee052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 52/77] fix: mac: refuse a block size of zero in the driver
 descriptor

---
 libparted/labels/mac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index eae2618..5dd3377 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -627,7 +627,8 @@ _disk_analyse_block_size (PedDisk* disk, MacRawDisk* raw_disk)
 {
 	PedSector	block_size;
 
-	if (PED_BE16_TO_CPU (raw_disk->block_size) % 512) {
+	if (!raw_disk->block_size
+	    || PED_BE16_TO_CPU (raw_disk->block_size) % 512) {
 #ifndef DISCOVER_ONLY
 		ped_exception_throw (
 			PED_EXCEPTION_ERROR,
-- 
2.43.0


From e234035fc5a0253df7925cfad8e1f55b8edea389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:54 +0000
Subject: [PATCH 53/77] fix: gpt: refuse to write over a partition that
 overlaps the entry arrays

---
 libparted/labels/gpt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libparted/labels/gpt.c b/libparted/labels/gpt.c
index 39bfec3..50132db 100644
--- a/libparted/labels/gpt.c
+++ b/libparted/labels/gpt.c
@@ -1293,6 +1293,16 @@ gpt_write (const PedDisk *disk)
     {
       if (part->type != 0)
         continue;
+      /* Only a table made elsewhere can have such a partition.  */
+      if (part->geom.start < 2 + ptes_sectors
+          || (part->geom.start <= gpt_disk_data->AlternateLBA
+              && part->geom.end >= gpt_disk_data->AlternateLBA - ptes_sectors))
+        {
+          ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
+                               _("Partition %d overlaps the partition table."),
+                               part->num);
+          goto error_free_ptes;
+        }
       _partition_generate_part_entry (part, &ptes[part->num - 1]);
     }
 
-- 
2.43.0


From 5bd8c219cfa8149841a168959860de3be6a72656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:21 +0000
Subject: [PATCH 54/77] fix: bsd: do not wrap the end of a partition that
 crosses sector 2^32

---
 libparted/labels/bsd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libparted/labels/bsd.c b/libparted/labels/bsd.c
index dee088d..9b97883 100644
--- a/libparted/labels/bsd.c
+++ b/libparted/labels/bsd.c
@@ -276,7 +276,7 @@ bsd_read (PedDisk* disk)
 		    || !label->d_partitions[i - 1].p_fstype)
 			continue;
 		start = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset);
-		end = PED_LE32_TO_CPU(label->d_partitions[i - 1].p_offset)
+		end = start
 		      + PED_LE32_TO_CPU(label->d_partitions[i - 1].p_size) - 1;
 		part = ped_partition_new (disk, PED_PARTITION_NORMAL,
                                           NULL, start, end);
-- 
2.43.0


From dbdf9f1491b6493b3ae648a5041740c6a58ad545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 55/77] fix: pc98: refuse partitions beyond the last cylinder
 the table can describe

---
 libparted/labels/pc98.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libparted/labels/pc98.c b/libparted/labels/pc98.c
index 5ef2eb8..2985bb8 100644
--- a/libparted/labels/pc98.c
+++ b/libparted/labels/pc98.c
@@ -676,8 +676,10 @@ _primary_constraint (PedDisk* disk)
 		return NULL;
 	if (!ped_alignment_init (&end_align, -1, cylinder_size))
 		return NULL;
+	/* cylinder numbers are 16 bits wide on disk */
 	if (!ped_geometry_init (&max_geom, dev, cylinder_size,
-			       	dev->length - cylinder_size))
+				PED_MIN (dev->length - cylinder_size,
+					 UINT16_MAX * cylinder_size)))
 		return NULL;
 
 	return ped_constraint_new (&start_align, &end_align, &max_geom,
-- 
2.43.0


From 27ef47aa2296d327433dc05a2f4e5f385f17917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 56/77] fix: sun: store at most 65535 cylinders, so that the
 label stays readable

---
 libparted/labels/sun.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libparted/labels/sun.c b/libparted/labels/sun.c
index 7736785..ed54945 100644
--- a/libparted/labels/sun.c
+++ b/libparted/labels/sun.c
@@ -467,17 +467,19 @@ sun_write (const PedDisk* disk)
 	   smaller than it really is, but we'll have that problem even if we
 	   don't do this.  */
 
-	if (disk->dev->bios_geom.cylinders > 65536) {
+	if (disk->dev->bios_geom.cylinders > UINT16_MAX) {
 		ped_exception_throw (
 			PED_EXCEPTION_WARNING,
 			PED_EXCEPTION_IGNORE,
 			_("The disk has %d cylinders, which is greater than "
-			  "the maximum of 65536."),
+			  "the maximum of 65535."),
 			disk->dev->bios_geom.cylinders);
 	}
 
-	label->pcylcount = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders);
-	label->ncyl = PED_CPU_TO_BE16 (disk->dev->bios_geom.cylinders
+	/* a count that wrapped around to zero would make the label unreadable */
+	int cylinders = PED_MIN (disk->dev->bios_geom.cylinders, UINT16_MAX);
+	label->pcylcount = PED_CPU_TO_BE16 (cylinders);
+	label->ncyl = PED_CPU_TO_BE16 (cylinders
 			- PED_BE16_TO_CPU (label->nacyl));
 
 	sun_compute_checksum (label);
-- 
2.43.0


From 7016a78f96b61347da26a58f738dcfd5ab162dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 57/77] fix: unit: clamp a position to what a PedSector can
 hold

---
 libparted/unit.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index a63b98d..d865ba7 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -505,6 +505,8 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 	char*     copy;
 	char*     suffix;
 	double    num;
+	double    pos;
+	const double limit = 1LL << 62;
 	long long unit_size;
 	PedSector radius;
 
@@ -553,7 +555,13 @@ ped_unit_parse_custom (const char* str, const PedDevice* dev, PedUnit unit,
 				radius = 0;
 	}
 
-	*sector = num * unit_size / dev->sector_size;
+	/* a position that a PedSector cannot hold is outside of any device */
+	pos = num * unit_size / dev->sector_size;
+	if (pos > limit)
+		pos = limit;
+	if (pos < -limit)
+		pos = -limit;
+	*sector = pos;
 	/* negative numbers count from the end */
 	if (copy[0] == '-')
 		*sector += dev->length;
-- 
2.43.0


From cc0b5b31fa00536dfe112e4cfde6efdf6e2a4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 58/77] fix: unit: do not read "-10%" or "12.5%" as a CHS
 position

---
 libparted/unit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libparted/unit.c b/libparted/unit.c
index d865ba7..13ba2f4 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -361,6 +361,10 @@ is_chs (const char* str)
 	int punct_count = 0;
 	int i = 0;
 
+	/* neither a position counted from the end nor a percentage is CHS */
+	if (str[strspn (str, " \t")] == '-' || strchr (str, '%'))
+		return 0;
+
 	for (i = 0; str[i]; i++)
 		punct_count += ispunct (str[i]) != 0;
 	return punct_count == 2;
-- 
2.43.0


From 6f3da97b5df279bcffa8d6f0ef59ca55d4d9f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 59/77] fix: unit: strip every space of a unit string, and
 nothing else

---
 libparted/unit.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/libparted/unit.c b/libparted/unit.c
index 13ba2f4..cd55603 100644
--- a/libparted/unit.c
+++ b/libparted/unit.c
@@ -322,15 +322,12 @@ ped_unit_parse (const char* str, const PedDevice* dev, PedSector *sector,
 static void
 strip_string (char* str)
 {
-	int i;
+	char* to = str;
 
-	for (i = 0; str[i] != 0; i++) {
-		if (isspace (str[i])) {
-			int j;
-			for (j = i + 1; str[j] != 0; j++)
-				str[j - 1] = str[j];
-		}
-	}
+	for (; *str; str++)
+		if (!isspace (*str))
+			*to++ = *str;
+	*to = 0;
 }
 
 
-- 
2.43.0


From cd15a35eec5e122a13e457f4210b4716c54e684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 60/77] fix: parted: room for partition numbers of three digits
 and more in print

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index fc2aeba..5dc365d 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1414,7 +1414,7 @@ do_print (PedDevice** dev, PedDisk** diskp)
                         part->type & PED_PARTITION_METADATA)
                             continue;
 
-                    tmp = ped_malloc (4);
+                    tmp = ped_malloc (16);
 
                     if (part->num >= 0)
                             sprintf (tmp, "%2d ", part->num);
-- 
2.43.0


From 04544e411fd3cc543374a3c4c16bbc6862aeb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 61/77] fix: parted: room for table cells with control or
 zero-width characters

---
 parted/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parted/table.c b/parted/table.c
index 63c0e6a..d3003b7 100644
--- a/parted/table.c
+++ b/parted/table.c
@@ -175,8 +175,9 @@ static void table_render_row (Table* t, int rownum, int ncols, wchar_t** s)
         assert(t);
         assert(s != NULL);
 
+        /* a cell may be wider in characters than in columns */
         for (i = 0; i < ncols; ++i)
-                len += t->widths[i] + wcslen(DELIMITER);
+                len += wcslen(row[i]) + t->widths[i] + 1 + wcslen(DELIMITER);
 
         len += wcslen(COLSUFFIX);
 
-- 
2.43.0


From c8ec2e8248ef164185befceb75d842783b492dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 62/77] fix: parted: do not read behind the string, or lose
 words, when wrapping

---
 parted/strlist.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parted/strlist.c b/parted/strlist.c
index c4cb351..f742f13 100644
--- a/parted/strlist.c
+++ b/parted/strlist.c
@@ -460,17 +460,22 @@ str_list_print_wrap (const StrList* list, int line_length, int offset,
 			cut_left = MIN (line_left - 1, str_len - 1);
 
 			/* we can have a space "over", but not a comma */
-			if (cut_left < str_len
+			if (cut_left + 1 < str_len
 					&& is_space (str [cut_left + 1]))
 				cut_left++;
 
-			while (cut_left && !is_break_point (str [cut_left]))
+			while (cut_left >= 0 && !is_break_point (str [cut_left]))
 				cut_left--;
-			while (cut_left && is_space (str [cut_left]))
+			while (cut_left >= 0 && is_space (str [cut_left]))
 				cut_left--;
 
+			/* a word that is longer than a line has to be broken */
+			if (cut_left < 0 && line_left >= line_length - indent)
+				cut_left = MIN (line_left - 1, str_len - 1);
+
 		/* str [cut_left] is either the end of a word, or a
-		 * Japanese character, or the start of a blank line.
+		 * Japanese character, or the start of a blank line; there is
+		 * no such character (-1) if the next word needs a new line.
 		 */
 
 			search_result = str_search (str, cut_left + 1, '\n');
@@ -483,7 +488,7 @@ str_list_print_wrap (const StrList* list, int line_length, int offset,
 			     cut_right < str_len && is_space (str [cut_right]);
 			     cut_right++);
 
-			if (cut_left > 0)
+			if (cut_left >= 0)
 				print_wchar (str, cut_left + 1, fp);
 
 			str += cut_right;
-- 
2.43.0


From 103455bd066b137dbab89c8144a47f448bdb05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 63/77] fix: parted: accept command line words of more than 255
 characters

---
 parted/ui.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parted/ui.c b/parted/ui.c
index d6d1da4..c1e7be0 100644
--- a/parted/ui.c
+++ b/parted/ui.c
@@ -36,6 +36,7 @@
 #include "strlist.h"
 #include "ui.h"
 #include "error.h"
+#include "xalloc.h"
 
 #define N_(String) String
 #if ENABLE_NLS
@@ -727,7 +728,7 @@ command_line_push_line (const char* line, int multi_word)
         int     quoted = 0;
         int     quotes_empty = 0;
         char    quote_char = 0;
-        char    this_word [256];
+        char*   this_word = xmalloc (strlen (line) + 1);
         int     i;
 
         do {
@@ -735,7 +736,7 @@ command_line_push_line (const char* line, int multi_word)
                         line++;
 
                 i = 0;
-                for (; *line && i < sizeof (this_word) - 1; line++) {
+                for (; *line; line++) {
                         if (*line == ' ' && !quoted) {
                                 if (multi_word)
                                         break;
@@ -772,6 +773,8 @@ command_line_push_line (const char* line, int multi_word)
                         command_line_push_word (this_word);
                 }
         } while (*line && multi_word);
+
+        free (this_word);
 }
 
 static char*
-- 
2.43.0


From 68494d3162cb9ce83d128bff358ca56a02fcc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 64/77] fix: constraint: refuse a range that lies outside of
 the device

---
 libparted/cs/constraint.c | 13 +++++++++++++
 parted/parted.c           |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/libparted/cs/constraint.c b/libparted/cs/constraint.c
index c9693f6..4a64cef 100644
--- a/libparted/cs/constraint.c
+++ b/libparted/cs/constraint.c
@@ -78,7 +78,20 @@ ped_constraint_init (
 	constraint->min_size = min_size;
 	constraint->max_size = max_size;
 
+	/* a range outside of the device can't be duplicated */
+	if (!constraint->start_range || !constraint->end_range)
+		goto error_free;
+
 	return 1;
+
+error_free:
+	ped_alignment_destroy (constraint->start_align);
+	ped_alignment_destroy (constraint->end_align);
+	if (constraint->start_range)
+		ped_geometry_destroy (constraint->start_range);
+	if (constraint->end_range)
+		ped_geometry_destroy (constraint->end_range);
+	return 0;
 }
 
 /**
diff --git a/parted/parted.c b/parted/parted.c
index 5dc365d..f651afd 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1903,6 +1903,8 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
 
         /* Do not move start of the partition */
         constraint = constraint_from_start_end_fixed_start (*dev, start, range_end);
+        if (!constraint)
+                goto error;
         if (!ped_disk_set_partition_geom (disk, part, constraint,
                                           start, end))
                 goto error_destroy_constraint;
-- 
2.43.0


From 319f5fb2b1984a454aef877d3f7ab3f9c39a02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 65/77] fix: parted: take a resize back when it is declined or
 can't be written

---
 parted/parted.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parted/parted.c b/parted/parted.c
index f651afd..d81c12e 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -1861,6 +1861,7 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
         PedSector               start, end, oldend;
         PedGeometry             *range_end = NULL;
         PedConstraint*          constraint;
+        PedConstraint*          constraint_old;
         int rc = 0;
         char*                   end_input = NULL;
         char*                   end_size = NULL;
@@ -1915,14 +1916,26 @@ do_resizepart (PedDevice** dev, PedDisk** diskp)
                             PED_EXCEPTION_YES_NO,
                             _("Shrinking a partition can cause data loss, " \
                               "are you sure you want to continue?")) != PED_EXCEPTION_YES)
-                        goto error_destroy_constraint;
-        ped_disk_commit (disk);
+                        goto error_restore_geom;
+        if (!ped_disk_commit (disk))
+                goto error_restore_geom;
 
         if ((*dev)->type != PED_DEVICE_FILE)
                 disk_is_modified = 1;
 
         rc = 1;
-
+        goto error_destroy_constraint;
+
+error_restore_geom:
+        /* the change was not written, so take it back */
+        ped_geometry_set (range_end, oldend, 1);
+        constraint_old = constraint_from_start_end_fixed_start (*dev, start,
+                                                                range_end);
+        if (constraint_old) {
+                ped_disk_set_partition_geom (disk, part, constraint_old,
+                                             start, oldend);
+                ped_constraint_destroy (constraint_old);
+        }
 error_destroy_constraint:
         ped_constraint_destroy (constraint);
 error:
-- 
2.43.0


From b2b04595af26cddf0ea450d8edb4af9f78b688c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 66/77] fix: parted: resizepart: accept the default end

---
 parted/parted.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parted/parted.c b/parted/parted.c
index d81c12e..7baa932 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -644,6 +644,10 @@ _adjust_end_if_iec (PedSector* start, PedSector* end,
         if (*start == *end)
                 return;
 
+        /* the default was taken, which is an exact sector - do not move it */
+        if (!end_input)
+                return;
+
         _strip_trailing_spaces(end_input);
         PedUnit unit = ped_unit_get_default();
         if (_string_ends_with_iec_unit(end_input) ||
-- 
2.43.0


From bc07172123310861d4323b8e0e3b22d8200f30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 67/77] fix: parted: type: refuse a type-id that does not fit
 in an unsigned int

---
 parted/parted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parted/parted.c b/parted/parted.c
index 7baa932..1b35906 100644
--- a/parted/parted.c
+++ b/parted/parted.c
@@ -970,7 +970,7 @@ do_type (PedDevice** dev, PedDisk** diskp)
                 if (!input)
                     goto error;
 
-                unsigned int tmp = strtol (input, (char**) NULL, 16);
+                long tmp = strtol (input, (char**) NULL, 16);
                 if (tmp < 0x01 || tmp > 0xff) {
                         ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL,
                                              _("Invalid type-id."));
-- 
2.43.0


From 6f20b1cf54d8ed02b414f5a6fcc4ecd890f8a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 68/77] fix: mac: do not set flags on the partition map

---
 libparted/labels/mac.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libparted/labels/mac.c b/libparted/labels/mac.c
index 5dd3377..f887a48 100644
--- a/libparted/labels/mac.c
+++ b/libparted/labels/mac.c
@@ -1239,6 +1239,20 @@ mac_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 
 	mac_data = part->disk_specific;
 
+	/* the flags are kept in the partition's type and name, and a
+	 * partition map of another type is no longer found
+	 */
+	if (state && !strcmp (mac_data->system_name, "Apple_partition_map")) {
+#ifndef DISCOVER_ONLY
+		ped_exception_throw (
+			PED_EXCEPTION_ERROR,
+			PED_EXCEPTION_CANCEL,
+			_("The partition map can't have the flag %s."),
+			ped_partition_flag_get_name (flag));
+#endif
+		return 0;
+	}
+
 	switch (flag) {
 	case PED_PARTITION_BOOT:
 		if (state) {
-- 
2.43.0


From 5a41d29fea485dec06a694714bea628f7c50e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 69/77] fix: linux: check whole sectors of any size, and stop
 at the end

---
 libparted/arch/linux.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index ccbba86..f4b2aeb 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2125,8 +2125,8 @@ static PedSector
 linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
 {
         LinuxSpecific*  arch_specific = LINUX_SPECIFIC (dev);
-        PedSector       done = 0;
-        int             status;
+        size_t          read_length = count * dev->sector_size;
+        size_t          done = 0;
         void*           diobuf;
 
         PED_ASSERT(dev != NULL);
@@ -2134,21 +2134,20 @@ linux_check (PedDevice* dev, void* buffer, PedSector start, PedSector count)
         if (!_device_seek (dev, start))
                 return 0;
 
-        if (posix_memalign(&diobuf, PED_SECTOR_SIZE_DEFAULT,
-                           count * PED_SECTOR_SIZE_DEFAULT) != 0)
+        if (posix_memalign(&diobuf, dev->sector_size, read_length) != 0)
                 return 0;
 
-        for (done = 0; done < count; done += status / dev->sector_size) {
-                status = read (arch_specific->fd, diobuf,
-                               (size_t) ((count-done) * dev->sector_size));
-                if (status > 0)
-                        memcpy(buffer, diobuf, status);
-                if (status < 0)
+        while (done < read_length) {
+                ssize_t status = read (arch_specific->fd, diobuf,
+                                       read_length - done);
+                if (status <= 0)
                         break;
+                memcpy((char *) buffer + done, diobuf, status);
+                done += status;
         }
         free(diobuf);
 
-        return done;
+        return done / dev->sector_size;
 }
 
 static int
-- 
2.43.0


From dd3e0544d7510a4ea6bb9dd2e932c4936502c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 70/77] fix: linux: close the device when its cache can't be
 synced

---
 libparted/arch/linux.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f4b2aeb..503dff8 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1765,10 +1765,13 @@ linux_close (PedDevice* dev)
 {
         LinuxSpecific*          arch_specific = LINUX_SPECIFIC (dev);
 
+        int             synced = 0;
+
         if (dev->dirty)
                 _flush_cache (dev);
 retry:
-        if (fsync (arch_specific->fd) < 0 || close (arch_specific->fd) < 0)
+        if ((!synced && fsync (arch_specific->fd) < 0)
+            || (synced = 1, close (arch_specific->fd) < 0)) {
 		if (ped_exception_throw (
 			PED_EXCEPTION_WARNING,
 			PED_EXCEPTION_RETRY + PED_EXCEPTION_IGNORE,
@@ -1776,6 +1779,10 @@ retry:
 			dev->path, strerror (errno))
 				== PED_EXCEPTION_RETRY)
 			goto retry;
+		/* don't leave the device open when fsync fails */
+		if (!synced)
+			close (arch_specific->fd);
+        }
         return 1;
 }
 
-- 
2.43.0


From 18554683a6a5b112457df29aa4100b0412edd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 71/77] fix: linux: BLKGETSIZE counts units of 512 bytes

---
 libparted/arch/linux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 503dff8..f59412a 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -858,7 +858,8 @@ _device_get_length (PedDevice* dev)
                 return 0;
         }
 
-        return size;
+        /* BLKGETSIZE counts in units of 512 bytes */
+        return size / (dev->sector_size / PED_SECTOR_SIZE_DEFAULT);
 }
 
 static int
-- 
2.43.0


From b1864aadbc7155e0a111cc64e9f284b4701f62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 72/77] fix: linux: give a new device a sector size

---
 libparted/arch/linux.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f59412a..b53e0a6 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1457,6 +1457,8 @@ linux_new (const char* path)
         arch_specific->topology = NULL;
 #endif
 
+        dev->sector_size = PED_SECTOR_SIZE_DEFAULT;
+        dev->phys_sector_size = PED_SECTOR_SIZE_DEFAULT;
         dev->open_count = 0;
         dev->read_only = 0;
         dev->external_mode = 0;
-- 
2.43.0


From daef042539a790bc145c537174282e0389fbec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 73/77] fix: linux: give a SCSI device a model when its id
 can't be read

---
 libparted/arch/linux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index b53e0a6..f483731 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1176,6 +1176,7 @@ init_scsi (PedDevice* dev)
                         goto error_close_dev;
                 if (!_device_probe_geometry (dev))
                         goto error_close_dev;
+                dev->model = strdup ("Generic SCSI");
                 _device_close (dev);
                 return 1;
         }
-- 
2.43.0


From 736eb9dc0e37ee9bb45815cc834bb87e543d6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:08 +0000
Subject: [PATCH 74/77] fix: linux: believe a partition ioctl when it succeeds,
 not when it fails

---
 libparted/arch/linux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index f483731..71fb5f4 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -2787,7 +2787,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         if (!ok) {
                 struct hd_geometry geom;
                 int dev_fd = open (dev_name, O_RDONLY);
-                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom)) {
+                if (dev_fd != -1 && ioctl (dev_fd, HDIO_GETGEO, &geom) == 0) {
                         *start = geom.start;
                         close (dev_fd);
                         ok = true;
@@ -2804,7 +2804,7 @@ _kernel_get_partition_start_and_length(PedPartition const *part,
         int fd;
         if (!ok) {
                 fd = open (dev_name, O_RDONLY);
-                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length))
+                if (fd != -1 && ioctl (fd, BLKGETSIZE64, length) == 0)
                         ok = true;
         } else {
                 fd = -1;
-- 
2.43.0


From 805907f884f9ed6089c3125b067aebab851ccc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:08 +0000
Subject: [PATCH 75/77] fix: linux: close a partition's device when its cache
 can't be synced

---
 libparted/arch/linux.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 71fb5f4..3763891 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -1677,6 +1677,7 @@ _flush_cache (PedDevice* dev)
         for (i = 1; i < lpn; i++) {
                 char*           name;
                 int             fd;
+                int             synced = 0;
 
                 name = _device_get_part_path (dev, i);
                 if (!name)
@@ -1686,7 +1687,8 @@ _flush_cache (PedDevice* dev)
                         if (fd > -1) {
                                 ioctl (fd, BLKFLSBUF);
 retry:
-                                if (fsync (fd) < 0 || close (fd) < 0)
+                                if ((!synced && fsync (fd) < 0)
+                                    || (synced = 1, close (fd) < 0)) {
 					if (ped_exception_throw (
 						PED_EXCEPTION_WARNING,
 						PED_EXCEPTION_RETRY +
@@ -1695,6 +1697,10 @@ retry:
 						name, strerror (errno))
 							== PED_EXCEPTION_RETRY)
 						goto retry;
+					/* don't leave it open if fsync fails */
+					if (!synced)
+						close (fd);
+                                }
                         }
                 }
                 free (name);
-- 
2.43.0


From c5c4c16f9778a2df79099b608acf9679d9667105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:34 +0000
Subject: [PATCH 76/77] fix: linux: report partitions in use beyond what the
 label can hold

---
 libparted/arch/linux.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libparted/arch/linux.c b/libparted/arch/linux.c
index 3763891..18d4a8d 100644
--- a/libparted/arch/linux.c
+++ b/libparted/arch/linux.c
@@ -3181,11 +3181,10 @@ _disk_sync_part_table (PedDisk* disk)
                 if (!ok[i - 1] && errnums[i - 1] == ENXIO)
                         ok[i - 1] = 1; /* it already doesn't exist */
         }
-        lpn = lpn2;
         /* don't actually add partitions for loop */
         if (strcmp (disk->type->name, "loop") == 0)
-                lpn = 0;
-        for (i = 1; i <= lpn; i++) {
+                lpn2 = 0;
+        for (i = 1; i <= lpn2; i++) {
                 PedPartition *part = ped_disk_get_partition (disk, i);
                 if (!part)
                         continue;
@@ -3223,8 +3222,11 @@ _disk_sync_part_table (PedDisk* disk)
         for (i = 1; i <= lpn; i++) {
                 if (ok[i - 1] || errnums[i - 1] == ENXIO)
                         continue;
+                /* nothing is added there, but what is in use remains */
+                if (i > lpn2 && errnums[i - 1] != EBUSY)
+                        continue;
                 if (bad_part_list == NULL) {
-                        bad_part_list = malloc (lpn * 5);
+                        bad_part_list = malloc (lpn * 12);
                         if (!bad_part_list)
                                 goto cleanup;
                         bad_part_list[0] = 0;
-- 
2.43.0


From 239b4997c0e59a5881460c1f3fcad131023caef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 77/77] fix: dvh: refuse to make a nameless boot file the boot
 partition

---
 libparted/labels/dvh.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libparted/labels/dvh.c b/libparted/labels/dvh.c
index 7b3ea73..7eb1c73 100644
--- a/libparted/labels/dvh.c
+++ b/libparted/labels/dvh.c
@@ -650,6 +650,16 @@ dvh_partition_set_flag (PedPartition* part, PedPartitionFlag flag, int state)
 				PED_EXCEPTION_CANCEL,
 				_("Only logical partitions can be a boot "
 				  "file."));
+#endif
+			return 0;
+		}
+		/* the label refers to its boot file by name */
+		if (state && !ped_partition_get_name (part) [0]) {
+#ifndef DISCOVER_ONLY
+			ped_exception_throw (
+				PED_EXCEPTION_ERROR,
+				PED_EXCEPTION_CANCEL,
+				_("A boot file needs a name."));
 #endif
 			return 0;
 		}
-- 
2.43.0

