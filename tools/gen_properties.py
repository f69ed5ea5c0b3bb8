#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per P(...) call)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
L = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    L.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

P("C01", "Sector rounding and alignment helpers return exactly the promised sector",
  "For every sector and grain, rounding up, down or to nearest returns the multiple of the grain that the name promises. "
  "For every alignment, geometry and sector, aligning up/down/nearest returns an aligned sector inside the geometry that is the closest one in the promised direction, and fails only when the geometry holds no aligned sector.",
  ["inputs"], "all sectors, grains, alignments (offset, grain) and geometries",
  "Unit tests never call the helpers directly; CLI tests use power-of-two grains with offset 0, so negative offsets, sectors below the offset and boundary geometries are not sampled.",
  ["libparted/cs/natmath.c"],
  [("ped_round_*_to", "libparted/cs/natmath.c"), ("_closest_inside_geometry", "libparted/cs/natmath.c")],
  observe=["ped_alignment_align_up/down/nearest", "ped_round_up_to/down_to/to_nearest", "ped_alignment_is_aligned"])

P("C02", "Intersecting alignments keeps exactly the commonly aligned sectors",
  "For any two alignments, a sector is aligned to their intersection if and only if it is aligned to both; the intersection is reported as absent only when no sector is aligned to both.",
  ["inputs"], "all pairs of alignments (offset, grain) and all sectors",
  "Nothing tests alignment intersection; it runs an extended-Euclid computation whose sign and rounding corner cases only appear for coprime or non-dividing grains and unequal offsets.",
  ["libparted/cs/natmath.c"],
  [("ped_alignment_intersect", "libparted/cs/natmath.c"), ("extended_euclid", "libparted/cs/natmath.c")],
  observe=["ped_alignment_intersect", "ped_alignment_is_aligned"])

P("C03", "Geometry predicates and operations agree with sets of sectors",
  "Treating a geometry as the set of sectors from start to end on one device, intersection, overlap, containment, equality, membership, mapping and setters agree with the corresponding set operation. "
  "No operation ever yields a geometry with non-positive length, end different from start+length-1, or a negative start, and reads or writes through a geometry never leave it or the device.",
  ["inputs"], "all pairs of geometries and sectors on a device, including empty, touching, nested, out-of-range and near-overflow values",
  "Tests only exercise geometries reached by successful CLI commands; boundary (touching, one past the end) and failing arguments are not enumerated.",
  ["libparted/cs/geom.c"],
  [("ped_geometry_init/set/intersect/test_*", "libparted/cs/geom.c"), ("ped_geometry_map", "libparted/cs/geom.c")],
  observe=["ped_geometry_* return values and out parameters"])

P("C04", "Constraint solving only returns solutions, and finds one when asked near it",
  "Any geometry returned when solving a constraint satisfies that constraint (alignments, ranges, size limits) and lies in the device; a geometry that already satisfies the constraint is returned unchanged. "
  "A solution of an intersection of two constraints satisfies both, and a constraint built from a minimum, maximum, exact geometry or any-device accepts exactly the geometries that name describes.",
  ["inputs"], "all constraints (two alignments, two ranges, min and max size), all pairs of them and all target geometries within the bounds",
  "CLI tests reach a few constraint shapes (cylinder, MiB, exact); the solver's interplay of ranges, alignment and size limits has a combinatorial input space no list of examples covers.",
  ["libparted/cs/constraint.c", "libparted/cs/natmath.c", "libparted/cs/geom.c"],
  [("_constraint_solver", "libparted/cs/constraint.c"), ("ped_constraint_intersect", "libparted/cs/constraint.c"), ("ped_constraint_is_solution", "libparted/cs/constraint.c")],
  observe=["ped_constraint_solve_nearest/max, is_solution, intersect, new_from_*"])

P("C05", "Every operation keeps the partition table well-formed",
  "After any sequence of adding, moving, resizing, maximising and removing partitions, successful or refused, the table's regions are in increasing order, inside the device, pairwise disjoint and, together with reported free space and metadata, cover the device; "
  "logical partitions lie inside the single extended partition, whose first sector (it holds a chain record) need not be reported as a region, and numbers are positive and unique (the extended holder of an Atari table is numbered 0).",
  ["histories", "inputs"], "all sequences of operations up to the stated length with arbitrary start/end sectors, kinds and constraints, on each label type",
  "Tests run a handful of fixed command sequences; well-formedness must hold for every sequence and every start/end including overlapping, touching, inverted and out-of-device requests.",
  ["libparted/disk.c", "libparted/labels/dos.c", "libparted/labels/gpt.c", "libparted/labels/sun.c", "libparted/labels/bsd.c"],
  [("_disk_raw_add/_disk_raw_remove", "libparted/disk.c"), ("_check_partition/_check_extended_partition", "libparted/disk.c"), ("_disk_push/pop_update_mode", "libparted/disk.c")],
  state=[("disk->part_list", "ordered doubly linked list of regions; an extended partition has its own sublist", "libparted/disk.c")],
  observe=["ped_disk_next_partition walk", "ped_disk_get_partition"])

P("C06", "A refused partition operation changes nothing",
  "If adding, moving, resizing, maximising, removing or flagging a partition fails, the set of partitions the caller sees (extents, kinds, numbers, flags, names) is the same as before the call and the table is still usable.",
  ["inputs", "histories"], "all failing operations with arbitrary arguments from every table state reachable within the bound",
  "Tests check the error text of a few refusals, never that the in-memory table is unchanged afterwards.",
  ["libparted/disk.c"],
  [("ped_disk_set_partition_geom / ped_disk_add_partition error paths", "libparted/disk.c")],
  observe=["ped_disk_next_partition walk before and after"])

P("C07", "Partition numbers stay unique, in range and stable",
  "A newly added partition gets a free number within the label's supported range; numbers of existing primary partitions never change because another partition is added, moved or removed (Atari tables, which number by position, excepted; DVH boot files are numbered from 17), and MS-DOS logical partitions are always numbered consecutively from 5 in chain order. "
  "A full table refuses the addition instead of reusing or exceeding a number.",
  ["histories"], "all add/remove histories up to the stated length on every label type",
  "Tests create partitions in order and rarely remove any; slot reuse and exhaustion need particular histories.",
  ["libparted/disk.c", "libparted/labels/dos.c", "libparted/labels/gpt.c", "libparted/labels/sun.c", "libparted/labels/bsd.c", "libparted/labels/dvh.c", "libparted/labels/mac.c", "libparted/labels/pc98.c"],
  [("<label>_partition_enumerate", "libparted/labels/*.c"), ("ped_disk_enumerate_partitions", "libparted/disk.c")],
  observe=["part->num of every partition"])

P("C08", "GPT: what is committed is what is read back",
  "For every GPT table built through the library, committing it and reading the device again yields the same partitions: numbers, first and last sectors, type, flags, names, GUIDs and disk flags. "
  "The cylinder-alignment preference is not part of the label. The bytes written are a valid GPT (both headers and both entry arrays consistent with the specification, checksums included, and a protective MBR covering the disk).",
  ["inputs", "configurations"], "all partition extents, attribute combinations, names and GUIDs, disk lengths and sector sizes within the bounds",
  "Tests commit a few partitions with default attributes; round-trip must hold for all attribute bits, names and positions, including first/last usable sector and >2TiB disks.",
  ["libparted/labels/gpt.c", "libparted/labels/pt-tools.c"],
  [("gpt_write/gpt_read", "libparted/labels/gpt.c"), ("_partition_generate_part_entry/_parse_part_entry", "libparted/labels/gpt.c")],
  observe=["ped_disk_commit_to_dev then ped_disk_new on the same sectors", "raw sectors vs. UEFI layout"])

P("C09", "GPT: a crash during commit leaves a readable old or new table",
  "If the machine stops after any number of the sector writes of a commit that updates an existing valid GPT, the device still reads back (accepting the offered repair) as a complete table equal to either the old or the new one.",
  ["crash_points"], "every crash point between sector writes of a commit, for all old and new tables within the bound",
  "No test interrupts a commit; the guarantee depends on the order of the individual writes.",
  ["libparted/labels/gpt.c"],
  [("gpt_write ordering of primary and backup copies", "libparted/labels/gpt.c"), ("gpt_read_headers fallback", "libparted/labels/gpt.c")],
  observe=["ped_disk_new on the prefix image"])

P("C10", "GPT: damaged copies are detected, and the intact copy is used",
  "A primary header or entry array altered so that its checksum does not match is never used; when the other copy is intact the table it describes is what is read. "
  "Reading never writes to the device, and when both copies are damaged the read fails.",
  ["inputs", "fault_sequences"], "all single-region corruptions (any bytes of primary header, backup header, entry arrays, or unreadable sectors) of a valid GPT",
  "Tests corrupt one or two fixed bytes; the guarantee is for every altered byte and value and every unreadable sector.",
  ["libparted/labels/gpt.c"],
  [("_header_is_valid", "libparted/labels/gpt.c"), ("check_PE_array_CRC", "libparted/labels/gpt.c"), ("gpt_read", "libparted/labels/gpt.c")],
  observe=["ped_disk_new result", "write log of the device"])

P("C11", "GPT: reading arbitrary on-disk bytes is memory-safe and well-behaved",
  "Opening a device whose GPT structures contain arbitrary bytes either yields a well-formed table or is refused; it never reads or writes outside allocated memory, aborts, divides by zero or fails to terminate, and never writes to the device.",
  ["inputs"], "all contents of the header fields and partition entries, with matching checksums where needed, for devices within the bounds",
  "Tests use labels parted itself wrote; hostile or foreign field values (counts, sizes, LBAs) are outside the samples.",
  ["libparted/labels/gpt.c"],
  [("gpt_probe/gpt_read/_header_is_valid/gpt_read_PE_array", "libparted/labels/gpt.c")],
  observe=["sanitizer-level memory checks", "partition list invariant"])

P("C12", "MS-DOS: what is committed is what is read back",
  "For every MS-DOS table built through the library (primary, extended and logical partitions), committing it and reading the device again yields the same partitions with the same extents, kinds, numbers, system type and flags (the cylinder-alignment preference is not part of the label).",
  ["inputs", "histories"], "all extents, types and flag combinations for up to the stated number of primary and logical partitions",
  "Tests commit a few layouts; chain layout, CHS/LBA corner cases and flag/type combinations need exhaustive coverage.",
  ["libparted/labels/dos.c", "libparted/labels/pt-tools.c"],
  [("msdos_write/write_extended_partitions/fill_raw_part", "libparted/labels/dos.c"), ("read_table", "libparted/labels/dos.c")],
  observe=["ped_disk_commit_to_dev then ped_disk_new"])

P("C13", "MS-DOS: reading arbitrary on-disk bytes is memory-safe and terminates",
  "Probing and opening a device whose MBR and extended boot records contain arbitrary bytes yields a table whose partitions lie inside the device, do not overlap and have unique numbers, or is refused; when the user chooses to ignore a complaint the table may be irregular, but it never leaves allocated memory, aborts, divides by zero, loops or recurses without bound, and never writes to the device.",
  ["inputs"], "all contents of the four primary entries and of every reachable EBR, chains of any shape including cycles, within the bounds",
  "Tests only read tables written by parted; cyclic or overlapping chains and odd CHS values are not sampled.",
  ["libparted/labels/dos.c"],
  [("msdos_probe", "libparted/labels/dos.c"), ("read_table", "libparted/labels/dos.c"), ("disk_check_bios_geometry / probe_*_for_geom", "libparted/labels/dos.c")],
  observe=["sanitizer-level memory checks", "partition list invariant", "read count"])

P("C14", "Committing a label touches only that label's own metadata bytes",
  "Committing a table writes only to sectors the label format reserves for metadata, never inside any partition of the new table (except MS-DOS boot records inside the extended partition), and preserves the bytes of shared sectors that do not belong to the label (boot code and, unless asked to initialise it, the MS-DOS disk signature).",
  ["inputs"], "all tables within the bound on every label type, with arbitrary previous contents of the metadata sectors",
  "Tests compare a few bytes on a blank image; foreign bytes and all layouts are not sampled.",
  ["libparted/labels/dos.c", "libparted/labels/gpt.c", "libparted/labels/sun.c", "libparted/labels/bsd.c", "libparted/labels/mac.c", "libparted/labels/pc98.c", "libparted/labels/rdb.c", "libparted/labels/atari.c", "libparted/labels/dvh.c", "libparted/labels/loop.c"],
  [("<label>_write", "libparted/labels/*.c"), ("ptt_write_sector/ptt_clear_sectors", "libparted/labels/pt-tools.c")],
  observe=["write log of the device"])

P("C15", "Sun, BSD, DVH, PC-98 and loop labels read back what was committed",
  "For each of these labels, committing any table built through the library and reading the device again yields the same partitions with the same extents, numbers, names, kinds, bootable and type-related flags that the format can express. A DVH table keeps its volume header and has non-empty, distinct boot-file names; an unnamed PC-98 partition is shown with the name of its file-system type; a loop label always has its single partition; the cylinder-alignment preference is not part of any label.",
  ["inputs", "histories"], "all extents and flag/name combinations for up to the stated number of partitions on each label",
  "Tests create one or two partitions per label and only compare printed output.",
  ["libparted/labels/sun.c", "libparted/labels/bsd.c", "libparted/labels/dvh.c", "libparted/labels/pc98.c", "libparted/labels/loop.c"],
  [("<label>_write / <label>_read", "libparted/labels/")],
  observe=["ped_disk_commit_to_dev then ped_disk_new"])

P("C16", "Mac, Amiga and Atari labels read back what was committed",
  "For each of these labels, committing any table built through the library and reading the device again yields the same partitions with the same extents, numbers, names, kinds and flags that the format can express. The entry that describes a Mac partition map itself is left alone, and Amiga partitions, a chain in number order, are renumbered consecutively when there are gaps.",
  ["inputs", "histories"], "all extents and flag/name combinations for up to the stated number of partitions on each label",
  "Tests create one or two partitions per label and only compare printed output.",
  ["libparted/labels/mac.c", "libparted/labels/rdb.c", "libparted/labels/atari.c"],
  [("<label>_write / <label>_read", "libparted/labels/")],
  observe=["ped_disk_commit_to_dev then ped_disk_new"])

P("C17", "Reading arbitrary bytes as any other label is memory-safe and terminates",
  "For the Sun, BSD, DVH, PC-98, Mac, Amiga, Atari, loop, AIX and DASD labels, probing and opening a device with arbitrary bytes in the label sectors yields a table whose partitions lie inside the device, do not overlap and have unique numbers, or a refusal (when the user chooses to ignore a complaint the table may be irregular), without leaving allocated memory, aborting, dividing by zero, looping forever or writing to the device unasked.",
  ["inputs"], "all contents of the label sectors within the bounds, for each label type",
  "Tests read only labels parted wrote; foreign or hostile field values are not sampled.",
  ["libparted/labels/sun.c", "libparted/labels/bsd.c", "libparted/labels/dvh.c", "libparted/labels/pc98.c", "libparted/labels/mac.c", "libparted/labels/rdb.c", "libparted/labels/atari.c", "libparted/labels/aix.c", "libparted/labels/dasd.c"],
  [("<label>_probe / <label>_read", "libparted/labels/")],
  observe=["sanitizer-level memory checks", "partition list invariant"])

P("C18", "File system probing is memory-safe, bounded and read-only",
  "For every file-system type, probing any region holding arbitrary bytes terminates without leaving allocated memory, dividing by zero or aborting, never reads outside the device and never writes; a reported file-system region lies on the same device, has positive length and, for a fresh probe, the overall answer is one of the types whose own probe accepted the region.",
  ["inputs"], "all superblock contents and region positions/lengths within the bounds, for each file-system type",
  "Tests probe file systems created by mkfs tools; arbitrary superblocks and tiny or end-of-device regions are not sampled.",
  ["libparted/filesys.c", "libparted/fs"],
  [("ped_file_system_probe", "libparted/filesys.c"), ("<fs>_probe", "libparted/fs/*/")],
  observe=["ped_file_system_probe(_specific) results", "device read/write log"])

P("C19", "Writing a new label removes every stale signature it must, and only those",
  "After a device is clobbered no partition-table type recognises it any more (the boot sector of a GPT device is deliberately kept, and a bare file system beyond the cleared areas may still be shown as a loop label), only the sectors that may hold a label signature were changed, and nothing beyond the device was accessed.",
  ["inputs", "configurations"], "all previous contents of the signature sectors, all device lengths (down to one sector) and sector sizes within the bounds",
  "Tests relabel a few combinations; stale-signature interactions depend on arbitrary previous contents and tiny devices.",
  ["libparted/disk.c", "libparted/labels/pt-tools.c"],
  [("ped_disk_clobber", "libparted/disk.c"), ("ptt_clear_sectors", "libparted/labels/pt-tools.c")],
  observe=["ped_disk_probe after ped_disk_clobber", "device write log"])

P("C20", "Locations and sizes convert exactly between units",
  "A location printed for a sector in sectors, bytes or cylinder,head,sector parses back to that sector, unit sizes and names are exact, and a number with a unit (with or without a minus sign, which counts from the end, and spaces) parses to the sector it names and to a range that contains it and reaches half a unit to each side within the device (no further than the sector itself for binary and sector units); malformed text and locations more than half a unit outside the device are refused with an error, and an accepted location is never outside the device.",
  ["inputs"], "all sectors, device geometries, units and input strings up to the stated length",
  "Tests parse a few dozen fixed strings; the conversion must be exact for every sector, geometry and suffix.",
  ["libparted/unit.c"],
  [("ped_unit_parse_custom/parse_chs/geometry_from_*", "libparted/unit.c"), ("ped_unit_format_custom_byte", "libparted/unit.c")],
  observe=["ped_unit_parse_custom", "ped_unit_format_custom", "ped_unit_get_size"])

P("C21", "Device reads and writes transfer exactly the requested sectors, or fail",
  "A successful device or geometry read/write transfers exactly the requested sectors to or from exactly the requested position, whatever pattern of short transfers, retried errors and seeks the operating system produces; a refusal or cancelled error is reported as failure, and a read-only device is never written.",
  ["fault_sequences", "inputs"], "all sequences of short/failed system-call results and handler choices up to the stated length, all start/count values",
  "Tests use regular files, where transfers are never short or failing.",
  ["libparted/arch/linux.c", "libparted/device.c", "libparted/cs/geom.c"],
  [("linux_read/linux_write", "libparted/arch/linux.c"), ("ped_device_read/write", "libparted/device.c")],
  observe=["bytes seen by the system-call layer", "return values"])

P("C22", "Partition and disk flags behave as independent, truthful switches",
  "For every label and flag reported available, setting it succeeds only if reading it back then gives the requested value, unavailable flags are refused without effect, the partition's extent never changes, and setting a flag to its current value changes no other flag (clearing a GPT type flag returns the partition to the type its file system implies). "
  "Flag names and numbers map one-to-one.",
  ["inputs", "histories"], "all flags and states, all sequences of flag changes up to the stated length on every label type",
  "Tests set each flag once on a fresh partition; interactions between flags sharing one type byte are not covered.",
  ["libparted/disk.c", "libparted/labels/dos.c", "libparted/labels/gpt.c", "libparted/labels/sun.c", "libparted/labels/bsd.c", "libparted/labels/mac.c", "libparted/labels/dvh.c", "libparted/labels/pc98.c"],
  [("<label>_partition_set_flag/get_flag/is_flag_available", "libparted/labels/*.c"), ("ped_partition_flag_next/get_name/get_by_name", "libparted/disk.c")],
  observe=["ped_partition_get_flag for every flag after each set"])

P("C23", "Exceptions reach exactly the responsible handler and options are honoured",
  "With no fetch in effect each thrown exception calls the current handler exactly once with the given type, options and message, and the thrower gets exactly the chosen option; while any fetch is in effect the handler is never called and the thrower gets 'unhandled', and nesting of fetch/leave, catch and rethrow follows that rule at every depth without leaking or double-freeing.",
  ["histories"], "all sequences of throw/catch/rethrow/fetch/leave/set-handler up to the stated length",
  "No test drives the exception interface directly; only balanced single-level use occurs in CLI runs.",
  ["libparted/exception.c"],
  [("ped_exception_throw/fetch_all/leave_all/rethrow/catch", "libparted/exception.c")],
  observe=["handler call log", "return values", "ped_exception"])

P("C24", "The GPT checksum equals the standard CRC-32",
  "For every buffer, the checksum used for GPT headers and entry arrays equals the IEEE 802.3 CRC-32 (reflected, initial and final complement) mandated by UEFI, for every length including zero.",
  ["inputs"], "all buffers up to the stated length, plus one step from every CRC state and byte",
  "Tests only compare parted against itself or fixed images; a wrong table entry would go unnoticed unless that byte value occurs.",
  ["libparted/labels/efi_crc32.c"],
  [("__efi_crc32 / table", "libparted/labels/efi_crc32.c")],
  observe=["__efi_crc32 and the checksum fields of a written GPT"])

P("C25", "Devices are opened, shared and closed in balance",
  "For any sequence of open, close, begin/end external access and commits, the operating-system open and close calls stay balanced, nested opens keep the device open until the last close, no descriptor is used after it was closed or left behind, whatever system calls fail on the way; and probing a device yields either a usable device with the size and sector size the system reports, or an error and nothing left open.",
  ["histories"], "all call sequences up to the stated length, with arbitrary success or failure of the underlying open/close",
  "Tests use each device in one straight-line open/close; nesting and failing opens are not exercised.",
  ["libparted/device.c", "libparted/arch/linux.c"],
  [("ped_device_open/close/begin_external_access/end_external_access", "libparted/device.c")],
  state=[("dev->open_count, dev->external_mode", "nesting counters", "include/parted/device.in.h")],
  observe=["architecture open/close/refresh call log"])

P("C26", "Duplicating a table gives an equal, independent copy",
  "The duplicate of any table lists the same partitions (extents, kinds, numbers, flags, names, type identifiers) and disk flags as the original; changing or destroying one never affects the other, and committing the duplicate writes the same bytes as committing the original (a fresh MS-DOS label's random disk signature aside).",
  ["inputs", "histories"], "all tables within the bound on every label type",
  "Tests exercise duplication for one or two labels with default attributes.",
  ["libparted/disk.c", "libparted/labels"],
  [("ped_disk_duplicate / <label>_duplicate / <label>_partition_duplicate", "libparted/disk.c, libparted/labels/*.c")],
  observe=["partition walk of both tables", "write logs of both commits"])

P("C27", "Label limits are enforced so that nothing is silently truncated on disk",
  "A partition whose start or length cannot be represented in the label's on-disk fields is refused when it is added or committed; no table accepted by the library ever reads back with a truncated or wrapped start or length.",
  ["inputs"], "all starts and lengths up to beyond the 32-bit and label-specific limits, on every label type",
  "Tests probe the limits for a few labels at one or two values.",
  ["libparted/disk.c", "libparted/labels/pt-limit.gperf", "libparted/labels/pt-common.h", "libparted/labels/dos.c"],
  [("PT_define_limit_functions / ptt_partition_max_start_len", "libparted/labels/pt-tools.c"), ("_check_partition", "libparted/disk.c")],
  observe=["ped_disk_add_partition result, read-back extents"])

P("C28", "A freshly written label is recognised as itself",
  "After committing a fresh or populated table of any label type to a device, whatever it held before (the boot code of a former GPT device, which is kept, must not itself spell another label's signature), probing the device reports exactly that label type and opening it succeeds without any complaint.",
  ["inputs", "configurations"], "all device lengths, sector sizes and tables within the bounds, for each label type",
  "Tests check one image size per label; recognition depends on sizes, geometry and table contents.",
  ["libparted/disk.c", "libparted/labels"],
  [("ped_disk_probe", "libparted/disk.c"), ("<label>_probe", "libparted/labels/*.c")],
  observe=["ped_disk_probe, ped_disk_new, exceptions thrown"])

P("C29", "The kernel is told exactly the table that was committed",
  "When a committed table is passed to the running kernel, partitions removed or changed are removed there and partitions added or changed are added with exactly the committed start and length in bytes, unchanged ones are left alone, and success is reported only when the kernel then knows exactly the committed partitions it can hold; anything else (a partition in use that could not be removed or changed, a refused command) is reported, and a partition in use is never moved. A partition, or the device, is reported busy exactly when it (or something inside it) is mounted or used as swap.",
  ["histories", "fault_sequences"], "all old kernel views and new tables of up to the stated number of partitions, with arbitrary busy state and failures",
  "Tests cannot use kernel block devices in the sandboxed run; the add/remove logic is untested there.",
  ["libparted/arch/linux.c"],
  [("_disk_sync_part_table / _blkpg_*", "libparted/arch/linux.c")],
  observe=["BLKPG ioctl log"])

P("C30", "Listings show the whole table: readable, machine-readable and JSON",
  "Whatever bytes model names, partition names and paths contain, JSON output is syntactically valid and decodes to the original strings; the JSON, machine-readable (colon separated) and human listings of a table show every partition exactly once, in order, with its true number, extent, type, name and flags, and printing never reads or writes outside its buffers.",
  ["inputs"], "all strings up to the stated length",
  "Tests print one fixed disk with plain ASCII names.",
  ["parted/jsonwrt.c", "parted/parted.c", "parted/table.c"],
  [("ul_jsonwrt_* / fputs_quoted_case_json", "parted/jsonwrt.c")],
  observe=["bytes written to the output stream"])

P("C31", "FAT resize arithmetic and allocation-table access are exact",
  "FAT entry get/set on 16- and 32-bit tables stores and returns exactly the given cluster for every cluster index in range and changes no other entry; computed cluster counts and sizes always describe a file system that fits in the given space and whose table can address every cluster.",
  ["inputs"], "all table types, cluster numbers and values, and all sizes/cluster sizes within the bounds",
  "Tests resize one or two images; entry packing and size computations have corner cases at type and size boundaries.",
  ["libparted/fs/r/fat/table.c", "libparted/fs/r/fat/calc.c"],
  [("fat_table_get/set", "libparted/fs/r/fat/table.c"), ("fat_calc_sizes", "libparted/fs/r/fat/calc.c")],
  observe=["fat_table_get/set, fat_calc_sizes results"])

P("C32", "Command-line lists and words are parsed and wrapped without loss",
  "For any input text, splitting into words, list construction, matching of unambiguous prefixes and line wrapping lose, invent or reorder nothing, stay in bounds, and an ambiguous or unknown word is never accepted as a match.",
  ["inputs"], "all input strings up to the stated length and all keyword lists within the bound",
  "Tests run fixed commands only.",
  ["parted/strlist.c", "parted/ui.c"],
  [("str_list_*", "parted/strlist.c"), ("command_line_push_line", "parted/ui.c")],
  observe=["str_list contents, match results"])

P("C33", "An editing command does what it says on the device, or changes nothing",
  "Each partition-editing command (mkpart, resizepart, rm, set, toggle, name, type, disk_set, mklabel, align-check) that reports success has made exactly the requested change, leaves every other partition as it was, and leaves the table on the device equal to the table in memory; one that fails or is declined leaves both unchanged.",
  ["inputs", "faults"], "all partition numbers, sectors, names, flags, type codes and answers to questions on the stated base tables, with the final write succeeding or failing",
  "Tests run fixed scripts with valid arguments; declined questions, failing writes and odd arguments are not explored.",
  ["parted/parted.c", "libparted/disk.c"],
  [("do_mkpart, do_resizepart, do_rm, do_set, do_toggle, do_name, do_type, do_disk_set, do_mklabel, do_align_check", "parted/parted.c")],
  observe=["table in memory", "bytes on the device", "command result"])

with open(OUT, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(L), "properties")
