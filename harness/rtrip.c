/* C08 C12 C14 C15 C16 C22 C26 C27 C28: commit, re-read, duplicate, flags on every label. */
#include "tbl.h"
static PedDisk *k; static PedDevice *d; static VDev *v; static Snap s0, s1, s2; static int prop; static const char *ln;
#define RT (prop == 8)
static int isl (const char *n) { return !strcmp (ln, n); }
#include "base.h"
/* probing of partition contents is decided by C18; it is skipped while the geometry is symbolic */
static int skip_fs; extern PedFileSystemType *real_ped_file_system_probe (PedGeometry *g);
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { return skip_fs ? NULL : real_ped_file_system_probe (g); }
/* ---- symbolic choices ---- */
static PedPartition *pick_part (const char *nm) { int na = n_active (k); if (!na) return NULL; PedPartition *p = nth_active (k, vf_concretize (vf_range (nm, 0, na - 1))); return isl ("mac") && p->num == 1 && prop != 22 ? NULL /* the partition map describes itself: changing it makes a different label */ : p; }
static void sym_name (char *b, int max, int charset) { int n = vf_concretize (vf_range ("namelen", 0, max)); for (int i = 0; i < n; i++) { unsigned char c = vf_sym ("name", 8); if (charset == 0) vf_assume (c >= 0x21 && c < 0x7f); else if (charset == 1) vf_assume (c >= 0x20 && c < 0x7f); else vf_assume (c != 0); b[i] = c; } b[n] = 0; }
static unsigned avail (PedPartition *p) { unsigned f = 0; for (int i = PED_PARTITION_FIRST_FLAG; i <= PED_PARTITION_LAST_FLAG; i++) if (ped_partition_is_flag_available (p, i)) f |= 1u << i; return f; }
static Snap f0, f1;
static void do_flag (PedPartition *p) {
  int f = vf_concretize (vf_range ("flag", PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG)), st = vf_concretize (vf_range ("state", 0, 1)); snap (&f0, k, 1);
  int av = ped_partition_is_flag_available (p, f), cur = av ? ped_partition_get_flag (p, f) : 0, r = ped_partition_set_flag (p, f, st); snap (&f1, k, 1);
  if (prop != 22) { if (r) vf_reach ("flag-set"); return; }
  if (!av) { vf_assert (!r, "an unavailable flag is refused"); same (&f0, &f1, 31, "refusing an unavailable flag changes nothing"); vf_reach ("flag-unavail"); return; }
  /* clearing the flag of a gpt or msdos type goes back to the type implied by the file system, which may carry the same flag */
  const char *fn = p->fs_type ? p->fs_type->name : ""; int implied = ((isl ("msdos") && !st && f == PED_PARTITION_SWAP && strstr (fn, "swap")) || isl ("gpt")) && !st && ((f == PED_PARTITION_MSFT_DATA && (!strncmp (fn, "fat", 3) || !strcmp (fn, "udf") || !strcmp (fn, "ntfs"))) || (f == PED_PARTITION_SWAP && strstr (fn, "swap")));
  if (r) { vf_assert (implied || !!ped_partition_get_flag (p, f) == st, "a flag that was set reads back as requested"); vf_reach ("flag-set"); if (!st) vf_reach ("flag-clear");
    if (!!cur == st) { for (int i = 0; i < f0.n; i++) vf_assert (f0.p[i].flags == f1.p[i].flags, "setting a flag to its current value changes no flag"); vf_reach ("flag-same"); } }
  else { same (&f0, &f1, 27, "a refused flag change has no effect"); vf_reach ("flag-refused"); }
  same (&f0, &f1, 8, "flags never change extents, kinds or numbers"); }
static void do_dflag (void) { int f = vf_concretize (vf_range ("dflag", PED_DISK_FIRST_FLAG, PED_DISK_LAST_FLAG)), st = vf_concretize (vf_range ("dstate", 0, 1)); snap (&f0, k, 1); int av = ped_disk_is_flag_available (k, f), r = ped_disk_set_flag (k, f, st); snap (&f1, k, 1);
  if (prop != 22) return; if (!av) { vf_assert (!r, "an unavailable disk flag is refused"); same (&f0, &f1, 31, "refusing an unavailable disk flag changes nothing"); }
  else if (r) { vf_assert (!!ped_disk_get_flag (k, f) == st, "a disk flag that was set reads back as requested"); vf_assert ((f0.dflags & ~(1u << f)) == (f1.dflags & ~(1u << f)), "other disk flags do not change"); same (&f0, &f1, 8, "disk flags do not touch partitions"); vf_reach ("dflag-set"); } }
static const char *const fsn[] = { "ext2", "fat16", "fat32", "ntfs", "linux-swap(v1)", "hfs", "hfs+", "ufs", "xfs", "affs1", "amufs2", "sun-ufs", "reiserfs", "jfs", "hp-ufs", "udf", "apfs1", "asfs" };
static void do_attr (void) {
  PedPartition *p = pick_part ("which"); if (!p) return; int m = vf_param ("attrs", 63), a = vf_concretize (vf_range ("attr", 0, 5)); vf_assume ((m >> a) & 1);
  switch (a) {
  case 0: do_flag (p); return;
  case 1: { if (!has_names (k)) return; char b0[80], *b; sym_name (b0, vf_param ("namemax", 3), vf_param ("charset", 0)); b = strdup (b0); /* exact size: reading beyond the name is an error */ int ec = x_count, r = ped_partition_set_name (p, b); if (isl ("dvh") && x_count != ec) r = 0; /* only boot files have names; the function is void in the label */ if (r && (prop == 22 || RT)) { const char *g = ped_partition_get_name (p); vf_assert (g && !strcmp (g, b), "a name that was set reads back"); } free (b); if (r) vf_reach ("named"); return; }
  case 2: { if (!ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) return; int t = vf_sym ("tid", 8); if (ped_partition_set_type_id (p, t)) { vf_assert (ped_partition_get_type_id (p) == t, "a type id that was set reads back"); vf_reach ("typeid"); } return; }
  case 3: { if (!ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) return; uint8_t u[16]; vf_sym_bytes (u, 16, "tuuid"); vf_assume (!(u[0] == 'K' && u[1] == 'S' && u[2] == 'D' && u[3] == 'R')); /* GUIDs that spell another label's magic are ambiguous by nature */ if (ped_partition_set_type_uuid (p, u)) { uint8_t *g = ped_partition_get_type_uuid (p); vf_assert (g && !memcmp (g, u, 16), "a type UUID that was set reads back"); free (g); vf_reach ("typeuuid"); } return; }
  case 4: { const PedFileSystemType *t = ped_file_system_type_get (fsn[vf_concretize (vf_range ("fs", 0, sizeof fsn / sizeof *fsn - 1))]); if (t && (p->type & PED_PARTITION_EXTENDED) == 0) { snap (&f0, k, 1); ped_partition_set_system (p, t); snap (&f1, k, 1); if (prop == 22) same (&f0, &f1, 8, "setting the system type does not move anything"); vf_reach ("system"); } return; }
  case 5: do_dflag (); return; } }
static PedSector sym_sec (const char *nm) { PedSector s = vf_range (nm, vf_param ("lo", 0), vf_param ("hi", d->length - 1)); return vf_param ("cst", 0) && !strcmp (nm, "start") ? (PedSector) vf_concretize (s) : s; }
static void do_geom (void) {
  int o = vf_concretize (vf_range ("op", 0, 4)); vf_assume ((vf_param ("ops", 31) >> o) & 1);
  if (o <= 2) { PedSector st = sym_sec ("start"), en = sym_sec ("end"); if (st > en) return; if (add_exact (k, o == 0 ? 0 : o == 1 ? PED_PARTITION_LOGICAL : PED_PARTITION_EXTENDED, st, en)) vf_reach ("added"); else vf_reach ("refused"); return; }
  PedPartition *p = pick_part ("which"); if (!p) return;
  if (o == 3) { if (ped_disk_delete_partition (k, p)) vf_reach ("removed"); return; }
  PedSector st = sym_sec ("start"), en = sym_sec ("end"); if (st > en) return; PedGeometry g; ped_geometry_init (&g, d, st, en - st + 1); PedConstraint *c = ped_constraint_exact (&g); if (ped_disk_set_partition_geom (k, p, c, st, en)) vf_reach ("moved"); ped_constraint_destroy (c); }
static void mutate (void) { int m = vf_param ("mode", 0); if (m == 1) do_attr (); else if (m == 0) do_geom (); else if (m == 2) { do_geom (); do_attr (); } }
/* every sector written by the commit is metadata of the label */
static int in_list (PedPartition *l, PedSector s, int *kind) { for (PedPartition *p = l; p; p = p->next) if (s >= p->geom.start && s <= p->geom.end) { if (p->part_list && in_list (p->part_list, s, kind)) return 1; *kind = p->type; return 1; } return 0; }
static void check_writes (int clob) {
  PedSector cl = 9 * 1024 / d->sector_size + 1; if (cl < 16) cl = 16;
  for (int i = 0; i < v->nlog; i++) if (v->log[i].kind == 'W') for (PedSector j = 0; j < v->log[i].count; j++) { PedSector s = v->log[i].start + j; if (clob && (s < cl || s >= d->length - cl)) continue;
    for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p)) {
        if (p->type & PED_PARTITION_EXTENDED) continue; if (isl ("mac") && p->num == 1) continue; if (s == 0 && !isl ("gpt") && !isl ("msdos")) continue;
        vf_assert (s < p->geom.start || s > p->geom.end, "a commit writes no sector of a partition"); }
    if (s != 0) for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (p->type & PED_PARTITION_FREESPACE) vf_assert (s < p->geom.start || s > p->geom.end, "a commit writes no sector of free space"); }
  vf_reach ("writes"); }
static void commit (void) { int clob = k->needs_clobber; vd_clear_log (v); int r = ped_disk_commit_to_dev (k); if (!r && vf_param ("maybe", 0)) { vf_reach ("commit-refused"); vf_stop (); } vf_assert (r, "committing succeeds"); vf_assert (ped_disk_commit_to_os (k), "the operating system is told"); if (prop == 14) check_writes (clob); vf_assert (v->oob_reads == 0 && v->oob_writes == 0, "no access outside the device"); vf_assert (v->closed_io == 0, "no access while the device is closed"); vf_assert (x_bug == 0, "no internal error was reported"); }
static PedDisk *reread (void) { int w = v->nwrite, ec = x_count; PedDisk *n = ped_disk_new (d); vf_assert (n != NULL, "the committed table can be read back"); vf_assert (n->type == k->type, "the committed table is recognised as its own type"); vf_assert (v->nwrite == w, "reading the table back writes nothing"); if (prop == 28 || RT) vf_assert (x_count == ec, "a committed table is read back without complaint"); return n; }
/* a dvh table without its volume header asks for a repair when read; the boot file is found by its name */
static void dvh_limits (void) { vf_assume (ped_disk_extended_partition (k) != NULL); PedPartition *bp = NULL, *p; for (p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p) && ped_partition_get_flag (p, PED_PARTITION_BOOT)) bp = p; if (!bp) return;
  const char *n = ped_partition_get_name (bp); vf_assume (n[0] != 0); for (p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p) && p != bp) vf_assume (strcmp (n, ped_partition_get_name (p)) != 0); }
static void pc98_names (Snap *a, Snap *b) { /* an unnamed pc98 partition is shown with the name of its system */ for (int i = 0; i < a->n && i < b->n; i++) if (!a->p[i].name[0]) memcpy (a->p[i].name, b->p[i].name, sizeof a->p[i].name); }
static void ranks (Snap *a) { /* amiga partitions are a chain in number order: they are renumbered consecutively when read */ int r[MAXP]; for (int i = 0; i < a->n; i++) { r[i] = 1; for (int j = 0; j < a->n; j++) if (a->p[j].num < a->p[i].num) r[i]++; } for (int i = 0; i < a->n; i++) a->p[i].num = r[i]; }
static void fill (void) { /* stale contents */ v->bg = VBG_FILL; v->fill = 0x5a; }
/* bytes of sector 0 (and Amiga hard blocks) that are not part of the partition table: boot code, disk signature, driver and vendor data */
static const struct { const char *l; int off, len; } keep_tab[] = { { "msdos", 0, 446 }, { "gpt", 0, 446 }, { "pc98", 0, 510 }, { "atari", 0, 342 }, { "bsd", 0, 64 }, { "bsd", 340, 164 }, { "mac", 8, 8 }, { "sun", 0, 128 }, { "amiga", 160, 60 } };
static int keep_on; static PedSector keep_blk; static unsigned char keep0[512], keepb[512];
static void w32 (unsigned char *b, unsigned x) { for (int i = 0; i < 4; i++) b[i] = x >> (24 - 8 * i); }
static void keep_set (void) { keep_on = 1; unsigned char *s = vd_sector (v, 0); int z = vf_param ("keepz", 0);
  for (unsigned t = 0; t < sizeof keep_tab / sizeof *keep_tab; t++) if (isl (keep_tab[t].l)) { unsigned char *b = s + keep_tab[t].off; int n = keep_tab[t].len;
    if (isl ("amiga")) { /* in the RDB, keeping its checksum */ b = vd_sector (v, vf_param ("rdb", 2)) + 160; unsigned x = vf_sym ("vendor", 32); w32 (b, x); w32 (b + 4, -x); continue; }
    if (isl ("sun")) { unsigned char x = vf_sym ("info", 8); vf_assume (x != 0); s[0] ^= x; s[2] ^= x; s[126] ^= x; s[124] ^= x; vf_assume (s[0] != 0); continue; }
    vf_sym_bytes (b, n, "foreign"); }
  if (isl ("msdos")) { if (z) memset (s, 0, 440); else { vf_assume (s[0] != 0); vf_assume (s[0] != 0xeb && s[0] != 0xe9); } vf_assume (s[440] | s[441] | s[442] | s[443]); }
  if (isl ("bsd")) { vf_assume (s[0] != 0); }
  if (isl ("pc98")) memcpy (s + 4, "IPL1", 4);
  memcpy (keep0, s, 512); if (isl ("amiga")) memcpy (keepb, vd_sector (v, vf_param ("rdb", 2)) + 160, 60); }
static void keep_check (void) { if (!keep_on) return; unsigned char *s = vd_sector (v, 0);
  for (unsigned t = 0; t < sizeof keep_tab / sizeof *keep_tab; t++) if (isl (keep_tab[t].l)) { int o = keep_tab[t].off, n = keep_tab[t].len, ok = 1;
    if (isl ("amiga")) { s = vd_sector (v, vf_param ("rdb", 2)); for (int i = 0; i < n; i++) ok &= s[o + i] == keepb[i]; vf_assert (ok, "a commit keeps the drive identification in the RDB"); continue; }
    if (isl ("msdos") && vf_param ("keepz", 0)) o = 440, n = 6;
    if (isl ("bsd") && o) n -= 0;
    for (int i = 0; i < n; i++) ok &= s[o + i] == keep0[o + i];
    vf_assert (ok, "a commit keeps boot code, signatures and other foreign bytes of sector 0"); }
  vf_reach ("kept"); }
static int same_dev (VDev *a, VDev *b) { int ok = 1; for (int i = 0; i < a->nsec; i++) { unsigned char *q = vd_peek (b, a->sec[i].lba); vf_assert (q != NULL, "same sectors are written"); unsigned char *z = a->sec[i].data; if (isl ("msdos") && a->sec[i].lba == 0) { memset (q + 440, 0, 4); memset (z + 440, 0, 4); } /* a fresh label gets a random disk signature */ ok &= !memcmp (q, z, a->ss); } return ok; }
void vf_main (void) {
  rt_init (); skip_fs = vf_param ("mode", 0) != 1; prop = vf_param ("prop", 8); x_policy = vf_param ("policy", XP_CANCEL); vd_geom_mode = vf_param ("geo", 0); ln = label_names[vf_param ("label", 0)];
  d = vd_create (vf_param ("len", 65536), vf_param ("ss", 512)); v = vd_of (d); ped_device_open (d); if (vf_param ("fill", 0)) fill ();
  if (vf_param ("old", -1) >= 0) { /* the device held another label before */ const char *nn = ln; ln = label_names[vf_param ("old", 0)]; k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); vf_assert (k != NULL, "a label can be created"); base (vf_param ("oldbase", 2)); vf_assert (ped_disk_commit_to_dev (k), "committing succeeds"); ped_disk_destroy (k); ln = nn; }
  for (int i = 0; i < vf_param ("symn", 0); i++) vf_sym_bytes (vd_sector (v, i), d->sector_size, "stale");
  if (vf_param ("symn", 0)) vf_assume (!ped_disk_type_get ("gpt")->ops->probe (d)); /* the boot sector of a GPT is kept when the device is cleared */
  k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); if (!k) { vf_reach ("no-label"); return; }
  ped_disk_set_flag (k, PED_DISK_CYLINDER_ALIGNMENT, vf_param ("cyl", 0)); base (vf_param ("base", 0));
  if (vf_param ("reread", 0)) { commit (); PedDisk *n; if (vf_param ("keep", 0)) { keep_set (); n = ped_disk_new (d); if (!n || n->type != k->type) { vf_reach ("other"); vf_stop (); } } else n = reread (); if (prop == 8) { snap (&s0, k, 1); snap (&s1, n, 1); s0.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); s1.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); if (isl ("amiga")) ranks (&s0); same (&s0, &s1, 7, "the table read back equals the table committed"); } ped_disk_destroy (k); k = n; if (prop == 8) { /* committing a table just read changes nothing on disk */ VDev *w = &vd[1]; w->ss = v->ss; vd_clone (w, v); commit (); vf_assert (same_dev (v, w), "committing an unmodified table leaves the same bytes"); } }
  x_bug = 0; int n = vf_param ("steps", 1); for (int i = 0; i < n; i++) mutate ();
  if (prop == 22) { vf_reach ("end"); return; }
  if (prop == 26) {
    snap (&s0, k, 1); PedDisk *q = ped_disk_duplicate (k); vf_assert (q != NULL, "a table can be duplicated"); snap (&s1, q, 1); same (&s0, &s1, 23, "the duplicate equals the original"); vf_assert (q->type == k->type && q->dev == k->dev && q->needs_clobber == k->needs_clobber, "the duplicate belongs to the same device and type"); wellformed (q);
    int po = vf_param ("post", 0); PedDisk *o = k; if (po == 1) { k = q; mutate (); k = o; } snap (&s2, k, 1); same (&s0, &s2, 31, "changing the duplicate does not change the original"); snap (&s1, q, 1); if (po == 2) mutate (); snap (&s2, q, 1); same (&s1, &s2, 31, "changing the original does not change the duplicate");
    ped_disk_destroy (q); wellformed (k); q = ped_disk_duplicate (k); vf_assert (q != NULL, "a table can be duplicated"); int nc = k->needs_clobber; commit (); VDev *w = &vd[1]; w->ss = v->ss; vd_clone (w, v); ped_disk_destroy (k); k = q; k->needs_clobber = nc; commit (); vf_assert (same_dev (v, w), "committing the duplicate writes the same bytes"); ped_disk_destroy (k); vf_reach ("duplicated"); return; }
  if (isl ("dvh")) dvh_limits (); if (isl ("loop") && !n_active (k)) { vf_reach ("loop-empty"); return; } /* a loop label always has its one partition */
  snap (&s0, k, 1); commit (); snap (&s2, k, 1); if (RT) same (&s0, &s2, 31, "committing does not change the table");
  if (prop == 14) { keep_check (); vf_reach ("end"); return; }
  PedDisk *q = reread (); snap (&s1, q, 1);
  if (isl ("amiga")) ranks (&s2); if (isl ("pc98")) pc98_names (&s2, &s1);
  if (RT) { unsigned lost = 0; if (isl ("bsd")) for (int i = 0; i < s1.n && i < s2.n; i++) { unsigned m = 1u << PED_PARTITION_BOOT | 1u << PED_PARTITION_RAID | 1u << PED_PARTITION_LVM; lost |= (s1.p[i].flags ^ s2.p[i].flags) & m; s1.p[i].flags &= ~m; s2.p[i].flags &= ~m; }
    s1.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); s2.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); /* an in-memory preference, not part of any label */ same (&s2, &s1, 7, "the table read back equals the table committed"); wellformed (q); vf_assert (!lost, "bsd: boot, raid and lvm flags are read back"); }
  if (prop == 27) same (&s2, &s1, 1, "no start or length is truncated on disk");
  ped_disk_destroy (k); ped_disk_destroy (q); vf_assert (d->open_count == 1, "the device open count is balanced"); vf_reach ("roundtrip"); }
