/* C11 C13 C17: reading arbitrary bytes as a label.  C18: file-system probes.  C19: clobbering. */
#include "tbl.h"
static PedDisk *k; static PedDevice *d; static VDev *v; static int prop; static const char *ln; static Snap s0, s1;
static int isl (const char *n) { return !strcmp (ln, n); }
#include "base.h"
static int skip_fs; extern PedFileSystemType *real_ped_file_system_probe (PedGeometry *g);
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { return skip_fs ? NULL : real_ped_file_system_probe (g); }
/* windows of arbitrary bytes: sector a, count b, byte offset within the sector c, length e (0: whole sectors) */
static void window (int i) {
  char n[8] = "wa"; n[2] = '0' + i; n[3] = 0; int64_t a = vf_param (n, -1); if (a == -1) return; if (a < 0) a = d->length + 1 + a; n[1] = 'n'; int64_t b = vf_param (n, 1); n[1] = 'o'; int64_t c = vf_param (n, 0); n[1] = 'l'; int64_t e = vf_param (n, 0);
  for (int64_t s = 0; s < b; s++) vf_sym_bytes (vd_sector (v, a + s) + c, e ? e : d->sector_size - c, "disk"); }
static void presets (void) { /* bytes fixed inside the windows: pa<i> = sector * 4096 + offset, pv<i> = value, little endian, pl<i> bytes */
  for (int i = 0; i < 8; i++) { char n[8] = "pa"; n[2] = '0' + i; n[3] = 0; int64_t a = vf_param (n, -1); if (a < 0) continue; n[1] = 'v'; uint64_t x = vf_param (n, 0); n[1] = 'l'; int l = vf_param (n, 1); for (int j = 0; j < l; j++) vd_sector (v, a / 4096)[a % 4096 + j] = x >> (8 * j); } }
static void setup (void) {
  rt_init (); prop = vf_param ("prop", 17); skip_fs = vf_param ("skipfs", 1); vd_geom_mode = vf_param ("geo", 1); ln = label_names[vf_param ("label", 0)];
  d = vd_create (vf_param ("len", 65536), vf_param ("ss", 512)); v = vd_of (d); ped_device_open (d);
  int b = vf_param ("base", -1); if (b >= 0) { x_policy = XP_CANCEL; k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); ped_disk_set_flag (k, PED_DISK_CYLINDER_ALIGNMENT, 0); base (b); vf_assert (ped_disk_commit_to_dev (k), "committing succeeds"); ped_disk_destroy (k); k = NULL; }
  for (int i = 0; i < 10; i++) window (i); presets (); if (vf_param ("bg", 0)) v->bg = VBG_SYM; x_bug = 0; x_policy = vf_param ("policy", XP_CANCEL); }
static void only (const char *n) { for (;;) { PedDiskType *t, *victim = NULL; for (t = ped_disk_type_get_next (NULL); t; t = ped_disk_type_get_next (t)) if (strcmp (t->name, n)) victim = t; if (!victim) return; ped_disk_type_unregister (victim); } }
/* what every table read from a device must satisfy; a foreign table may well place a partition over the sectors its label occupies */
static void wf_read (PedDisk *q) {
  PedPartition *p, *r, *ext = ped_disk_extended_partition (q);
  for (p = ped_disk_next_partition (q, NULL); p; p = ped_disk_next_partition (q, p)) if (ped_partition_is_active (p)) { wf_part (q, p); vf_assert (p->num >= 1 || (p->num == 0 && (p->type & PED_PARTITION_EXTENDED)), "a partition read from the device has a number"); vf_assert (ped_disk_get_partition (q, p->num) == p, "a partition is found by its number");
      if (p->type & PED_PARTITION_LOGICAL) vf_assert (ext && p->geom.start >= ext->geom.start && p->geom.end <= ext->geom.end, "logical partitions lie inside the extended one");
      for (r = ped_disk_next_partition (q, p); r; r = ped_disk_next_partition (q, r)) if (ped_partition_is_active (r) && r != p) { vf_assert (r->num != p->num, "partition numbers are unique");
          int nested = (r == ext && (p->type & PED_PARTITION_LOGICAL)) || (p == ext && (r->type & PED_PARTITION_LOGICAL)); if (!nested) vf_assert (p->geom.end < r->geom.start || r->geom.end < p->geom.start, "partitions read from the device do not overlap"); } }
  if (!isl ("mac")) /* a Mac map may be larger than the partition that holds it */ vf_assert (ped_disk_get_primary_partition_count (q) <= ped_disk_get_max_primary_partition_count (q), "no more primary partitions than the label supports"); }
static void use (void) { /* everything a reader may ask of a table */
  int strict = x_policy == XP_CANCEL; if (strict) wf_read (k); snap (&s0, k, 1); for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) { (void) ped_partition_type_get_name (p->type); if (ped_partition_is_active (p)) { char *q = ped_partition_get_path (p); free (q); } }
  (void) ped_disk_get_max_primary_partition_count (k); int m; (void) ped_disk_get_max_supported_partition_count (k, &m);
  PedDisk *q = ped_disk_duplicate (k); if (q) { if (strict) wf_read (q); ped_disk_destroy (q); } }
static void label (void) {
  setup (); only (ln); v->ro = vf_param ("ro", 1);
  PedDiskType *t = ped_disk_probe (d); if (!t) { vf_reach ("unrecognised"); return; } if (vf_param ("probe", 0)) { vf_reach ("recognised"); return; }
  vf_reach ("recognised"); vf_assert (d->open_count == 1, "probing leaves the device as open as it was");
  k = ped_disk_new (d); vf_assert (d->open_count == 1, "reading leaves the device as open as it was");
  if (!k) { vf_reach ("refused"); return; }
  if (vf_param ("use", 1)) use ();
  if (vf_param ("commit", 0)) { v->ro = 0; vd_clear_log (v); if (ped_disk_commit_to_dev (k)) vf_reach ("committed"); vf_assert (v->oob_writes == 0, "no write outside the device");
    for (int i = 0; i < v->nlog; i++) if (v->log[i].kind == 'W') for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p) && !(p->type & PED_PARTITION_EXTENDED)) vf_assert (v->log[i].start + v->log[i].count <= p->geom.start || v->log[i].start > p->geom.end, "committing a table just read writes no sector of a partition"); }
  vf_reach (n_active (k) ? "table" : "empty-table"); ped_disk_destroy (k); vf_assert (d->open_count == 1, "destroying leaves the device as open as it was"); }
/* ---- C18 ---- */
static void fs (void) {
  setup (); v->ro = 1; PedGeometry g; PedSector st = vf_param ("start", 0), l = vf_param ("glen", 0); if (!l) l = d->length - st; if (vf_param ("symlen", 0)) { l = vf_range ("glen", 1, l); if (vf_param ("conc", 1)) l = vf_concretize (l); }
  ped_geometry_init (&g, d, st, l); int which = vf_param ("fs", 0), i = 0; PedFileSystemType *t = NULL; if (which == -1) { t = ped_file_system_probe (&g); vf_reach (t ? "detected" : "undetected"); vf_assert (v->oob_reads == 0, "probing reads nothing outside the device");
    if (t) { PedGeometry *r = ped_file_system_probe_specific (t, &g); vf_assert (r != NULL, "the detected type accepts the region"); ped_geometry_destroy (r); } return; }
  while ((t = ped_file_system_type_get_next (t)) && i < which) i++; if (!t) { vf_reach ("no-such-type"); return; }
  PedGeometry *r = ped_file_system_probe_specific (t, &g); vf_assert (v->oob_reads == 0, "probing reads nothing outside the device"); vf_assert (d->open_count == 1, "probing leaves the device as open as it was"); vf_assert (v->nwrite == 0, "probing writes nothing");
  if (!r) { vf_reach ("rejected"); return; }
  vf_reach ("accepted"); vf_assert (r->dev == d, "a reported file system is on the probed device"); vf_assert (r->length > 0 && r->end == r->start + r->length - 1, "a reported file system has a positive length"); vf_assert (r->start >= 0, "a reported file system starts inside the device"); ped_geometry_destroy (r); }
/* ---- C19 ---- */
static void clob (void) {
  setup (); v->ro = 0; PedDiskType *g = ped_disk_type_get ("gpt"); int wasgpt = g->ops->probe (d); if (vf_param ("nogpt", 0)) vf_assume (!wasgpt);
  PedSector n = 9 * 1024 / d->sector_size + 1; if (n < 16) n = 16; vd_clear_log (v); vf_assert (ped_disk_clobber (d), "clearing succeeds"); vf_assert (d->open_count == 1, "clearing leaves the device as open as it was");
  vf_assert (v->oob_reads == 0 && v->oob_writes == 0 && v->closed_io == 0, "no access outside the device");
  for (int i = 0; i < v->nlog; i++) if (v->log[i].kind == 'W') { PedSector a = v->log[i].start, e = a + v->log[i].count; vf_assert (a >= 0 && e <= d->length, "only sectors of the device are cleared"); vf_assert (e <= n + 1 || (a >= d->length - n), "only the areas that hold label signatures are cleared"); if (wasgpt) vf_assert (a >= 1, "the protective MBR of a GPT is kept"); }
  v->ro = 1; for (PedDiskType *t = ped_disk_type_get_next (NULL); t; t = ped_disk_type_get_next (t)) if (strcmp (t->name, "loop") && (!wasgpt || !vf_param ("boot", 0) || t == g)) /* the boot sector of a GPT is kept: what it spells is not cleared */ { int c = t->ops->probe (d); vf_assert (!c, "a cleared device holds no label"); }
  vf_reach ("cleared"); if (wasgpt) vf_reach ("was-gpt"); }
/* ---- C10: damaged copies of a GPT ---- */
static void damage (int backup, int how, const char *nm) { /* 1: header outside its checksum field, 2: checksum field, 3: entry array, 4: signature */
  PedSector h = backup ? d->length - 1 : 1; unsigned char *b; int n, o = 0; if (how == 3) { PedSector es = 16384 / d->sector_size; h = (backup ? d->length - 1 - es : 2) + vf_concretize (vf_range ("esec", 0, vf_param ("esecs", 2) - 1)); n = d->sector_size; } else if (how == 2) { o = 16; n = 4; } else if (how == 4) n = 8; else n = 92;
  b = vd_sector (v, h) + o; unsigned char old[4096]; memcpy (old, b, n); unsigned diff = 0;
  for (int j = 0; j < n; j++) { if (how == 1 && (j >= 16 && j < 20)) continue; if (how == 1 && !vf_param ("sig", 1) && j < 8) continue; if (how == 1 && (j < vf_param ("dlo", 0) || j >= vf_param ("dhi", 92))) continue; unsigned char c = vf_sym (nm, 8); b[j] = c; diff |= c ^ old[j]; } vf_assume (diff != 0); }
static void copies (void) {
  setup (); k = ped_disk_new (d); vf_assert (k != NULL, "the committed table can be read back"); snap (&s0, k, 1); ped_disk_destroy (k); only ("gpt"); /* a damaged header may spell another label's magic */ int p = vf_param ("pri", 0), b = vf_param ("bak", 0), gone = 0;
  if (p) damage (0, p, "primary"); if (b) damage (1, b, "backup"); v->ro = 1; x_policy = vf_param ("policy2", XP_FIX); x_count = 0; vd_clear_log (v);
  PedDisk *q = NULL; PedDiskType *t = ped_disk_probe (d); gone = !t || strcmp (t->name, "gpt"); vf_assert (p && b ? 1 : !gone, "a GPT with an intact copy is recognised");
  if (!gone) q = ped_disk_new (d);
  if (p && b) { vf_assert (q == NULL, "a GPT whose copies are both damaged is not used"); vf_reach ("both-damaged"); return; }
  vf_assert (q != NULL, "a GPT with an intact copy can be read"); snap (&s1, q, 1); same (&s0, &s1, 7, "the intact copy is what is read"); if (p || b) { vf_assert (x_count > 0, "the damage is reported"); vf_reach (p ? "primary-damaged" : "backup-damaged"); } else vf_reach ("intact");
  if (vf_param ("repair", 0)) { v->ro = 0; vf_assert (ped_disk_commit_to_dev (q), "committing succeeds"); x_count = 0; k = ped_disk_new (d); vf_assert (k != NULL, "the repaired table can be read back"); snap (&s1, k, 1); same (&s0, &s1, 7, "the repaired table is the same"); vf_assert (x_count == 0, "a repaired table is read back without complaint"); vf_reach ("repaired"); }
  vf_assert (d->open_count == 1, "reading leaves the device as open as it was"); ped_disk_destroy (q); }
/* ---- C09: crash during a commit ---- */
static Snap s2;
static void crash (void) {
  setup (); v->ro = 0; k = ped_disk_new (d); vf_assert (k != NULL, "the committed table can be read back"); snap (&s0, k, 1);
  int m = vf_param ("op", 0);
  if (m == 0 || m == 3) { PedSector a = vf_range ("start", 0, d->length - 1), e = vf_range ("end", 0, d->length - 1); if (a > e) return; PedGeometry g; ped_geometry_init (&g, d, a, e - a + 1); PedConstraint *c = ped_constraint_exact (&g); PedPartition *p = ped_partition_new (k, 0, NULL, a, e); if (!p || !ped_disk_add_partition (k, p, c)) return; ped_constraint_destroy (c); }
  if (m == 1 || m == 3) { int n = n_active (k); PedPartition *p = nth_active (k, vf_concretize (vf_range ("which", 0, n - 1))); vf_assert (ped_disk_delete_partition (k, p), "delete"); }
  if (m == 2) { PedPartition *p = nth_active (k, 0); int f = vf_concretize (vf_range ("flag", PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG)); if (!ped_partition_is_flag_available (p, f) || !ped_partition_set_flag (p, f, 1)) return; char nm[4]; nm[0] = vf_range ("c0", 'a', 'z'); nm[1] = 0; ped_partition_set_name (p, nm); }
  if (m == 4) { vf_assert (ped_disk_delete_all (k), "delete"); }
  if (m == 5) { if (!ped_disk_set_flag (k, PED_DISK_GPT_PMBR_BOOT, vf_range ("on", 0, 1))) return; }
  snap (&s2, k, 1); v->sectors_written = 0; v->crash_after = vf_concretize (vf_range ("crash", 0, vf_param ("maxcrash", 80))); int lim = v->crash_after; vf_assert (ped_disk_commit_to_dev (k), "committing succeeds"); int total = v->sectors_written; v->crash_after = -1; ped_disk_destroy (k);
  vf_assert (total < vf_param ("maxcrash", 80), "harness: every crash point is covered");
  x_policy = XP_FIX; x_count = 0; PedDisk *q = ped_disk_new (d); vf_assert (q != NULL, "the table is readable after a crash"); snap (&s1, q, 1);
  s0.dflags = s1.dflags = s2.dflags = 0; /* the boot flag of the protective MBR is outside the two tables */
  int isnew = s1.n == s2.n, isold = s1.n == s0.n; for (int i = 0; i < s1.n; i++) { PInfo *x = &s1.p[i]; for (int w = 0; w < 2; w++) { Snap *r = w ? &s2 : &s0; int *ok = w ? &isnew : &isold; if (i >= r->n) { *ok = 0; continue; } PInfo *y = &r->p[i]; *ok &= x->num == y->num && x->type == y->type && x->start == y->start && x->len == y->len && x->flags == y->flags && !strcmp (x->name, y->name) && !memcmp (x->tuuid, y->tuuid, 16) && !memcmp (x->uuid, y->uuid, 16); } }
  vf_assert (isnew || isold, "after a crash the table is the old or the new one"); if (lim >= total) vf_assert (isnew, "a completed commit leaves the new table"); if (lim == 0) vf_assert (isold, "without any write the old table remains");
  vf_reach (lim >= total ? "complete" : isnew ? "new" : "old");
  if (vf_param ("again", 1)) { vf_assert (ped_disk_commit_to_dev (q), "the recovered table can be committed"); snap (&s0, q, 1); x_count = 0; PedDisk *r = ped_disk_new (d); vf_assert (r != NULL, "the recovered table is readable"); snap (&s2, r, 1); same (&s0, &s2, 7, "the recovered table is kept"); vf_assert (x_count == 0, "a recovered and committed table is read without complaint"); ped_disk_destroy (r); }
  ped_disk_destroy (q); }
void vf_main (void) { switch (vf_case ()) { case 0: label (); break; case 1: fs (); break; case 2: clob (); break; case 3: copies (); break; case 4: crash (); break; } }
