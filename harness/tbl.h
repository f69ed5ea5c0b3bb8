/* Shared by the partition-table harnesses. */
#ifndef TBL_H
#define TBL_H
#include "rt.h"
#define MAXP 80
typedef struct { int num, type; PedSector start, len; unsigned flags; const PedFileSystemType *fs; PedPartition *part; char name[80]; int tid; unsigned char tuuid[16], uuid[16]; } PInfo;
typedef struct { int n; PInfo p[MAXP]; unsigned dflags; } Snap;
static const char *const label_names[] = { "gpt", "msdos", "sun", "bsd", "dvh", "mac", "amiga", "atari", "pc98", "loop", "aix" };
static int has_names (PedDisk *k) { return ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_NAME); }
static unsigned get_flags (PedPartition *p) {
  unsigned f = 0; for (int i = PED_PARTITION_FIRST_FLAG; i <= PED_PARTITION_LAST_FLAG; i++) if (ped_partition_is_flag_available (p, i) && ped_partition_get_flag (p, i)) f |= 1u << i;
  return f; }
static void snap_part (PInfo *q, PedPartition *p, int full) {
  memset (q, 0, sizeof *q); q->num = p->num; q->type = p->type; q->start = p->geom.start; q->len = p->geom.length; q->part = p; q->fs = p->fs_type;
  if (!full) return;
  q->flags = get_flags (p);
  PedDisk *k = p->disk;
  if (has_names (k)) { const char *n = ped_partition_get_name (p); if (n) { size_t i; for (i = 0; i < 79 && n[i]; i++) q->name[i] = n[i]; q->name[i] = 0; } }
  if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) q->tid = ped_partition_get_type_id (p);
  if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { uint8_t *u = ped_partition_get_type_uuid (p); if (u) { memcpy (q->tuuid, u, 16); free (u); } }
  if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_UUID)) { uint8_t *u = ped_partition_get_uuid (p); if (u) { memcpy (q->uuid, u, 16); free (u); } } }
static void snap (Snap *s, PedDisk *k, int full) {
  s->n = 0; s->dflags = 0;
  for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p)) { vf_assert (s->n < MAXP, "harness: too many partitions"); snap_part (&s->p[s->n++], p, full); }
  if (full) for (int i = PED_DISK_FIRST_FLAG; i <= PED_DISK_LAST_FLAG; i++) if (ped_disk_is_flag_available (k, i) && ped_disk_get_flag (k, i)) s->dflags |= 1u << i; }
/* same partitions in the same order; what: bit0 geometry/type/num, bit1 flags, bit2 names/ids, bit3 identity of objects, bit4 fs types */
static char same_m[12][120]; static const char *same_last;
static void same_msgs (const char *msg) { if (same_last == msg) return; same_last = msg; static const char *const sf[12] = { "count", "number", "kind", "start", "length", "flags", "disk flags", "name", "type id", "type UUID", "UUID", "file system or object" };
  for (int i = 0; i < 12; i++) { int n = 0; for (const char *q = msg; *q && n < 90; q++) same_m[i][n++] = *q; same_m[i][n++] = ':'; same_m[i][n++] = ' '; for (const char *q = sf[i]; *q; q++) same_m[i][n++] = *q; same_m[i][n] = 0; } }
static void same (const Snap *a, const Snap *b, int what, const char *msg) {
  same_msgs (msg);
  vf_assert (a->n == b->n, same_m[0]);
  for (int i = 0; i < a->n; i++) { const PInfo *x = &a->p[i], *y = &b->p[i];
    vf_assert (x->num == y->num, same_m[1]); vf_assert (x->type == y->type, same_m[2]); vf_assert (x->start == y->start, same_m[3]); vf_assert (x->len == y->len, same_m[4]);
    if (what & 2) { vf_assert (x->flags == y->flags, same_m[5]); vf_assert (a->dflags == b->dflags, same_m[6]); }
    if (what & 4) { vf_assert (!strcmp (x->name, y->name), same_m[7]); vf_assert (x->tid == y->tid, same_m[8]); vf_assert (!memcmp (x->tuuid, y->tuuid, 16), same_m[9]); vf_assert (!memcmp (x->uuid, y->uuid, 16), same_m[10]); }
    if (what & 8) vf_assert (x->part == y->part, same_m[11]);
    if (what & 16) vf_assert (x->fs == y->fs, same_m[11]); } }
static void wf_part (PedDisk *k, PedPartition *p) {
  vf_assert (p->disk == k && p->geom.dev == k->dev, "a partition belongs to its table and device");
  vf_assert (p->geom.length >= 1 && p->geom.end == p->geom.start + p->geom.length - 1, "a partition has a positive, consistent length");
  vf_assert (p->geom.start >= 0 && p->geom.end < k->dev->length, "a partition lies inside the device"); }
static void wellformed (PedDisk *k) {
  int is_dos = !strcmp (k->type->name, "msdos"); PedPartition *p, *ext = NULL; PedSector pos = 0; int nprim = 0, nact = 0; int prev_log = 4;
  for (p = k->part_list; p; p = p->next) { wf_part (k, p);
    vf_assert (!(p->type & PED_PARTITION_LOGICAL), "only the extended partition holds logical ones");
    vf_assert (p->geom.start >= pos, "regions are in increasing order and disjoint"); vf_assert (p->geom.start <= pos, "every sector is accounted for as partition, free space or metadata"); pos = p->geom.end + 1;
    if (p->next) vf_assert (p->next->prev == p, "list links agree");
    if (ped_partition_is_active (p)) { nprim++; nact++; vf_assert (p->num >= 1 || (p->num == 0 && (p->type & PED_PARTITION_EXTENDED) && !strcmp (k->type->name, "atari")), "an active partition has a positive number"); }
    if (p->type & PED_PARTITION_EXTENDED) { vf_assert (!ext, "at most one extended partition"); ext = p; } else vf_assert (p->part_list == NULL, "only an extended partition has children"); }
  vf_assert (pos == k->dev->length, "the table accounts for the device up to its end");
  vf_assert (ped_disk_extended_partition (k) == ext, "the extended partition is found");
  if (ext) { pos = ext->geom.start; if (!ext->part_list || ext->part_list->geom.start != pos) pos++; /* the first sector may hold the boot record of the chain */ for (p = ext->part_list; p; p = p->next) { wf_part (k, p); vf_assert (p->type & PED_PARTITION_LOGICAL, "the extended partition holds only logical regions");
      vf_assert (p->geom.start >= pos, "logical regions are in increasing order and disjoint"); vf_assert (p->geom.start <= pos, "every sector of the extended partition is accounted for"); pos = p->geom.end + 1;
      if (ped_partition_is_active (p)) { nact++; if (is_dos) vf_assert (p->num >= 5, "logical partitions are numbered from 5"); } }
    vf_assert (pos == ext->geom.end + 1, "the extended partition is covered up to its end"); }
  vf_assert (nprim <= ped_disk_get_max_primary_partition_count (k), "no more primary partitions than the label supports");
  vf_assert (ped_disk_get_primary_partition_count (k) == nprim, "the primary partition count is right");
  int last = 0, nlog = 0; PedPartition *seen[MAXP]; int ns = 0;
  for (p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p)) {
      for (int i = 0; i < ns; i++) vf_assert (seen[i]->num != p->num, "partition numbers are unique");
      if (ns < MAXP) seen[ns++] = p; if (p->num > last) last = p->num; if (p->type & PED_PARTITION_LOGICAL) nlog++;
      vf_assert (ped_disk_get_partition (k, p->num) == p, "a partition is found by its number"); }
    else vf_assert (p->num == -1 || p->num == 0, "free space and metadata have no number");
  vf_assert (ns == nact, "iteration visits every partition once");
  vf_assert (ped_disk_get_last_partition_num (k) == (last ? last : ext && !strcmp (k->type->name, "atari") ? 0 : -1), "the highest number in use is reported");
  if (nlog && is_dos) { for (int n = 5; n < 5 + nlog; n++) vf_assert (ped_disk_get_partition (k, n) != NULL, "logical partitions are numbered consecutively from 5"); vf_assert (ped_disk_get_partition (k, 5 + nlog) == NULL, "no logical number beyond the last"); }
  (void) prev_log;
  vf_assert (x_bug == 0, "no internal error was reported"); }
static PedPartition *nth_active (PedDisk *k, int n) { for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p) && n-- == 0) return p; return NULL; }
static int n_active (PedDisk *k) { int n = 0; for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) if (ped_partition_is_active (p)) n++; return n; }
/* exact addition; returns NULL when refused */
static PedPartition *add_exact (PedDisk *k, int type, PedSector s, PedSector e) {
  PedPartition *p = ped_partition_new (k, type, NULL, s, e); if (!p) return NULL;
  PedConstraint *c = ped_constraint_exact (&p->geom); int r = ped_disk_add_partition (k, p, c); ped_constraint_destroy (c);
  if (!r) { ped_partition_destroy (p); return NULL; } return p; }
static PedPartition *add_any (PedDisk *k, int type, PedSector s, PedSector e) {
  PedPartition *p = ped_partition_new (k, type, NULL, s, e); if (!p) return NULL;
  PedConstraint *c = ped_constraint_any (k->dev); int r = ped_disk_add_partition (k, p, c); ped_constraint_destroy (c);
  if (!r) { ped_partition_destroy (p); return NULL; } return p; }
#endif
