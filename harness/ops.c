/* C05 C06 C07: partition operations on every label. */
#include "tbl.h"
static PedDisk *k; static PedDevice *d; static Snap s0, s1; static int prop, atari;
#define P5 (prop == 5)
#define P6 (prop == 6)
#define P7 (prop == 7)
static void wf5 (void) { if (P5) wellformed (k); }
static PedConstraint *mkcons (int mode, PedGeometry *g) {
  switch (mode) {
  case 0: return ped_constraint_exact (g);
  case 1: return ped_constraint_any (d);
  case 2: { PedSector ms = vf_range ("minsize", 1, d->length), xs = vf_range ("maxsize", 1, d->length); PedGeometry all; ped_geometry_init (&all, d, 0, d->length); return ped_constraint_new (ped_alignment_any, ped_alignment_any, &all, &all, ms, xs); }
  case 3: { PedGeometry a, b; ped_geometry_init (&a, d, g->start, 1 + vf_range ("slack", 0, 64)); ped_geometry_init (&b, d, g->end, 1); if (a.end >= d->length) ped_geometry_set_end (&a, d->length - 1); return ped_constraint_new (ped_alignment_any, ped_alignment_any, &a, &b, 1, d->length); }
  case 4: { PedAlignment al = { vf_param ("aoff", 0), vf_param ("agrain", 8) }; PedAlignment ae = { vf_param ("aoff", 0) - 1, vf_param ("agrain", 8) }; PedGeometry all; ped_geometry_init (&all, d, 0, d->length); return ped_constraint_new (&al, &ae, &all, &all, 1, d->length); }
  } return NULL; }
#include "base.h"
/* numbers of survivors stay what they were */
static void stable (PedPartition *gone) { if (!P7 || atari) return; /* Atari slots are numbered by position, by definition of the format */
  for (int i = 0; i < s0.n; i++) { if (s0.p[i].part == gone || (s0.p[i].type & PED_PARTITION_LOGICAL)) continue; int f = 0; for (int j = 0; j < s1.n; j++) if (s1.p[j].part == s0.p[i].part) { f = 1; vf_assert (s1.p[j].num == s0.p[i].num, "the number of an existing primary partition does not change"); }
    vf_assert (f || (gone && (gone->type & PED_PARTITION_EXTENDED)) , "no other partition disappears"); } }
static void others (PedPartition *me) { if (!P5) return; /* everything but ME keeps its extent, kind and flags */
  for (int i = 0; i < s0.n; i++) if (s0.p[i].part != me) for (int j = 0; j < s1.n; j++) if (s1.p[j].part == s0.p[i].part) { vf_assert (s1.p[j].start == s0.p[i].start && s1.p[j].len == s0.p[i].len && s1.p[j].type == s0.p[i].type, "another partition's extent and kind do not change"); vf_assert (s1.p[j].flags == s0.p[i].flags, "another partition's flags do not change"); } }
static int satisfied (const PedConstraint *c, const PedGeometry *g) { return ped_alignment_is_aligned (c->start_align, NULL, g->start) && ped_alignment_is_aligned (c->end_align, NULL, g->end) && ped_geometry_test_sector_inside (c->start_range, g->start) && ped_geometry_test_sector_inside (c->end_range, g->end) && g->length >= c->min_size && g->length <= c->max_size; }
static void refused (void) { snap (&s1, k, 1); if (P6) same (&s0, &s1, 31, "a refused operation changes nothing"); if (P5 || P6) wellformed (k); vf_reach ("refused"); }
static void op (int mask, int cm) {
  int o = vf_concretize (vf_range ("op", 0, 7)); vf_assume ((mask >> o) & 1); snap (&s0, k, 1); int na = n_active (k); x_bug = 0;
  PedSector L = d->length; int ext = ped_disk_type_check_feature (k->type, PED_DISK_TYPE_EXTENDED);
  if (o <= 2) { /* add primary / logical / extended */
    PedSector st = vf_range ("start", 0, L - 1), en = vf_range ("end", 0, L - 1); if (st > en) { vf_assert (!ped_partition_new (k, 0, NULL, st, en), "an empty partition cannot be made"); snap (&s1, k, 1); if (P6) same (&s0, &s1, 31, "a refused operation changes nothing"); vf_reach ("empty"); return; }
    int ty = o == 0 ? 0 : o == 1 ? PED_PARTITION_LOGICAL : PED_PARTITION_EXTENDED;
    PedPartition *p = ped_partition_new (k, ty, NULL, st, en); if (!p) { refused (); return; }
    PedConstraint *c = mkcons (cm, &p->geom); if (!c) { ped_partition_destroy (p); return; }
    if (ped_disk_add_partition (k, p, c)) { snap (&s1, k, 1); wf5 (); stable (NULL); others (NULL); vf_assert (s1.n == s0.n + 1, "exactly one partition was added"); if (P5) vf_assert (satisfied (c, &p->geom), "the added partition satisfies the constraint given");
      if (P7) { int used = 0; for (int i = 0; i < s0.n; i++) if (s0.p[i].num == p->num) used = 1; vf_assert (!used || ty == PED_PARTITION_LOGICAL || atari, "a new partition gets a free number"); if (ty != PED_PARTITION_EXTENDED || !atari) vf_assert (p->num >= 1, "a new partition has a positive number"); vf_assert (ext || ty == 0, "a label without extended partitions refuses them");
      int mx; if (ped_disk_get_max_supported_partition_count (k, &mx) && !(atari && ped_disk_extended_partition (k))) { if (ty != PED_PARTITION_LOGICAL) vf_assert (p->num <= mx, "a new number is within the label's range"); if (!ext) vf_assert (s1.n <= mx, "no more partitions than the label supports"); } }
      vf_reach ("added"); if (ty == 1) vf_reach ("added-log"); if (ty == 2) vf_reach ("added-ext"); }
    else { ped_partition_destroy (p); refused (); }
    ped_constraint_destroy (c); return; }
  if (o == 7) { vf_assert (ped_disk_delete_all (k), "deleting everything succeeds"); snap (&s1, k, 1); wf5 (); for (int i = 0; i < s1.n; i++) vf_assert (!strcmp (k->type->name, "mac") || !strcmp (k->type->name, "dvh"), "nothing is left"); vf_reach ("cleared"); return; }
  if (na == 0) return;
  int w = vf_concretize (vf_range ("which", 0, na - 1)); PedPartition *p = nth_active (k, w);
  if (o == 3) { int ty = p->type; PedPartition *gone = p; if (ped_disk_delete_partition (k, p)) { snap (&s1, k, 1); wf5 ();
      for (int j = 0; j < s1.n; j++) { vf_assert (s1.p[j].part != gone, "the removed partition is gone"); int f = 0; for (int i = 0; i < s0.n; i++) if (s0.p[i].part == s1.p[j].part) { f = 1; if (P7 && !atari && !(s0.p[i].type & PED_PARTITION_LOGICAL)) vf_assert (s0.p[i].num == s1.p[j].num, "the number of an existing primary partition does not change"); } vf_assert (f, "no partition appears"); }
      others (gone); int nl = 0; for (int i = 0; i < s0.n; i++) nl += !!(s0.p[i].type & PED_PARTITION_LOGICAL); vf_assert (s1.n == s0.n - 1 - (ty == PED_PARTITION_EXTENDED ? nl : 0), "exactly the removed partition is gone"); vf_reach ("removed"); } else refused (); return; }
  if (o == 4) { PedSector st = vf_range ("start", 0, L - 1), en = vf_range ("end", 0, L - 1); vf_assume (st <= en); PedGeometry g; ped_geometry_init (&g, d, st, en - st + 1); PedConstraint *c = mkcons (cm, &g); if (!c) return;
    if (ped_disk_set_partition_geom (k, p, c, st, en)) { snap (&s1, k, 1); wf5 (); stable (NULL); others (p); vf_assert (s1.n == s0.n, "moving keeps the number of partitions"); if (P5) vf_assert (satisfied (c, &p->geom), "the moved partition satisfies the constraint given"); for (int i = 0; i < s0.n; i++) if (s0.p[i].part == p) { vf_assert (p->type == s0.p[i].type, "moving keeps the kind"); vf_assert (get_flags (p) == s0.p[i].flags, "moving keeps the flags"); } vf_reach ("moved"); }
    else refused (); ped_constraint_destroy (c); return; }
  if (o == 5) { PedGeometry g = p->geom; PedConstraint *c = mkcons (cm, &g); if (!c) return; int bug0 = x_bug;
    if (ped_disk_maximize_partition (k, p, c)) { snap (&s1, k, 1); wf5 (); stable (NULL); others (p); if (P5) vf_assert (satisfied (c, &p->geom), "the maximised partition satisfies the constraint"); if (satisfied (c, &g)) vf_assert (p->geom.length >= g.length, "maximising never shrinks below an acceptable extent"); vf_reach ("maximised"); }
    else refused (); (void) bug0; ped_constraint_destroy (c); return; }
  if (o == 6) { if (!ext) return; if (!ped_disk_extended_partition (k)) return; PedGeometry before = ped_disk_extended_partition (k)->geom; int has = 0; for (int i = 0; i < s0.n; i++) if (s0.p[i].type & PED_PARTITION_LOGICAL) has = 1; int r = ped_disk_minimize_extended_partition (k); snap (&s1, k, 1); wf5 (); if (!has) vf_assert (!ped_disk_extended_partition (k), "an empty extended partition is removed when minimised"); else { PedPartition *e = ped_disk_extended_partition (k); vf_assert (e && e->geom.length <= before.length, "minimising never grows"); for (int i = 0; i < s0.n; i++) if (s0.p[i].type & PED_PARTITION_LOGICAL) { int f = 0; for (int j = 0; j < s1.n; j++) if (s1.p[j].part == s0.p[i].part) f = s1.p[j].start == s0.p[i].start && s1.p[j].len == s0.p[i].len && s1.p[j].num == s0.p[i].num; vf_assert (f, "minimising keeps every logical partition"); } } (void) r; vf_reach ("minimised"); return; } }
static void numbers (void) { snap (&s1, k, 0); int nl = 0, dos = !strcmp (k->type->name, "msdos"); PedPartition *pr = NULL; (void) pr; int expect = 5;
  for (int i = 0; i < s1.n; i++) { if (!(atari && (s1.p[i].type & PED_PARTITION_EXTENDED))) vf_assert (s1.p[i].num >= 1, "numbers are positive"); for (int j = 0; j < i; j++) vf_assert (s1.p[i].num != s1.p[j].num, "numbers are unique"); if (s1.p[i].type & PED_PARTITION_LOGICAL) nl++; else if (dos) vf_assert (s1.p[i].num <= 4, "primary numbers are at most 4"); }
  if (dos) for (int n = 5; n < 5 + nl; n++) { PedPartition *q = ped_disk_get_partition (k, n); vf_assert (q && (q->type & PED_PARTITION_LOGICAL), "logical partitions are numbered consecutively from 5"); } (void) expect; vf_reach ("numbers"); }
void vf_main (void) {
  rt_init (); prop = vf_param ("prop", 5); x_policy = vf_param ("policy", XP_CANCEL); vd_geom_mode = vf_param ("geo", 0);
  d = vd_create (vf_param ("len", 65536), vf_param ("ss", 512)); ped_device_open (d); const char *ln = label_names[vf_param ("label", 0)];
  k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); if (!k && (!strcmp (ln, "atari") || !strcmp (ln, "loop")) && d->sector_size != 512) { vf_reach ("refused"); return; } vf_assert (k != NULL, "fresh label"); atari = !strcmp (ln, "atari"); ped_disk_set_flag (k, PED_DISK_CYLINDER_ALIGNMENT, vf_param ("cyl", 0));
  if (vf_param ("committed", 0)) vf_assert (ped_disk_commit_to_dev (k), "commit"); base (vf_param ("base", 0)); wf5 (); vf_log ("nbase", n_active (k));
  int n = vf_param ("ops", 1); for (int i = 0; i < n; i++) op (vf_param ("mask", 255), vf_param ("cons", 0));
  if (P7) numbers (); wf5 (); ped_disk_destroy (k); vf_reach ("end"); }
