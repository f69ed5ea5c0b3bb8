/* C33 the editing commands of the parted program. */
#include "tbl.h"
#include "cap.h"
typedef struct _Cmd Cmd;
extern int non_interactive_mode (PedDevice **, PedDisk **, Cmd **, int, char **); extern Cmd **pm_commands (void); extern void pm_align (int); extern int opt_script_mode, opt_fix_mode, init_ui (void), partition_align_check_ (PedPartition *, int); extern char *command_line_pop_word (void); extern int command_line_get_word_count (void);
static PedDisk *k; static PedDevice *d; static VDev *v; static const char *ln; static Snap s0, s1, s2;
#include "base.h"
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { (void) g; return NULL; } /* C18 */
/* what reading a location yields (C20): a sector on the device and a range around it; IEC units name one exact sector */
static struct { PedSector at, lo, hi; int iec, dflt; } loc[2]; static int nloc;
int h_get_sector (const char *prompt, PedDevice *dev, PedSector *value, PedGeometry **range, char **raw) { (void) prompt; char *w = command_line_pop_word (); free (w); vf_assert (nloc < 2, "at most two locations are asked for"); int i = nloc++; loc[i].iec = loc[i].dflt = 0;
  if (*value && vf_concretize (vf_range ("default", 0, 1))) { loc[i].dflt = 1; loc[i].at = loc[i].lo = loc[i].hi = *value; *range = ped_geometry_new (dev, *value, 1); return 1; }
  PedSector s = vf_range (i ? "end" : "start", vf_param ("lo", 0), vf_param ("hi", dev->length - 1)); int how = vf_concretize (vf_range ("unit", 0, 2)); PedSector a = s, b = s; if (how == 1) { PedSector r = vf_param ("radius", 976); a = s - r; b = s + r; if (a < 0) a = 0; if (b > dev->length - 1) b = dev->length - 1; }
  loc[i].at = s; loc[i].lo = a; loc[i].hi = b; loc[i].iec = how == 2; *value = s; *range = ped_geometry_new (dev, a, b - a + 1); vf_assert (*range != NULL, "range"); char *t = strdup (how == 2 ? "1MiB" : how == 1 ? "1MB" : "1s"); if (raw) *raw = t; else free (t); return 1; }
static int commits; int h_commit (PedDisk *disk) { commits++; return ped_disk_commit (disk); }
static void iec_end (PInfo *me) { /* an end in IEC units names the sector after the last one */ PedSector first = nloc == 2 ? loc[0].at : -1; if (nloc == 1) first = me ? me->start : -1; int i = nloc - 1; if (i >= 0 && loc[i].iec && loc[i].at != first) { loc[i].at--; loc[i].lo--; loc[i].hi--; } }
static int writes (void) { int n = 0; for (int i = 0; i < v->nlog; i++) n += v->log[i].kind == 'W'; return n; }
static PInfo *by_start (Snap *s, PedSector st) { for (int i = 0; i < s->n; i++) if (s->p[i].start == st) return &s->p[i]; return NULL; }
static PInfo *by_num (Snap *s, int num) { for (int i = 0; i < s->n; i++) if (s->p[i].num == num) return &s->p[i]; return NULL; }
static void others_kept (PInfo *except) { for (int i = 0; i < s0.n; i++) { PInfo *a = &s0.p[i]; if (a == except) continue; PInfo *b = NULL; for (int j = 0; j < s2.n; j++) if (s2.p[j].start == a->start && !(s2.p[j].type & PED_PARTITION_EXTENDED) == !(a->type & PED_PARTITION_EXTENDED)) b = &s2.p[j]; if (!b) { vf_assert (except && (except->type & PED_PARTITION_EXTENDED) && (a->type & PED_PARTITION_LOGICAL), "the other partitions are still there"); continue; } vf_assert (b->len == a->len && b->type == a->type && b->flags == a->flags && !strcmp (a->name, b->name) && a->tid == b->tid && !memcmp (a->uuid, b->uuid, 16) && !memcmp (a->tuuid, b->tuuid, 16), "the other partitions are as they were"); if (!(a->type & PED_PARTITION_LOGICAL)) vf_assert (a->num == b->num || !strcmp (ln, "amiga") || !strcmp (ln, "atari"), "the other partitions keep their numbers"); } }
static char *argv_[8]; static int argc_; static void arg (const char *s) { argv_[argc_++] = strdup (s); }
static void argn (int n) { char t[12]; snprintf (t, 12, "%d", n); arg (t); }
static int pick (void) { int n = vf_concretize (vf_range ("partition", 0, s0.n)); if (n == s0.n) return 90; return s0.p[n].num; }
void vf_main (void) {
  rt_init (); if (&rt_sym_print) rt_sym_print = vf_param ("cmd", 0) > 1; x_policy = XP_CANCEL; vd_geom_mode = 1; ln = label_names[vf_param ("label", 0)]; int cmd = vf_param ("cmd", 0), script = vf_param ("script", 1);
  d = vd_create (vf_param ("len", 65536), vf_param ("ss", 512)); v = vd_of (d); d->type = PED_DEVICE_SCSI; v->align_off = vf_param ("aoff", 0); v->align_grain = vf_param ("agrain", 0); vf_assert (ped_device_open (d), "open");
  k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); vf_assert (k != NULL, "label"); base (vf_param ("base", 1)); vf_assert (ped_disk_commit (k), "commit"); ped_disk_destroy (k); k = ped_disk_new (d); vf_assert (k != NULL, "read"); snap (&s0, k, 1); vd_clear_log (v);
  Cmd **cs = pm_commands (); if (script) vf_assert (init_ui (), "start"); else { vf_assert (init_ui (), "start"); rt_init (); x_policy = XP_SYMBOLIC; } opt_script_mode = 1; /* words come from the command line only */ opt_fix_mode = 0; pm_align (vf_param ("align", 2)); int interactive = !script;
  PedDisk *kk = k; if (vf_param ("unread", 0)) kk = NULL; PedDevice *dd = d; int num = -1, state = -1, flag = 0, f0 = 0, aligned = -1; const char *ptype = NULL; const PedDiskType *nt = NULL; char name[8]; unsigned tid = 0; unsigned char uu[16]; name[0] = 0; int ty = 0;
  switch (cmd) {
  case 0: arg ("mkpart"); if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_EXTENDED)) { ty = vf_concretize (vf_range ("type", 0, 2)); ptype = ty == 0 ? "primary" : ty == 1 ? "extended" : "logical"; arg (ptype); } if (has_names (k) && !(!strcmp (ln, "dvh") && ty != 2)) arg ("nm"); arg ("1s"); arg ("2s"); break;
  case 1: arg ("resizepart"); num = pick (); argn (num); arg ("2s"); break;
  case 2: arg ("rm"); num = pick (); argn (num); break;
  case 3: case 4: arg (cmd == 3 ? "set" : "toggle"); num = pick (); argn (num); { PedPartition *p = NULL; for (PedPartition *q = ped_disk_next_partition (k, NULL); q; q = ped_disk_next_partition (k, q)) if (ped_partition_is_active (q) && q->num == num) p = q; flag = vf_concretize (vf_range ("flag", PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG)); if (p && !ped_partition_is_flag_available (p, flag)) vf_stop (); if (p) f0 = ped_partition_get_flag (p, flag); } arg (ped_partition_flag_get_name (flag)); if (cmd == 3) { state = vf_concretize (vf_range ("state", 0, 1)); arg (state ? "on" : "off"); } else state = !f0; break;
  case 5: arg ("name"); num = pick (); argn (num); { PInfo *o = by_num (&s0, num); if (!strcmp (ln, "dvh") && o && !(o->type & PED_PARTITION_LOGICAL)) vf_stop (); } /* only boot files have names there */ for (int i = 0; i < 3; i++) { name[i] = vf_range ("name", 33, 126); vf_assume (name[i] != '"' && name[i] != '\'' && name[i] != '\\'); } name[3] = 0; arg (name); break;
  case 6: arg ("mklabel"); nt = ped_disk_type_get (label_names[vf_concretize (vf_range ("new", 0, 9))]); arg (nt->name); break;
  case 7: arg ("align-check"); ty = vf_concretize (vf_range ("opt", 0, 1)); arg (ty ? "opt" : "min"); num = pick (); argn (num); break;
  case 8: arg ("type"); num = pick (); argn (num); if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { vf_sym_bytes (uu, 16, "uuid"); static const char hx[] = "0123456789abcdef"; char t[40]; int j = 0; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) t[j++] = '-'; t[j++] = hx[i ? 5 : uu[0] >> 4]; t[j++] = hx[uu[i] & 15]; if (i) uu[i] = 0x50 | (uu[i] & 15); } t[j] = 0; arg (t); } else { char t[24]; static const char hx[] = "0123456789abcdef"; int m = vf_concretize (vf_range ("long", 0, 1)); strcpy (t, m ? "0x1000000" : "0x"); unsigned x = vf_sym ("id", 8); int l = strlen (t); t[l] = hx[x >> 4]; t[l + 1] = hx[x & 15]; t[l + 2] = 0; tid = m ? 0x100000000ULL >> 32 ? 0x100 : 0 : x; arg (t); } break;
  case 9: arg ("disk_set"); flag = PED_DISK_GPT_PMBR_BOOT; if (!ped_disk_is_flag_available (k, flag)) flag = PED_DISK_CYLINDER_ALIGNMENT; if (!ped_disk_is_flag_available (k, flag)) vf_stop (); arg (ped_disk_flag_get_name (flag)); state = vf_concretize (vf_range ("state", 0, 1)); arg (state ? "on" : "off"); break; }
  x_last_answer = 0; x_count = 0; on = 0; int ec = 0; (void) ec;
  int r = non_interactive_mode (&dd, &kk, cs, argc_, argv_); vf_assert (dd == d, "the device stays"); PInfo *me = num >= 0 ? by_num (&s0, num) : NULL; iec_end (me);
  if (cmd == 7) { if (!me) { vf_assert (!r, "no such partition: refused"); } else { PedAlignment *a = ty ? ped_device_get_optimum_alignment (d) : ped_device_get_minimum_alignment (d); aligned = a ? me->start % a->grain_size == a->offset : 1; vf_assert (r == aligned, "align-check tells whether the start is aligned"); vf_reach (aligned ? "aligned" : "misaligned"); } }
  if (!r || cmd == 7) { vf_assert (writes () == 0, "a refused command writes nothing"); vf_assert (kk || vf_param ("unread", 0), "the table stays loaded"); if (kk) { snap (&s1, kk, 1); if (cmd != 9) s1.dflags = s0.dflags; if (cmd != 2 || !commits) same (&s0, &s1, 23, "a refused command changes nothing"); } vf_reach ("refused"); return; }
  vf_assert (kk != NULL, "the table is loaded"); if (cmd == 2 && !strcmp (ln, "dvh") && me && (me->type & PED_PARTITION_EXTENDED)) return; /* a volume header is put back when one is missing */ snap (&s1, kk, 1); PedDisk *q = ped_disk_new (d); vf_assert (q != NULL, "the table on the device can be read"); snap (&s2, q, 1); s1.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); s2.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT); if (!strcmp (ln, "pc98") && cmd == 0) for (int i = 0; i < s1.n && i < s2.n; i++) if (!s1.p[i].name[0]) memcpy (s1.p[i].name, s2.p[i].name, 80);
  if (cmd == 6) { vf_assert (kk->type == nt && q->type == nt, "mklabel makes the label asked for"); vf_assert (s2.n == (!strcmp (nt->name, "loop")) + (!strcmp (nt->name, "mac")) + (!strcmp (nt->name, "dvh")) || s2.n <= 1, "a new label has no partitions of its own accord"); vf_reach ("label"); return; }
  if (!strcmp (ln, "amiga") || !strcmp (ln, "atari")) for (int i = 0; i < s1.n && i < s2.n; i++) s1.p[i].num = s2.p[i].num; /* numbers follow the order there */ same (&s1, &s2, vf_param ("lossy", 0) ? 5 : 7, "a successful command leaves the device and the loaded table equal");
  switch (cmd) {
  case 0: { vf_assert (s2.n == s0.n + 1, "exactly one partition is made"); PInfo *n = NULL; for (int i = 0; i < s2.n; i++) { PInfo *o = NULL; for (int j = 0; j < s0.n; j++) if (s0.p[j].start == s2.p[i].start && s0.p[j].len == s2.p[i].len) o = &s0.p[j]; if (!o) { vf_assert (!n, "exactly one partition is made"); n = &s2.p[i]; } } vf_assert (n != NULL, "the new partition is found"); others_kept (NULL);
    int in = n->start >= loc[0].lo && n->start <= loc[0].hi && n->start + n->len - 1 >= loc[1].lo && n->start + n->len - 1 <= loc[1].hi; vf_assert (in || (interactive && x_last_answer == PED_EXCEPTION_YES), "the new partition starts and ends where it was asked for, or the user agreed");
    vf_assert (n->type == (ty == 0 ? 0 : ty == 1 ? PED_PARTITION_EXTENDED : PED_PARTITION_LOGICAL), "the new partition is of the kind asked for"); if (has_names (k) && !(!strcmp (ln, "dvh") && ty != 2) && strcmp (ln, "pc98")) vf_assert (!strcmp (n->name, "nm"), "the new partition has the name given"); vf_reach ("made"); break; }
  case 1: { vf_assert (me != NULL, "only an existing partition is resized"); PInfo *n = by_num (&s2, num); vf_assert (n && n->start == me->start, "the start stays"); PedSector e = n->start + n->len - 1, e0 = me->start + me->len - 1; PedSector lo = loc[0].lo, hi = loc[0].hi; vf_assert (e >= lo && e <= hi, "the end is where it was asked for"); if (e < e0) vf_assert (interactive && x_last_answer == PED_EXCEPTION_YES, "a partition is shrunk only when the user agrees"); if (loc[0].dflt) vf_assert (e == e0, "the default end is the present one"); vf_assert (s2.n == s0.n, "nothing appears or disappears"); others_kept (me); int sm = vf_concretize (e < e0); vf_reach (sm ? "shrunk" : "resized"); break; }
  case 2: vf_assert (me != NULL, "only an existing partition is removed"); for (int i = 0; i < s2.n; i++) vf_assert (s2.p[i].start != me->start, "the partition is gone"); { int gone = 1; if (me->type & PED_PARTITION_EXTENDED) for (int i = 0; i < s0.n; i++) gone += !!(s0.p[i].type & PED_PARTITION_LOGICAL); vf_assert (s2.n == s0.n - gone, "nothing else is removed"); } others_kept (me); vf_reach ("gone"); break;
  case 3: case 4: { vf_assert (me != NULL, "only an existing partition is changed"); PedPartition *p = ped_disk_get_partition (q, num); vf_assert (p && p->geom.start == me->start && p->geom.length == me->len, "the partition keeps its place"); vf_assert (!ped_partition_get_flag (p, flag) == !state || vf_param ("lossy", 0), "the flag has the state asked for"); vf_assert (s2.n == s0.n, "nothing appears or disappears"); vf_reach ("flagged"); break; }
  case 5: { PInfo *n = by_num (&s2, num); vf_assert (me && n && n->start == me->start && n->len == me->len && n->type == me->type, "the partition keeps its place"); vf_assert (!strcmp (n->name, name), "the partition has the name given"); others_kept (me); vf_reach ("named"); break; }
  case 8: { PInfo *n = by_num (&s2, num); vf_assert (me && n && n->start == me->start && n->len == me->len, "the partition keeps its place"); if (ped_disk_type_check_feature (q->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) vf_assert (!memcmp (n->tuuid, uu, 16), "the partition has the type given"); else { vf_assert (tid >= 1 && tid <= 255, "a type that does not exist is refused"); vf_assert (n->tid == (int) tid, "the partition has the type given"); } vf_assert (s2.n == s0.n, "nothing appears or disappears"); vf_reach ("typed"); break; }
  case 9: vf_assert (!ped_disk_get_flag (kk, flag) == !state, "the disk flag has the state asked for"); if (flag == PED_DISK_GPT_PMBR_BOOT) vf_assert (!ped_disk_get_flag (q, flag) == !state, "the disk flag is stored"); vf_assert (s2.n == s0.n, "nothing appears or disappears"); others_kept (NULL); vf_reach ("dflagged"); break; }
  vf_assert (command_line_get_word_count () == 0, "every word was used"); vf_assert (x_bug == 0, "no internal error was reported"); }
