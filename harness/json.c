/* C30 machine-readable output: JSON and colon-separated. */
#include "tbl.h"
#include "cap.h"
/* ---- an independent reader of JSON (RFC 8259), building a flat list of (depth, key, kind, text) ---- */
typedef struct { int depth, kind; char key[24]; int s, n; } Tok; /* kind: 'o' 'a' open, 'O' 'A' close, 's' string, 'n' number, 'l' literal; s, n: position in dec */
static Tok tk[200]; static int tn; static unsigned char dec[4096]; static int dn; static int ip;
static void ws (void) { while (out[ip] == ' ' || out[ip] == '\n' || out[ip] == '\t' || out[ip] == '\r') ip++; }
static int hexv (int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static int rstr (int *s, int *n) { if (out[ip] != '"') return 0; ip++; *s = dn; while (ip < on) { int c = out[ip++]; vf_assert (dn < (int) sizeof dec - 2, "decoded text (harness limit)");
    if (c == '"') { *n = dn - *s; dec[dn++] = 0; return 1; }
    if (c < 0x20) return 0;
    if (c == '\\') { c = out[ip++]; if (c == '"' || c == '\\' || c == '/') dec[dn++] = c; else if (c == 'b') dec[dn++] = 8; else if (c == 'f') dec[dn++] = 12; else if (c == 'n') dec[dn++] = 10; else if (c == 'r') dec[dn++] = 13; else if (c == 't') dec[dn++] = 9;
      else if (c == 'u') { int v = 0; for (int i = 0; i < 4; i++) { int h = hexv (out[ip++]); if (h < 0) return 0; v = v * 16 + h; } if (v >= 0x80) return 0; dec[dn++] = v; } else return 0; }
    else dec[dn++] = c; }
  return 0; }
static Tok *tok (int depth, int kind, const char *key) { vf_assert (tn < 199, "tokens (harness limit)"); Tok *t = &tk[tn++]; t->depth = depth; t->kind = kind; strncpy (t->key, key, 23); t->key[23] = 0; t->s = t->n = 0; return t; }
static int rval (int depth, const char *key) { ws (); int c = out[ip];
  if (c == '"') { Tok *t = tok (depth, 's', key); return rstr (&t->s, &t->n); }
  if (c == '{') { ip++; tok (depth, 'o', key); ws (); if (out[ip] == '}') { ip++; tok (depth, 'O', key); return 1; }
    for (;;) { ws (); int s, n; if (!rstr (&s, &n)) return 0; char k[24]; strncpy (k, (char *) dec + s, 23); k[23] = 0; ws (); if (out[ip++] != ':') return 0; if (!rval (depth + 1, k)) return 0; ws (); int e = out[ip++]; if (e == '}') { tok (depth, 'O', key); return 1; } if (e != ',') return 0; } }
  if (c == '[') { ip++; tok (depth, 'a', key); ws (); if (out[ip] == ']') { ip++; tok (depth, 'A', key); return 1; }
    for (;;) { if (!rval (depth + 1, "")) return 0; ws (); int e = out[ip++]; if (e == ']') { tok (depth, 'A', key); return 1; } if (e != ',') return 0; } }
  if (c >= '0' && c <= '9') { Tok *t = tok (depth, 'n', key); t->s = dn; if (c == '0' && out[ip + 1] >= '0' && out[ip + 1] <= '9') return 0; while (out[ip] >= '0' && out[ip] <= '9') dec[dn++] = out[ip++]; t->n = dn - t->s; dec[dn++] = 0; return 1; }
  static const char *L[] = { "true", "false", "null" }; for (int i = 0; i < 3; i++) { int l = strlen (L[i]); if (!strncmp ((char *) out + ip, L[i], l)) { Tok *t = tok (depth, 'l', key); t->s = dn; memcpy (dec + dn, L[i], l + 1); t->n = l; dn += l + 1; ip += l; return 1; } }
  return 0; }
static int rdoc (void) { tn = dn = ip = 0; if (!rval (0, "")) return 0; ws (); return ip == on; }
static Tok *find (int depth, const char *key, int from) { for (int i = from; i < tn; i++) { if (from && tk[i].depth < depth) return NULL; if (tk[i].depth == depth && !strcmp (tk[i].key, key) && tk[i].kind != 'O' && tk[i].kind != 'A') return &tk[i]; } return NULL; }
static void is_text (Tok *t, const char *want) { vf_assert (t && t->kind == 's', "the value is present as a string"); vf_assert (t->n == (int) strlen (want) && !memcmp (dec + t->s, want, t->n), "the string decodes to the original"); }
static void is_num (Tok *t, unsigned long long want) { vf_assert (t && t->kind == 'n', "the number is present"); unsigned long long v = 0; for (int i = 0; i < t->n; i++) v = v * 10 + (dec[t->s + i] - '0'); vf_assert (v == want, "the number is the original"); }
#include "parted/jsonwrt.h"
#include "parted/strlist.h"
extern void command_line_push_word (const char *); extern int opt_script_mode; extern int pm_print (PedDevice **, PedDisk **, int);
/* ---- the writer on its own ---- */
static void text (char *t, int n) { for (int i = 0; i < n; i++) t[i] = vf_range ("ch", 1, 255); t[n] = 0; }
static void writer_string (void) { struct ul_jsonwrt w; int n = vf_param ("n", 2), nn = vf_param ("nn", 2); char a[40], b[40]; text (a, n); strcpy (b, "x"); if (nn) { memset (b, 'q', 20); text (b + 20, nn); }
  ul_jsonwrt_init (&w, stdout, 0); ul_jsonwrt_root_open (&w); ul_jsonwrt_object_open (&w, "top"); ul_jsonwrt_value_s (&w, "first", a); ul_jsonwrt_array_open (&w, "list"); ul_jsonwrt_value_s (&w, NULL, b); ul_jsonwrt_value_s (&w, NULL, a); ul_jsonwrt_array_close (&w); ul_jsonwrt_value_s (&w, "null", NULL); ul_jsonwrt_object_close (&w); ul_jsonwrt_root_close (&w);
  vf_assert (rdoc (), "the output is well-formed JSON"); is_text (find (2, "first", 0), a); Tok *l = find (2, "list", 0); vf_assert (l && l->kind == 'a', "the list is present"); is_text (l + 1, b); is_text (l + 2, a); vf_assert (l[3].kind == 'A', "the list has two elements"); Tok *z = find (2, "null", 0); vf_assert (z && z->kind == 'l' && !strcmp ((char *) dec + z->s, "null"), "no text is null"); vf_reach ("string"); }
static void writer_tree (void) { /* any properly nested sequence of calls */
  struct ul_jsonwrt w; ul_jsonwrt_init (&w, stdout, 0); ul_jsonwrt_root_open (&w); int st[8], d = 0, want[64], nw = 0, names = 0; st[0] = 'o'; int steps = vf_param ("steps", 5); unsigned long long num = 0; int cnt[8] = { 0 };
  want[nw++] = 'o';
  for (int i = 0; i < steps; i++) { int op = vf_concretize (vf_range ("op", 0, 6)); char nm[8]; nm[0] = 'k'; nm[1] = 'a' + names++; nm[2] = 0; const char *name = st[d] == 'o' ? nm : NULL; if (!d && op > 1) continue; /* the outermost object holds only objects and lists */
    switch (op) { case 0: if (d >= 3) break; ul_jsonwrt_object_open (&w, name); cnt[d]++; st[++d] = 'o'; cnt[d] = 0; want[nw++] = 'o'; break; case 1: if (d >= 3) break; ul_jsonwrt_array_open (&w, name); cnt[d]++; st[++d] = 'a'; cnt[d] = 0; want[nw++] = 'a'; break;
      case 2: if (!d) break; if (st[d] == 'o') { ul_jsonwrt_object_close (&w); want[nw++] = 'O'; } else { ul_jsonwrt_array_close (&w); want[nw++] = 'A'; } d--; break;
      case 3: ul_jsonwrt_value_s (&w, name, "v"); cnt[d]++; want[nw++] = 's'; break; case 4: num = vf_range ("num", 0, 99999); ul_jsonwrt_value_u64 (&w, name, num); cnt[d]++; want[nw++] = 'n'; break;
      case 5: ul_jsonwrt_value_boolean (&w, name, vf_range ("flag", 0, 1)); cnt[d]++; want[nw++] = 'l'; break; case 6: ul_jsonwrt_value_null (&w, name); cnt[d]++; want[nw++] = 'l'; break; } }
  while (d) { if (st[d] == 'o') { ul_jsonwrt_object_close (&w); want[nw++] = 'O'; } else { ul_jsonwrt_array_close (&w); want[nw++] = 'A'; } d--; } ul_jsonwrt_root_close (&w); want[nw++] = 'O';
  vf_assert (rdoc (), "the output is well-formed JSON"); vf_assert (tn == nw, "the output has the structure that was written"); for (int i = 0; i < nw; i++) vf_assert (tk[i].kind == want[i], "the output has the structure that was written"); Tok *last = NULL; for (int i = 0; i < tn; i++) if (tk[i].kind == 'n') last = &tk[i]; if (last) is_num (last, num); vf_reach ("tree"); }

/* ---- the listing of a device ---- */
static PedDisk *k; static PedDevice *d;
#include "base.h"
static const char *fields[40][12]; static int nrec, nf[40]; static char fbuf[4096];
/* the documented reading of the colon-separated form: ':' separates, a backslash takes the next character literally, ";\n" ends a record */
static int split (void) { int p = 0, b = 0; nrec = 0; while (p < on) { vf_assert (nrec < 40, "records (harness limit)"); int f = 0; fields[nrec][f] = fbuf + b; for (;;) { if (p >= on) return 0; vf_assert (b < (int) sizeof fbuf - 2, "fields (harness limit)"); int c = out[p++];
      if (c == '\\') { if (p >= on) return 0; fbuf[b++] = out[p++]; continue; } if (c == ':') { fbuf[b++] = 0; vf_assert (f < 11, "no more fields than documented"); fields[nrec][++f] = fbuf + b; continue; } if (c == ';' && out[p] == '\n') { p++; fbuf[b++] = 0; break; } if (c == '\n') return 0; fbuf[b++] = c; }
    nf[nrec++] = f + 1; } return 1; }
static void eq (int r, int f, const char *want) { vf_assert (f < nf[r], "the field is present"); vf_assert (!strcmp (fields[r][f], want), "the field reads back as the original"); }
static const char *dnum (char *t, unsigned long long v, const char *suf) { char r[24]; int n = 0; do r[n++] = '0' + v % 10; while (v /= 10); char *q = t; while (n) *q++ = r[--n]; strcpy (q, suf); return t; }
static const char *loc (char *t, PedSector s, int end) { /* expected text of a sector position in the unit in force */
  int u = ped_unit_get_default (); if (u == PED_UNIT_SECTOR) return dnum (t, s, "s"); if (u == PED_UNIT_BYTE) return dnum (t, end ? (s + 1) * d->sector_size - 1 : s * d->sector_size, "B"); if (u == PED_UNIT_CYLINDER) return dnum (t, s / (d->bios_geom.heads * d->bios_geom.sectors), "cyl");
  if (u == PED_UNIT_CHS) { long long sp = d->bios_geom.sectors, h = d->bios_geom.heads; dnum (t, s / (sp * h), ","); dnum (t + strlen (t), s / sp % h, ","); dnum (t + strlen (t), s % sp, ""); return t; }
  char *x = end ? ped_unit_format_byte (d, (s + 1) * d->sector_size - 1) : ped_unit_format (d, s); strcpy (t, x); free (x); return t; }
static const char *kinds (PedPartition *p) { static char t[20]; if (p->type & PED_PARTITION_EXTENDED) return "extended"; if (p->type & PED_PARTITION_LOGICAL) { if (p->type & PED_PARTITION_FREESPACE) return "free"; return "logical"; } return p->type & PED_PARTITION_FREESPACE ? "free" : "primary"; }
static void show (void) { int mode = vf_param ("mode", 0), nn = vf_param ("n", 2), what = vf_param ("what", 0), lab = vf_param ("label", 0); static const int units[] = { PED_UNIT_SECTOR, PED_UNIT_BYTE, PED_UNIT_CYLINDER, PED_UNIT_CHS, PED_UNIT_COMPACT, PED_UNIT_MEBIBYTE, PED_UNIT_PERCENT }; char t[80];
  if (&rt_sym_print) rt_sym_print = 1;
  PedSector len = vf_param ("len", 65536); d = vd_create (len, vf_param ("ss", 512)); vf_assert (d != NULL, "device"); k = ped_disk_new_fresh (d, ped_disk_type_get (label_names[lab])); vf_assert (k != NULL, "label"); base (vf_param ("base", 2));
  ped_unit_set_default (units[vf_param ("unit", 0)]); d->phys_sector_size = 4096; d->type = vf_param ("dtype", 5); x_policy = XP_IGNORE; vf_assert (ped_device_open (d), "open");
  char sy[40]; memset (sy, 'z', sizeof sy); int pad = vf_param ("pad", 0); text (sy + pad, nn); if (mode == 1) for (int i = pad; sy[i]; i++) vf_assume (sy[i] != '\n');
  char *model = d->model, *path = d->path; d->model = strdup ("Model x"); d->path = strdup ("/dev/sda"); PedPartition *v = nth_active (k, vf_param ("victim", 1)); if (!v) v = nth_active (k, 0);
  if (what == 0) d->model = sy; if (what == 1) d->path = sy;
  if (what == 2 && v && has_names (k)) { if (lab == 0) for (int i = pad; sy[i]; i++) vf_assume (sy[i] > 0 && sy[i] < 127); if (pad == 0) vf_assume (sy[0] != ' ' && sy[strlen (sy) - 1] != ' '); vf_assert (ped_partition_set_name (v, sy), "name"); if (strcmp (ped_partition_get_name (v), sy)) vf_stop (); }
  if (what == 3) { int which = vf_concretize (vf_range ("part", 0, 3)); PedPartition *p = nth_active (k, which); if (p) { int f = vf_concretize (vf_range ("flag", PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG)); if (ped_partition_is_flag_available (p, f)) ped_partition_set_flag (p, f, 1); int f2 = vf_concretize (vf_range ("flag2", PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG)); if (f2 > f && ped_partition_is_flag_available (p, f2)) ped_partition_set_flag (p, f2, 1); }
    int g = vf_concretize (vf_range ("dflag", 0, PED_DISK_LAST_FLAG)); if (g && ped_disk_is_flag_available (k, g)) ped_disk_set_flag (k, g, 1); }
  if (what == 4 && v) { v->num = vf_range ("num", 1, vf_param ("maxnum", 128)); if (ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_ID) && ped_partition_is_active (v)) ped_partition_set_type_id (v, vf_sym ("id", 8)); }
  if (what == 5) { d->sector_size = 1LL << vf_range ("ss", 9, 16); d->phys_sector_size = vf_range ("phys", 512, 1 << 20); }
  if (what == 6 && v) { static const char *const fs[] = { "ext2", "fat16", "ntfs", "linux-swap(v1)", "hfs+", "btrfs" }; v->fs_type = ped_file_system_type_get (fs[vf_concretize (vf_range ("fs", 0, 5))]); vf_assert (v->fs_type != NULL, "file system type"); }
  int fr = vf_concretize (vf_range ("free", 0, what == 0 || what == 6 ? 1 : 0)); if (fr) command_line_push_word ("free");
  opt_script_mode = 1; on = 0; PedDisk *kk = k;
  if (vf_param ("nodisk", 0)) { kk = NULL; vd_of (d)->ro = 1; opt_script_mode = 0; }
  vf_assert (pm_print (&d, &kk, mode), "printing succeeds"); int u = ped_unit_get_default (); int chs = u == PED_UNIT_CHS; const char *lname = k->type->name, *sz = loc (t, len - 1, 1);
  char size[80]; if (u == PED_UNIT_SECTOR) dnum (size, len, "s"); else if (u == PED_UNIT_BYTE) dnum (size, len * d->sector_size, "B"); else { char *x = ped_unit_format_byte (d, len * d->sector_size - (chs || u == PED_UNIT_CYLINDER)); strcpy (size, x); free (x); } (void) sz;
  static const char *const tr[] = { "unknown", "scsi", "ide", "dac960", "cpqarray", "file", "ataraid", "i2o", "ubd", "dasd", "viodasd", "sx8", "dm", "xvd", "sd/mmc", "virtblk", "aoe", "md", "loopback", "nvme", "brd", "pmem" };
  char cyl[60]; if (chs || u == PED_UNIT_CYLINDER) { char *x = ped_unit_format_custom (d, d->bios_geom.heads * d->bios_geom.sectors, PED_UNIT_KILOBYTE); strcpy (cyl, x); free (x); }
  if (kk == NULL) lname = "unknown";
  if (mode == 0) { vf_assert (rdoc (), "the output is well-formed JSON"); Tok *dk = find (1, "disk", 0); vf_assert (dk && dk->kind == 'o', "the disk is described"); is_text (find (2, "path", 0), d->path); is_text (find (2, "model", 0), d->model); is_text (find (2, "size", 0), size); is_text (find (2, "transport", 0), tr[d->type]); is_num (find (2, "logical-sector-size", 0), d->sector_size); is_num (find (2, "physical-sector-size", 0), d->phys_sector_size); is_text (find (2, "label", 0), lname);
    if (chs || u == PED_UNIT_CYLINDER) { char g[120]; dnum (g, d->bios_geom.cylinders, ","); dnum (g + strlen (g), d->bios_geom.heads, ","); dnum (g + strlen (g), d->bios_geom.sectors, " "); strcat (g, cyl); is_text (find (2, "geometry", 0), g); }
    if (!kk) { vf_assert (!find (2, "partitions", 0), "no table, no partitions"); vf_reach ("json-none"); return; }
    is_num (find (2, "max-partitions", 0), ped_disk_get_max_primary_partition_count (k)); Tok *fl = find (2, "flags", 0); int nfl = 0; for (int i = 1; i <= PED_DISK_LAST_FLAG; i++) if (ped_disk_is_flag_available (k, i) && ped_disk_get_flag (k, i)) { vf_assert (fl && fl->kind == 'a', "the disk flags are listed"); is_text (fl + 1 + nfl++, ped_disk_flag_get_name (i)); } if (!nfl) vf_assert (!fl, "no disk flags, no list"); else vf_assert (fl[1 + nfl].kind == 'A', "only the disk flags are listed");
    int at = find (2, "partitions", 0) - tk; vf_assert (tk[at].kind == 'a', "the partitions are listed"); at++;
    for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) { if (p->type & PED_PARTITION_METADATA || (!fr && !ped_partition_is_active (p))) continue; vf_assert (at < tn && tk[at].kind == 'o' && tk[at].depth == 3, "each partition is one object"); at++;
      is_num (find (4, "number", at), p->num >= 0 ? p->num : 0); is_text (find (4, "start", at), loc (t, p->geom.start, 0)); is_text (find (4, "end", at), loc (t, p->geom.end, 1)); if (!chs) { if (u == PED_UNIT_BYTE || u == PED_UNIT_SECTOR) is_text (find (4, "size", at), dnum (t, p->geom.length * (u == PED_UNIT_BYTE ? d->sector_size : 1), u == PED_UNIT_BYTE ? "B" : "s")); else vf_assert (find (4, "size", at) != NULL, "the size is present"); } else vf_assert (!find (4, "size", at), "no size in CHS units");
      is_text (find (4, "type", at), kinds (p)); Tok *nm = find (4, "name", at), *fst = find (4, "filesystem", at), *pf = find (4, "flags", at), *id = find (4, "type-id", at), *tu = find (4, "type-uuid", at), *pu = find (4, "uuid", at); int act = ped_partition_is_active (p);
      if (act && has_names (k) && *ped_partition_get_name (p)) is_text (nm, ped_partition_get_name (p)); else vf_assert (!nm, "no name, no name");
      if (act && p->fs_type) is_text (fst, p->fs_type->name); else vf_assert (!fst, "no file system, no name"); int n = 0; if (act) for (int i = 1; i <= PED_PARTITION_LAST_FLAG; i++) if (ped_partition_is_flag_available (p, i) && ped_partition_get_flag (p, i)) { vf_assert (pf && pf->kind == 'a', "the flags are listed"); is_text (pf + 1 + n++, ped_partition_flag_get_name (i)); } if (!n) vf_assert (!pf, "no flags, no list"); else vf_assert (pf[1 + n].kind == 'A', "only the flags set are listed");
      static const char hx[] = "0123456789abcdef"; if (act && ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) { int v8 = ped_partition_get_type_id (p); t[0] = '0'; t[1] = 'x'; t[2] = hx[v8 >> 4]; t[3] = hx[v8 & 15]; t[4] = 0; is_text (id, t); } else vf_assert (!id, "no type id"); vf_assert (!tu == !(act && ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) && !pu == !(act && ped_disk_type_check_feature (k->type, PED_DISK_TYPE_PARTITION_UUID)), "UUIDs where the label has them");
      while (tk[at].depth != 3) at++; vf_assert (tk[at].kind == 'O', "each partition is one object"); at++; vf_reach (act ? "json-part" : "json-free"); }
    vf_assert (tk[at].kind == 'A' && tk[at].depth == 2, "only partitions are listed"); vf_reach ("json"); }
  else if (mode == 1) { vf_assert (split (), "the output is made of complete records"); vf_assert (nrec >= 2 && nf[0] == 1, "a unit line, then the device"); eq (0, 0, chs ? "CHS" : u == PED_UNIT_CYLINDER ? "CYL" : "BYT"); vf_assert (nf[1] == 8, "eight fields describe the device"); eq (1, 0, d->path); eq (1, 1, size); eq (1, 2, tr[d->type]); eq (1, 3, dnum (t, d->sector_size, "")); eq (1, 4, dnum (t, d->phys_sector_size, "")); eq (1, 5, lname); eq (1, 6, d->model); int r = 2;
    char fl[200]; fl[0] = 0; if (kk) for (int i = 1; i <= PED_DISK_LAST_FLAG; i++) if (ped_disk_is_flag_available (k, i) && ped_disk_get_flag (k, i)) { if (*fl) strcat (fl, ", "); strcat (fl, ped_disk_flag_get_name (i)); } eq (1, 7, fl);
    if (chs || u == PED_UNIT_CYLINDER) { vf_assert (nrec > r && nf[r] == 4, "four fields give the geometry"); eq (r, 0, dnum (t, d->bios_geom.cylinders, "")); eq (r, 1, dnum (t, d->bios_geom.heads, "")); eq (r, 2, dnum (t, d->bios_geom.sectors, "")); eq (r, 3, cyl); r++; }
    if (kk) for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) { if (p->type & PED_PARTITION_METADATA || (!fr && !ped_partition_is_active (p))) continue; vf_assert (r < nrec, "each partition is one record"); int act = ped_partition_is_active (p), c = chs ? 3 : 4; vf_assert (nf[r] == (act ? c + 3 : c + 1), "the number of fields of a partition");
      eq (r, 0, dnum (t, p->num >= 0 ? p->num : 1, "")); eq (r, 1, loc (t, p->geom.start, 0)); eq (r, 2, loc (t, p->geom.end, 1)); if (!chs && (u == PED_UNIT_BYTE || u == PED_UNIT_SECTOR)) eq (r, 3, dnum (t, p->geom.length * (u == PED_UNIT_BYTE ? d->sector_size : 1), u == PED_UNIT_BYTE ? "B" : "s"));
      if (!act) { eq (r, c, "free"); r++; continue; } eq (r, c, p->fs_type ? p->fs_type->name : ""); eq (r, c + 1, has_names (k) ? ped_partition_get_name (p) : ""); fl[0] = 0; for (int i = 1; i <= PED_PARTITION_LAST_FLAG; i++) if (ped_partition_is_flag_available (p, i) && ped_partition_get_flag (p, i)) { if (*fl) strcat (fl, ", "); strcat (fl, ped_partition_flag_get_name (i)); } eq (r, c + 2, fl); r++; vf_reach ("colon-part"); }
    vf_assert (r == nrec, "nothing else is listed"); vf_reach ("colon"); }
  else { /* the table of partitions, column by column */
    if (!kk) { vf_reach ("human"); return; } static char cell[30][8][80]; int nr = 0, nc = 0, ext = ped_disk_type_check_feature (k->type, PED_DISK_TYPE_EXTENDED); memset (cell, 0, sizeof cell); { char (*c)[80] = cell[nr++]; strcpy (c[nc++], "Number"); strcpy (c[nc++], "Start"); strcpy (c[nc++], "End"); if (!chs) strcpy (c[nc++], "Size"); if (ext) strcpy (c[nc++], "Type"); strcpy (c[nc++], "File system"); if (has_names (k)) strcpy (c[nc++], "Name"); strcpy (c[nc++], "Flags"); }
    int plain = 1; for (PedPartition *p = ped_disk_next_partition (k, NULL); p; p = ped_disk_next_partition (k, p)) { if (p->type & PED_PARTITION_METADATA || (!fr && !ped_partition_is_active (p))) continue; vf_assert (nr < 30, "rows (harness limit)"); char (*c)[80] = cell[nr++]; int i = 0, act = ped_partition_is_active (p); if (p->num >= 0) { dnum (t, p->num, " "); if (t[1] == ' ') { c[i][0] = ' '; strcpy (c[i] + 1, t); } else strcpy (c[i], t); } else strcpy (c[i], "   "); i++; loc (c[i++], p->geom.start, 0); loc (c[i++], p->geom.end, 1); if (!chs) { char *x = ped_unit_format (d, p->geom.length); strcpy (c[i++], x); free (x); }
      if (ext) strcpy (c[i++], act ? kinds (p) : ""); strcpy (c[i++], act ? p->fs_type ? p->fs_type->name : "" : "Free Space"); if (has_names (k)) { if (act) { const char *n = ped_partition_get_name (p); for (int j = 0; n[j]; j++) if (n[j] < 32 || n[j] > 126) plain = 0; strcpy (c[i], n); } i++; } if (act) for (int f = 1; f <= PED_PARTITION_LAST_FLAG; f++) if (ped_partition_is_flag_available (p, f) && ped_partition_get_flag (p, f)) { if (*c[i]) strcat (c[i], ", "); strcat (c[i], ped_partition_flag_get_name (f)); } }
    static char want[4096]; int wn = 0; for (int r = 0; r < nr; r++) { for (int c = 0; c < nc; c++) { int w = 0; for (int q = 0; q < nr; q++) if ((int) strlen (cell[q][c]) > w) w = strlen (cell[q][c]); int l = strlen (cell[r][c]); memcpy (want + wn, cell[r][c], l); wn += l; for (; l < w + 2; l++) want[wn++] = ' '; } while (wn && want[wn - 1] == ' ') wn--; want[wn++] = '\n'; } want[wn++] = '\n'; want[wn] = 0;
    int st = 0; while (st < on && strncmp ((char *) out + st, "Number", 6)) st++; if (plain) vf_assert (on - st == wn && !memcmp (out + st, want, wn), "the table shows every partition, column by column");
    else { int a = st, b = 0; for (;;) { while (out[a] == ' ') a++; while (want[b] == ' ') b++; vf_assert (out[a] == (unsigned char) want[b], "the table shows every partition"); if (!out[a]) break; a++; b++; } vf_reach ("human-odd"); } vf_reach ("human"); }
  vf_assert (x_bug == 0, "no internal error was reported"); (void) model; (void) path; }
void vf_main (void) { rt_init (); if (&rt_sym_print) rt_sym_print = 1; switch (vf_case ()) { case 0: writer_string (); break; case 1: writer_tree (); break; case 2: show (); break; } }
