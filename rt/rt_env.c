/* Environment model shared by symbolic runs and native replays. */
#define _GNU_SOURCE
#include "rt.h"
#include <errno.h>
#include <stdarg.h>
#include "architecture.h"
VDev vd[VD_MAXDEV]; int vd_n; int vd_geom_mode;
int x_policy, x_count, x_fatal, x_bug, x_last_type, x_last_opts, x_last_answer, x_warn, x_err;
int x_types[64], x_opts[64], x_answers[64];
extern int vf_native __attribute__ ((weak));
/* ---------- libparted debug.c replacement ---------- */
void ped_debug (const int level, const char *file, int line, const char *function, const char *msg, ...) { (void) level; (void) file; (void) line; (void) function; (void) msg; }
void ped_debug_set_handler (void *h) { (void) h; }
void __attribute__ ((noreturn)) ped_assert (const char *c, const char *file, int line, const char *fn) {
  (void) file; (void) line; char t[300]; size_t i = 0; const char *p = "ped_assert "; while (*p) t[i++] = *p++; p = fn; while (*p && i < 100) t[i++] = *p++; t[i++] = ':'; t[i++] = ' '; p = c; while (*p && i < 290) t[i++] = *p++; t[i] = 0;
  vf_assert_ (0, t); abort (); }
/* ---------- system services ---------- */
time_t time (time_t *t) { if (t) *t = 1000000; return 1000000; }
char *getenv_model (const char *n) { (void) n; return 0; }
char *canonicalize_file_name (const char *n) { return strdup (n); }
static unsigned uuid_n;
int rt_uuid_sym;
void uuid_generate (unsigned char *u) { uuid_n++; for (int i = 0; i < 16; i++) u[i] = (unsigned char) (0x10 * i + uuid_n); if (rt_uuid_sym) vf_sym_bytes (u, 16, "uuid"); }
/* UTF-8 <-> UCS-2LE */
struct cd { int to_ucs; };
static struct cd cd_to = { 1 }, cd_from = { 0 };
int iconv_fail;
void *iconv_open (const char *to, const char *from) { (void) from; if (iconv_fail) { errno = EINVAL; return (void *) -1; } return !strncmp (to, "UCS-2LE", 7) ? &cd_to : &cd_from; }
int iconv_close (void *c) { vf_assert (c == &cd_to || c == &cd_from, "iconv_close on a valid descriptor"); return 0; }
size_t iconv (void *c, char **in, size_t *inl, char **out, size_t *outl) {
  struct cd *d = c; if (!in || !*in) return 0;
  while (*inl) { const unsigned char *s = (const unsigned char *) *in; unsigned char *o = (unsigned char *) *out;
    if (d->to_ucs) { unsigned cp; size_t k;
      if (s[0] < 0x80) { cp = s[0]; k = 1; }
      else if (s[0] >= 0xC2 && s[0] < 0xE0) { if (*inl < 2) { errno = EINVAL; return -1; } if ((s[1] & 0xC0) != 0x80) { errno = EILSEQ; return -1; } cp = (s[0] & 31) << 6 | (s[1] & 63); k = 2; }
      else if (s[0] >= 0xE0 && s[0] < 0xF0) { if (*inl < 3) { errno = EINVAL; return -1; } if ((s[1] & 0xC0) != 0x80 || (s[2] & 0xC0) != 0x80) { errno = EILSEQ; return -1; } cp = (s[0] & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63); if (cp < 0x800 || (cp >= 0xD800 && cp < 0xE000)) { errno = EILSEQ; return -1; } k = 3; }
      else { errno = EILSEQ; return -1; }
      if (*outl < 2) { errno = E2BIG; return -1; }
      o[0] = cp; o[1] = cp >> 8; *in += k; *inl -= k; *out += 2; *outl -= 2; }
    else { if (*inl < 2) { errno = EINVAL; return -1; } unsigned cp = s[0] | s[1] << 8; size_t k = cp < 0x80 ? 1 : cp < 0x800 ? 2 : 3;
      if (cp >= 0xD800 && cp < 0xE000) { errno = EILSEQ; return -1; }
      if (*outl < k) { errno = E2BIG; return -1; }
      if (k == 1) o[0] = cp; else if (k == 2) { o[0] = 0xC0 | cp >> 6; o[1] = 0x80 | (cp & 63); } else { o[0] = 0xE0 | cp >> 12; o[1] = 0x80 | ((cp >> 6) & 63); o[2] = 0x80 | (cp & 63); }
      *in += 2; *inl -= 2; *out += k; *outl -= k; } }
  return 0; }
/* ---------- virtual device ---------- */
VDev *vd_of (const PedDevice *d) { return (VDev *) d->arch_specific; }
static void vlog (VDev *v, char k, PedSector s, PedSector c) { if (v->nlog < VD_MAXLOG) { v->log[v->nlog].kind = k; v->log[v->nlog].start = s; v->log[v->nlog].count = c; v->nlog++; } }
void vd_clear_log (VDev *v) { v->nlog = 0; v->nread = v->nwrite = 0; v->sectors_written = 0; }
/* does any materialised sector lie in [start, start+count)?  one condition, no branching per sector */
static int vd_any (VDev *v, PedSector start, PedSector count) { unsigned long hit = 0; for (int i = 0; i < v->nsec; i++) hit |= (unsigned long) ((unsigned long) (v->sec[i].lba - start) < (unsigned long) count); return hit != 0; }
unsigned char *vd_peek (VDev *v, PedSector lba) { if (!vd_any (v, lba, 1)) return 0; for (int i = 0; i < v->nsec; i++) if (v->sec[i].lba == lba) return v->sec[i].data; return 0; }
unsigned char *vd_sector (VDev *v, PedSector lba) {
  unsigned char *p = vd_peek (v, lba); if (p) return p;
  vf_assert (v->nsec < VD_MAXSEC, "virtual device: too many sectors (harness limit)");
  p = malloc (v->ss); if (v->bg == VBG_SYM) vf_sym_bytes (p, v->ss, "disk"); else memset (p, v->bg == VBG_FILL ? v->fill : 0, v->ss);
  v->sec[v->nsec].lba = lba; v->sec[v->nsec].data = p; v->nsec++; return p; }
void vd_clone (VDev *d, VDev *s) { d->bg = s->bg; d->fill = s->fill; d->nsec = s->nsec; for (int i = 0; i < s->nsec; i++) { d->sec[i].lba = s->sec[i].lba; d->sec[i].data = malloc (s->ss); memcpy (d->sec[i].data, s->sec[i].data, s->ss); } }
static int v_read (const PedDevice *dev, void *buf, PedSector start, PedSector count) {
  VDev *v = vd_of (dev); v->nread++; vlog (v, 'R', start, count);
  if (!v->opened || dev->external_mode) v->closed_io++;
  if (v->fail_read_at >= 0 && v->nread - 1 == v->fail_read_at) return 0;
  if (dev->sector_size != v->ss) { /* a label changed its idea of the sector size: bytes, in 512-byte pieces */
    vf_assert (dev->sector_size > 0 && dev->sector_size % 512 == 0, "the device's sector size stays a positive multiple of 512");
    PedSector k = dev->sector_size / 512, kv = v->ss / 512; if (start < 0 || count < 0 || start > (1LL << 50) || count > 65536 || (start + count) * k > v->length * kv) { v->oob_reads++; return 0; }
    for (PedSector i = 0; i < count * k; i++) { PedSector q = start * k + i; unsigned char *p = v->bg == VBG_SYM ? vd_sector (v, q / kv) : vd_peek (v, q / kv);
      if (p) memcpy ((char *) buf + i * 512, p + q % kv * 512, 512); else memset ((char *) buf + i * 512, v->bg == VBG_FILL ? v->fill : 0, 512); }
    return 1; }
  if (start < 0 || count < 0 || start > v->length || count > v->length - start) { v->oob_reads++; return 0; }
  if (v->bad_sector >= 0 && v->bad_sector >= start && v->bad_sector < start + count) return 0;
  if (v->bg != VBG_SYM && !vd_any (v, start, count)) { memset (buf, v->bg == VBG_FILL ? v->fill : 0, count * v->ss); return 1; }
  for (PedSector i = 0; i < count; i++) {
    unsigned char *p = v->bg == VBG_SYM ? vd_sector (v, start + i) : vd_peek (v, start + i);
    if (p) memcpy ((char *) buf + i * v->ss, p, v->ss); else memset ((char *) buf + i * v->ss, v->bg == VBG_FILL ? v->fill : 0, v->ss); }
  return 1; }
static int v_write (PedDevice *dev, const void *buf, PedSector start, PedSector count) {
  VDev *v = vd_of (dev); v->nwrite++; vlog (v, 'W', start, count);
  vf_assert (!v->ro, "device written although the operation must be read-only");
  vf_assert (!dev->read_only, "write issued to a read-only device");
  if (!v->opened || dev->external_mode) v->closed_io++;
  if (v->fail_write_at >= 0 && v->nwrite - 1 == v->fail_write_at) return 0;
  if (start < 0 || count < 0 || start > v->length || count > v->length - start) { v->oob_writes++; vf_assert (0, "write outside the device"); return 0; }
  for (PedSector i = 0; i < count; i++) {
    if (v->crash_after >= 0 && v->sectors_written >= v->crash_after) { v->sectors_written++; continue; }
    v->sectors_written++;
    int bg = v->bg; if (bg == VBG_SYM) v->bg = VBG_ZERO; /* whole sector is overwritten: no need for fresh bytes */
    unsigned char *p = vd_sector (v, start + i); v->bg = bg;
    memcpy (p, (const char *) buf + i * v->ss, v->ss); }
  return 1; }
static int v_open (PedDevice *d) { VDev *v = vd_of (d); vlog (v, 'O', 0, 0); v->opened++; vf_assert (v->opened == 1, "device opened twice at the operating-system level"); return 1; }
static int v_refresh_open (PedDevice *d) { (void) d; return 1; }
static int v_close (PedDevice *d) { VDev *v = vd_of (d); vlog (v, 'C', 0, 0); v->opened--; vf_assert (v->opened == 0, "operating-system close without matching open"); return 1; }
static int v_refresh_close (PedDevice *d) { (void) d; return 1; }
static int v_sync (PedDevice *d) { vlog (vd_of (d), 'S', 0, 0); return 1; }
static int v_sync_fast (PedDevice *d) { vlog (vd_of (d), 'F', 0, 0); return 1; }
static int v_busy (PedDevice *d) { (void) d; return 0; }
static PedSector v_check (PedDevice *d, void *b, PedSector s, PedSector c) { (void) d; (void) b; (void) s; return c; }
static void v_probe_all (void) {}
static PedAlignment *v_align (const PedDevice *d) { VDev *v = vd_of (d); return v->align_grain ? ped_alignment_new (v->align_off, v->align_grain) : NULL; }
static void v_destroy (PedDevice *d) { free (d->path); free (d->model); free (d); }
static PedDevice *v_new (const char *path) {
  for (int i = 0; i < vd_n; i++) if (!strcmp (vd[i].path, path)) {
      VDev *v = &vd[i]; PedDevice *d = calloc (1, sizeof *d);
      d->path = strdup (path); d->model = strdup ("vdisk"); d->type = PED_DEVICE_FILE; d->sector_size = v->ss; d->phys_sector_size = v->phys; d->length = v->length;
      d->hw_geom.cylinders = v->hw_c; d->hw_geom.heads = v->hw_h; d->hw_geom.sectors = v->hw_s;
      d->bios_geom.cylinders = v->bios_c; d->bios_geom.heads = v->bios_h; d->bios_geom.sectors = v->bios_s;
      d->arch_specific = v; v->dev = d; return d; }
  return 0; }
static char *v_ppath (const PedPartition *part) {  size_t n = strlen (part->disk->dev->path); char *p = malloc (n + 12); snprintf (p, n + 12, "%s%d", part->disk->dev->path, part->num); return p; }
int vd_part_busy;
static int v_pbusy (const PedPartition *p) { (void) p; return vd_part_busy; }
int vd_commit_os;
static int v_commit (PedDisk *d) { (void) d; vd_commit_os++; return 1; }
static PedDeviceArchOps v_dev_ops = { ._new = v_new, .destroy = v_destroy, .is_busy = v_busy, .open = v_open, .refresh_open = v_refresh_open, .close = v_close, .refresh_close = v_refresh_close, .read = v_read, .write = v_write, .sync = v_sync, .sync_fast = v_sync_fast, .check = v_check, .probe_all = v_probe_all, .get_minimum_alignment = v_align, .get_optimum_alignment = v_align };
static PedDiskArchOps v_disk_ops = { .partition_get_path = v_ppath, .partition_is_busy = v_pbusy, .disk_commit = v_commit };
#ifndef RT_NO_ARCH
PedArchitecture ped_linux_arch = { .dev_ops = &v_dev_ops, .disk_ops = &v_disk_ops };
#endif
PedDevice *vd_create (PedSector length, int ss) {
  VDev *v = &vd[vd_n]; snprintf (v->path, sizeof v->path, "/vd%d", vd_n); vd_n++;
  v->length = length; v->ss = ss; v->phys = ss; v->bad_sector = v->crash_after = v->fail_read_at = v->fail_write_at = -1;
  if (!vf_is_symbolic (length)) {
    if (vd_geom_mode == 0) { v->bios_h = 255; v->bios_s = 63; v->bios_c = length / (255 * 63) / (ss / 512); }
    else { v->bios_h = 4; v->bios_s = 32; v->bios_c = length / 4 / 32; }
  } else { v->bios_h = 255; v->bios_s = 63; v->bios_c = 1024; }
  v->hw_c = v->bios_c; v->hw_h = v->bios_h; v->hw_s = v->bios_s;
  return ped_device_get (v->path); }
/* ---------- exception handler ---------- */
static int pick (int opts, const int *order) { for (; *order; order++) if (opts & *order) return *order; return PED_EXCEPTION_UNHANDLED; }
static PedExceptionOption handler (PedException *ex) {
  static const int oc[] = { PED_EXCEPTION_CANCEL, PED_EXCEPTION_NO, PED_EXCEPTION_IGNORE, PED_EXCEPTION_OK, 0 };
  static const int of[] = { PED_EXCEPTION_FIX, PED_EXCEPTION_YES, PED_EXCEPTION_OK, PED_EXCEPTION_IGNORE, PED_EXCEPTION_CANCEL, 0 };
  static const int oi[] = { PED_EXCEPTION_IGNORE, PED_EXCEPTION_NO, PED_EXCEPTION_OK, PED_EXCEPTION_CANCEL, 0 };
  if (x_count < 64) { x_types[x_count] = ex->type; x_opts[x_count] = ex->options; }
  x_count++; x_last_type = ex->type; x_last_opts = ex->options;
  if (ex->type == PED_EXCEPTION_BUG) x_bug++;
  if (ex->type == PED_EXCEPTION_FATAL) x_fatal++;
  if (ex->type == PED_EXCEPTION_WARNING) x_warn++;
  if (ex->type == PED_EXCEPTION_ERROR) x_err++;
  int a = 0;
  switch (x_policy) {
  case XP_CANCEL: a = pick (ex->options, oc); break;
  case XP_FIX: a = pick (ex->options, of); break;
  case XP_IGNORE: a = pick (ex->options, oi); break;
  case XP_UNHANDLED: a = PED_EXCEPTION_UNHANDLED; break;
  case XP_SYMBOLIC: { int n = 0, o[8]; for (int b = 1; b < 256; b <<= 1) if (ex->options & b) o[n++] = b; if (n == 0) a = 0; else { int k = (int) vf_range ("answer", 0, n - 1); for (int i = 0; i < n; i++) if (k == i) { a = o[i]; break; } } break; }
  }
  if (x_count <= 64) x_answers[x_count - 1] = a; x_last_answer = a; return a; }
void rt_init (void) { ped_exception_set_handler (handler); }
