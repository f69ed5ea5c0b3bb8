/* The Linux device layer (libparted/arch/linux.c) over a model of the system calls.
   C21 device I/O, C25 device life cycle, C29 what the kernel is told. */
#include "tbl.h"
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/utsname.h>
#include <linux/blkpg.h>
#include "architecture.h"
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { (void) g; return NULL; } /* C18 */
#define R_GETSIZE _IO (0x12, 96)
#define R_FLSBUF _IO (0x12, 97)
#define R_SSZGET _IO (0x12, 104)
#define R_GETSIZE64 _IOR (0x12, 114, size_t)
/* ---------- model of the operating system ---------- */
enum { K_MAIN, K_PART, K_PROC };
typedef struct { int open, kind, rw, part; PedSector pos; } F;
static F fd_[64]; static int nfd = 3;
static const char *path_ = "/dev/vd"; static mode_t mode_; static dev_t rdev_; static PedSector nbytes; static int ss_;
static int budget, injected, eintr; static long base_, total; static unsigned char pat[16384], shadow[16384], touched[16384]; static int nread_, nwrite_, fine, transfer;
static int last_ok_reopen;
static int fail (const char *what) { if (budget <= 0) return 0; int f = vf_concretize (vf_range (what, 0, 1)); if (f) { budget--; injected++; } return f; }
static int main_open (void) { int n = 0; for (int i = 3; i < nfd; i++) n += fd_[i].open && fd_[i].kind == K_MAIN; return n; }
static int other_open (void) { int n = 0; for (int i = 3; i < nfd; i++) n += fd_[i].open && fd_[i].kind != K_MAIN; return n; }
static F *get (int fd) { static int gone; if (fd == -1) { if (++gone > 6) vf_stop (); /* retrying for ever */ errno = EBADF; return NULL; } vf_assert (fd >= 3 && fd < nfd && fd_[fd].open, "a descriptor is used only while it is open"); return &fd_[fd]; }
static int ndev; /* partition device nodes that exist: bit n */ static unsigned nodes; static int nproc; static const char *procdev = "Character devices:\n  1 mem\n\nBlock devices:\n  7 loop\n  8 sd\n  9 md\n252 virtblk\n259 blkext\n";
static int partno (const char *p) { size_t n = strlen (path_); if (strncmp (p, path_, n) || !p[n]) return -1; int v = 0; if (p[n] == 'p') n++; for (; p[n]; n++) { if (p[n] < '0' || p[n] > '9') return -1; v = v * 10 + p[n] - '0'; } return v; }
int sys_open (const char *p, int flags, ...) { int kind = K_PART, part = -1; if (!strcmp (p, path_)) kind = K_MAIN; else if (!strcmp (p, "/proc/devices")) kind = K_PROC; else { part = partno (p); if (part < 0 || part > 31 || !(nodes >> part & 1)) { errno = ENOENT; return -1; } }
  if (fail (kind == K_MAIN ? "open fails" : "other open fails")) { errno = EACCES; return -1; }
  vf_assert (nfd < 64, "descriptors (harness limit)"); F *f = &fd_[nfd]; f->open = 1; f->kind = kind; f->part = part; f->rw = (flags & O_ACCMODE) != O_RDONLY; f->pos = 0; return nfd++; }
int sys_close (int fd) { F *f = get (fd); if (!f) return -1; f->open = 0; return 0; }
long sys_lseek (int fd, long off, int wh) { F *f = get (fd); if (!f) return -1; vf_assert (wh == SEEK_SET && off >= 0, "seeks are to a position on the device"); if (fail ("seek fails")) { errno = EIO; return -1; } f->pos = off; return off; }
static long part_len (size_t n) { if (n <= 1) return 1; if (fine) return vf_concretize (vf_range ("transferred", 1, n - 1)); static const int cut[] = { 1, 511, 512, 513 }; int k = vf_concretize (vf_range ("transferred", 0, 5)); long r = k < 4 ? cut[k] : k == 4 ? (long) n / 2 : (long) n - 1; return r < (long) n ? r : (long) n - 1; }
/* how a transfer of N bytes ends: everything, an error, nothing, or a part */
static long outcome (size_t n, int wr) { if (budget > 0) { int how = vf_concretize (vf_range ("outcome", 0, 3)); if (how) { budget--; injected++; } if (how == 1) { errno = eintr ? EINTR : EIO; return -1; } if (how == 2) { errno = wr ? ENOSPC : 0; return 0; } if (how == 3) return part_len (n); } return n; }
long sys_read (int fd, void *b, size_t n) { F *f = get (fd); if (!f) return -1; if (f->kind == K_PROC) { size_t l = strlen (procdev); if ((size_t) f->pos >= l) return 0; if (n > l - f->pos) n = l - f->pos; memcpy (b, procdev + f->pos, n); f->pos += n; return n; }
  nread_++; vf_assert (f->kind == K_MAIN, "only the device itself is read"); if (!transfer) { memset (b, 0, n); return n; } if (n == 0) return 0; long r = outcome (n, 0); if (r <= 0) return r; long rel = vf_concretize (f->pos - base_); vf_assert (rel >= 0 && rel + r <= total, "only the requested sectors are read"); memcpy (b, pat + rel, r); f->pos += r; return r; }
long sys_write (int fd, const void *b, size_t n) { F *f = get (fd); if (!f) return -1; nwrite_++; vf_assert (f->kind == K_MAIN && f->rw, "only a device opened for writing is written"); if (!transfer) return n; if (n == 0) return 0; long r = outcome (n, 1); if (r <= 0) return r; long rel = vf_concretize (f->pos - base_); vf_assert (rel >= 0 && rel + r <= total, "only the requested sectors are written"); memcpy (shadow + rel, b, r); memset (touched + rel, 1, r); f->pos += r; return r; }
static int nsync_ok, nsync_bad;
int sys_fsync (int fd) { F *f = get (fd); if (!f) return -1; if (f->kind == K_MAIN && fail ("fsync fails")) { errno = EIO; nsync_bad++; return -1; } nsync_ok++; return 0; }
/* mounted devices: what /proc/mounts etc. list */
static int nmnt; static char mnt[4][16]; static dev_t mntdev[4]; static int mntfile[4], mntbad[4]; static dev_t part_rdev (int n) { return rdev_ + n; }
static int stat_never_fails = 1;
int sys_stat (const char *p, struct stat *s) { memset (s, 0, sizeof *s); if (!strcmp (p, path_)) { if (!stat_never_fails && fail ("stat fails")) { errno = EIO; return -1; } s->st_mode = mode_; s->st_rdev = rdev_; s->st_size = S_ISBLK (mode_) ? 0 : nbytes; return 0; }
  for (int i = 0; i < nmnt; i++) if (!strcmp (p, mnt[i])) { if (mntbad[i]) { errno = ENOENT; return -1; } s->st_mode = S_IFBLK; s->st_rdev = mntdev[i]; return 0; }
  int n = partno (p); if (n < 0 || n > 31 || !(nodes >> n & 1)) { errno = ENOENT; return -1; } s->st_mode = S_IFBLK; s->st_rdev = part_rdev (n); return 0; }
/* the kernel's view of the partitions, in 512 byte units */
typedef struct { int present, busy; long start, len; int touched; } KP; static KP kp[32]; static int nkp, cmds, kfail, kranges, sysfs = 1, ext_range = 16;
static int k_overlap (int n, long s, long l) { for (int i = 1; i <= nkp; i++) if (i != n && kp[i].present && s < kp[i].start + kp[i].len && kp[i].start < s + l) return 1; return 0; }
static int blkpg (struct blkpg_ioctl_arg *a) { struct blkpg_partition *p = a->data; int n = p->pno; vf_assert (a->datalen == sizeof *p, "BLKPG argument size");
  if (kfail > 0 && vf_concretize (vf_range ("BLKPG fails", 0, 1))) { kfail--; injected++; errno = EIO; return -1; }
  if (a->op == BLKPG_DEL_PARTITION) { if (n < 1 || n > nkp || !kp[n].present) { errno = ENXIO; return -1; } kp[n].touched++; if (kp[n].busy) { errno = EBUSY; return -1; } kp[n].present = 0; cmds++; return 0; }
  if (n < 1 || n > nkp || (ext_range >= 0 && n >= ext_range) || p->start % 512 || p->length % 512 || p->start < 0 || p->length <= 0) { errno = EINVAL; return -1; }
  long s = p->start / 512, l = p->length / 512;
  if (a->op == BLKPG_ADD_PARTITION) { if (kp[n].present || vf_concretize (k_overlap (n, s, l))) { errno = EBUSY; return -1; } kp[n].present = 1; kp[n].start = s; kp[n].len = l; kp[n].touched++; cmds++; return 0; }
  vf_assert (a->op == BLKPG_RESIZE_PARTITION, "BLKPG command"); if (!kp[n].present) { errno = ENXIO; return -1; } if (vf_concretize (kp[n].start != s)) { errno = EINVAL; return -1; } if (vf_concretize (k_overlap (n, s, l))) { errno = EBUSY; return -1; } if (vf_concretize (kp[n].len != l)) { kp[n].touched++; cmds++; } kp[n].len = l; return 0; }
struct hdgeo { unsigned char heads, sectors; unsigned short cylinders; unsigned long start; };
int sys_ioctl (int fd, unsigned long req, ...) { va_list ap; va_start (ap, req); void *a = va_arg (ap, void *); va_end (ap); F *f = get (fd); if (!f) return -1; if (req == R_FLSBUF) return 0;
  if (req == BLKPG) { vf_assert (f->kind == K_MAIN, "BLKPG is for the device"); return blkpg (a); }
  if (f->kind == K_PART) { int n = f->part; if (n > nkp || !kp[n].present) { errno = ENXIO; return -1; } if (req == 0x0301) { ((struct hdgeo *) a)->start = kp[n].start; return 0; } if (req == R_GETSIZE64) { *(unsigned long long *) a = kp[n].len * 512UL; return 0; } errno = ENOTTY; return -1; }
  if (fail ("ioctl fails")) { errno = vf_concretize (vf_range ("errno", 0, 1)) ? EINVAL : EIO; return -1; }
  switch (req) { case R_GETSIZE: *(unsigned long *) a = nbytes / 512; return 0; case R_GETSIZE64: *(unsigned long long *) a = nbytes; return 0; case R_SSZGET: *(int *) a = ss_; return 0;
  case 0x0301: { struct hdgeo *g = a; g->heads = vf_range ("heads", 0, 255); g->sectors = vf_range ("sectors", 0, 63); g->cylinders = vf_range ("cylinders", 0, 65535); g->start = 0; return 0; }
  case 0x030d: { memset (a, ' ', 512); vf_sym_bytes ((char *) a + 54, 6, "model"); vf_sym_bytes ((char *) a + 54 + 38, 2, "model"); vf_sym_bytes ((char *) a + 212, 2, "sectinfo"); return 0; }
  case 0x5382: ((unsigned *) a)[0] = 1; ((unsigned *) a)[1] = 2; return 0;
  case 1: { unsigned char *u = (unsigned char *) a + 8; memset (u, ' ', 36); vf_sym_bytes (u + 8, 3, "vendor"); vf_sym_bytes (u + 16, 2, "product"); vf_sym_bytes (u + 30, 2, "product"); return 0; } }
  errno = ENOTTY; return -1; }
/* files read through stdio */
typedef struct { int kind, at, part; } SF; static SF sf[8]; static int nsf, sf_open;
static char sysline[8]; static int has_vendor, has_model;
static int ends (const char *p, const char *e) { size_t a = strlen (p), b = strlen (e); return a >= b && !strcmp (p + a - b, e); }
FILE *sys_fopen (const char *p, const char *m) { (void) m; int kind = 0, part = 0; if (!strcmp (p, "/proc/mounts")) kind = 1; else if (!strcmp (p, "/proc/swaps")) kind = 2; else if (!strcmp (p, "/etc/mtab")) kind = 3; else if (ends (p, "/ext_range") && ext_range >= 0) kind = 4; else if (ends (p, "/vendor") || ends (p, "/type")) kind = has_vendor ? 5 : 0; else if (ends (p, "/device/model") || ends (p, "/name")) kind = has_model ? 5 : 0;
  else if (sysfs && (ends (p, "/start") || ends (p, "/size"))) { const char *q = p + strlen (p); while (*q != '/') q--; q--; while (*q != '/') q--; const char *t = path_ + strlen (path_); while (t[-1] != '/') t--; q++; size_t n = strlen (t); vf_assert (!strncmp (q, t, n), "the partition's sysfs entry is read"); q += n; if (*q == 'p') q++; while (*q != '/') part = part * 10 + *q++ - '0'; if (part <= nkp && kp[part].present) kind = ends (p, "/start") ? 6 : 7; }
  if (!kind || nsf >= 8) { errno = ENOENT; return NULL; } if (kind <= 3 && !nmnt) { errno = ENOENT; return NULL; } int i; for (i = 0; i < 8; i++) if (!sf[i].kind) break; vf_assert (i < 8, "open files (harness limit)"); sf[i].kind = kind; sf[i].at = 0; sf[i].part = part; sf_open++; return (FILE *) &sf[i]; }
int sys_fclose (FILE *f) { SF *s = (SF *) f; vf_assert (s->kind, "a file is closed once"); s->kind = 0; sf_open--; return 0; }
char *sys_fgets (char *b, int n, FILE *f) { SF *s = (SF *) f; if (s->kind <= 3) { for (; s->at < nmnt; s->at++) if (mntfile[s->at] == s->kind) { strcpy (b, mnt[s->at]); strcat (b, " x\n"); s->at++; return b; } return NULL; } vf_assert (s->kind == 5 && n > 8, "text file"); if (s->at++) return NULL; memcpy (b, sysline, 4); b[3] = '\n'; b[4] = 0; return b; }
int __isoc23_fscanf (FILE *f, const char *fmt, ...) { va_list ap; va_start (ap, fmt); void *a = va_arg (ap, void *); va_end (ap); SF *s = (SF *) f; if (s->kind == 4) { *(int *) a = ext_range; return 1; } vf_assert (s->kind >= 6, "number file"); *(unsigned long long *) a = s->kind == 6 ? kp[s->part].start : kp[s->part].len; return 1; }
void *sys_opendir (const char *n) { (void) n; return NULL; } void *sys_readdir (void *d) { (void) d; return NULL; } int sys_closedir (void *d) { (void) d; return 0; }
int sys_uname (struct utsname *u) { memset (u, 0, sizeof *u); strcpy (u->release, "5.10.0"); return 0; } int sys_usleep (unsigned n) { (void) n; return 0; } char *sys_getenv (const char *n) { (void) n; return NULL; }
unsigned gnu_dev_major (dev_t d) { return (d >> 8 & 0xfff) | (unsigned) (d >> 32 & ~0xfffu); } unsigned gnu_dev_minor (dev_t d) { return (d & 0xff) | (unsigned) (d >> 12 & ~0xffu); } dev_t gnu_dev_makedev (unsigned a, unsigned b) { return (dev_t) (a & 0xfff) << 8 | (dev_t) (a & ~0xfffu) << 32 | (b & 0xff) | (dev_t) (b & ~0xffu) << 12; }
char *last_component (const char *p) { const char *b = p; for (const char *q = p; *q; q++) if (*q == '/') b = q + 1; return (char *) b; }
int xstrtoll (const char *s, char **e, int b, long long *v, const char *x) { (void) s; (void) e; (void) b; (void) v; (void) x; return 4; }
static int ignored (void); 
static PedDevice *dev_; static void setup (void) { rt_init (); x_policy = vf_param ("policy", XP_SYMBOLIC); mode_ = vf_param ("blk", 0) ? S_IFBLK : S_IFREG; ss_ = vf_param ("ss", 512); nbytes = vf_param ("len", 1000) * (PedSector) ss_; rdev_ = makedev (vf_param ("major", 8), vf_param ("minor", 0)); }
static PedDevice *mk (void) { int b = budget; budget = 0; PedDevice *d = ped_device_get (path_); vf_assert (d != NULL, "device"); budget = b; return d; }
static int any_answer (int a) { for (int i = 0; i < x_count && i < 64; i++) if (x_answers[i] == a) return 1; return 0; }
static int ignored (void) { return any_answer (PED_EXCEPTION_IGNORE); }
/* ---------- C21 ---------- */
static void io (int wr) { setup (); ss_ = vf_param ("ss", 512); PedDevice *d = dev_ = mk (); d->sector_size = d->phys_sector_size = ss_; d->length = vf_param ("big", 0) ? 1L << 41 : 4096; eintr = vf_param ("eintr", 0); fine = vf_param ("fine", 0);
  vf_assert (ped_device_open (d), "open"); if (vf_param ("ro", 0)) d->read_only = 1; int n = vf_param ("count", 2); total = (long) n * ss_; vf_assert (total <= 16384, "harness limit"); for (int i = 0; i < total; i++) pat[i] = i * 37 + (i >> 8) * 11 + 5;
  PedSector at = vf_range ("start", 0, d->length - n); base_ = at * ss_; transfer = 1; budget = vf_param ("faults", 3); x_count = 0; unsigned char *buf = malloc (total + 1); memset (buf, 0xEE, total + 1); int r;
  if (vf_param ("geom", 0)) { PedSector gs = vf_range ("region", 0, d->length - 1); vf_assume (gs <= at); PedGeometry *g = ped_geometry_new (d, gs, at - gs + n); vf_assert (g != NULL, "region"); if (wr) { memcpy (buf, pat, total); r = ped_geometry_write (g, buf, at - gs, n); } else r = ped_geometry_read (g, buf, at - gs, n); }
  else if (wr) { memcpy (buf, pat, total); r = ped_device_write (d, buf, at, n); } else r = ped_device_read (d, buf, at, n);
  vf_assert (x_bug == 0, "no internal error"); int refused = x_count && (x_last_answer == PED_EXCEPTION_CANCEL || x_last_answer == PED_EXCEPTION_UNHANDLED);
  if (!wr) vf_assert (nwrite_ == 0, "reading writes nothing"); else vf_assert (nread_ == 0, "writing reads nothing");
  if (vf_param ("ro", 0) && wr) { vf_assert (nwrite_ == 0, "a read-only device is never written"); vf_assert (x_count == 1 && !!r == ignored (), "writing a read-only device is refused"); vf_reach ("read-only"); return; }
  if (r && !ignored ()) { if (wr) { int all = 1; for (int i = 0; i < total; i++) all &= touched[i]; vf_assert (all, "every requested byte was written"); vf_assert (!memcmp (shadow, pat, total), "the bytes given were written, in their place"); vf_reach ("wrote"); } else { vf_assert (!memcmp (buf, pat, total), "the bytes on the device were returned, in their place"); vf_reach ("read"); } if (injected) vf_reach ("recovered"); }
  if (wr) vf_assert (!memcmp (buf, pat, total), "the caller's buffer is left alone"); vf_assert (buf[total] == (unsigned char) 0xEE, "nothing is stored past the buffer");
  if (!r) { vf_assert (refused, "failure only when the user gives up"); vf_reach ("failed"); } else { vf_assert (!refused, "an error the user does not retry or ignore is reported"); } if (!injected) vf_assert (r && x_count == 0, "a transfer without faults succeeds"); free (buf); int b = vf_heap_bytes (); (void) b; }
static void chk (void) { setup (); ss_ = vf_param ("ss", 512); PedDevice *d = mk (); d->sector_size = d->phys_sector_size = ss_; d->length = 4096; vf_assert (ped_device_open (d), "open"); int n = vf_param ("count", 3); total = (long) n * ss_; for (int i = 0; i < total; i++) pat[i] = i * 37 + (i >> 8) * 11 + 5; PedSector at = vf_range ("start", 0, d->length - n); base_ = at * ss_; transfer = 1; budget = vf_param ("faults", 2); unsigned char *buf = malloc (total); PedSector r = ped_device_check (d, buf, at, n);
  vf_assert (r >= 0 && r <= n, "the number of good sectors"); if (!injected) vf_assert (r == n, "a good region is good"); vf_assert (nwrite_ == 0, "checking writes nothing"); vf_reach (r == n ? "checked" : "bad"); }
static void sync_ (void) { setup (); PedDevice *d = mk (); vf_assert (ped_device_open (d), "open"); budget = vf_param ("faults", 3); int ro = vf_concretize (vf_range ("read-only", 0, 1)), fast = vf_concretize (vf_range ("fast", 0, 1)); d->read_only = ro; nsync_ok = nsync_bad = 0; x_count = 0; int r = fast ? ped_device_sync_fast (d) : ped_device_sync (d); int refused = x_count && (x_last_answer == PED_EXCEPTION_CANCEL || x_last_answer == PED_EXCEPTION_UNHANDLED);
  vf_assert (nwrite_ == 0, "nothing is written"); if (!ro && r && !ignored ()) vf_assert (nsync_ok >= 1, "success means the data was flushed"); vf_assert (!!r == !refused, "a failed flush is reported"); vf_assert (other_open () == 0, "nothing stays open"); vf_reach (r ? "synced" : "sync-failed"); }
/* ---------- C25 ---------- */
static void balance (PedDevice *d, int reopen_failed) { int n = main_open (); if (d->external_mode || d->open_count == 0) vf_assert (n == 0, "a device that is closed, or lent to another program, is not open"); else if (!reopen_failed) vf_assert (n == 1, "an open device is open exactly once"); else vf_assert (n <= 1, "an open device is open at most once"); vf_assert (other_open () == 0, "nothing else stays open"); vf_assert (sf_open == 0, "no file stays open"); }
static void hist (void) { setup (); int n = vf_param ("n", 4); nodes = vf_param ("nodes", 2); long heap0 = 0; PedDevice *d = mk (); balance (d, 0); vf_assert (ped_device_get (path_) == d, "one object per device"); budget = vf_param ("faults", 2); int cnt = 0, ext = 0, bad = 0; unsigned char *b = malloc (ss_); heap0 = vf_heap_bytes ();
  for (int i = 0; i < n; i++) { int op = vf_concretize (vf_range ("op", 0, 7)), r; x_count = 0; if (op == 0) { if (ext) vf_stop (); r = ped_device_open (d); vf_assert (d->open_count == cnt + !!r, "open counts"); if (r) { if (!cnt) { bad = 0; vf_assert (main_open () == 1, "an opened device is open"); } cnt++; } vf_reach (r ? "opened" : "open-failed"); }
    else if (op == 1) { if (ext || !cnt) vf_stop (); ped_device_close (d); cnt--; if (!cnt) bad = 0; vf_assert (d->open_count == cnt, "close counts"); vf_reach ("closed"); }
    else if (op == 2) { if (ext) vf_stop (); r = ped_device_begin_external_access (d); ext = 1; vf_assert (d->external_mode && d->open_count == cnt, "external access keeps the count"); vf_reach ("lent"); }
    else if (op == 3) { if (!ext) vf_stop (); r = ped_device_end_external_access (d); ext = 0; bad = 0; if (!r) { bad = 1; vf_reach ("reopen-failed"); vf_assert (cnt > 0, "only reopening can fail"); } vf_assert (!d->external_mode && d->open_count == cnt, "external access keeps the count"); vf_reach ("returned"); }
    else { if (ext || !cnt) vf_stop (); if (op == 4) { r = ped_device_read (d, b, 0, 1); if (bad) vf_assert (!r || ignored (), "a device that could not be reopened cannot be read"); vf_reach ("read"); } else if (op == 5) { r = ped_device_write (d, b, 0, 1); if (bad) vf_assert (!r || ignored (), "a device that could not be reopened cannot be written"); vf_reach ("written"); } else if (op == 6) { ped_device_sync (d); vf_reach ("synced"); } else { ped_device_is_busy (d); vf_reach ("asked"); } }
    balance (d, bad); }
  if (ext) { budget = 0; ped_device_end_external_access (d); } vf_assert (vf_is_native () || (long) vf_heap_bytes () == heap0, "no memory is kept"); ped_device_destroy (d); vf_assert (main_open () == 0 && other_open () == 0, "destroying a device closes it"); PedDevice *e = ped_device_get_next (NULL); vf_assert (e == NULL, "a destroyed device is forgotten"); vf_reach ("done"); }
static void probe (void) { setup (); has_vendor = vf_concretize (vf_range ("vendor", 0, 1)); has_model = vf_concretize (vf_range ("model", 0, 1)); vf_sym_bytes (sysline, 3, "sysfs"); stat_never_fails = !vf_param ("stat", 0); nodes = 2; budget = vf_param ("faults", 2); if (vf_param ("symlen", 0)) nbytes = vf_range ("size", 0, 1L << 50) ; else nbytes = (PedSector) vf_param ("len", 1000) * ss_; static const char *const names[] = { "/dev/vd", "/dev/nvme0n1", "/dev/pmem0" }; path_ = names[vf_param ("name", 0)];
  PedDevice *d = ped_device_get (path_); vf_assert (main_open () == 0 && other_open () == 0 && sf_open == 0, "probing a device leaves nothing open"); vf_assert (nwrite_ == 0, "probing writes nothing");
  if (!d) { vf_assert (x_count > 0 || nbytes < ss_, "a device that cannot be used is refused with a message"); vf_assert (ped_device_get_next (NULL) == NULL, "a refused device is not remembered"); vf_reach ("refused"); return; }
  vf_assert (d->open_count == 0 && !d->external_mode && !d->dirty && !strcmp (d->path, path_), "a new device is closed"); vf_assert (d->model && strlen (d->model) < 200, "the model is a string"); vf_assert (d->sector_size > 0 && d->sector_size % 512 == 0 && d->phys_sector_size >= d->sector_size, "the sector size"); 
  if (!ignored ()) { vf_assert (d->length > 0, "a device has sectors"); vf_assert (d->length == nbytes / d->sector_size, "the length is the size of the device in sectors"); } vf_assert (d->bios_geom.heads > 0 && d->bios_geom.sectors > 0, "the geometry can be divided by"); if (vf_param ("blk", 0) == 0) vf_assert (d->type == PED_DEVICE_FILE, "a file is a file");
  budget = 0; vf_assert (ped_device_open (d), "open"); vf_assert (main_open () == 1, "opened"); ped_device_close (d); ped_device_destroy (d); vf_assert (main_open () == 0, "closed"); vf_reach ("probed"); }
/* ---------- C29 ---------- */
static long k_start[32], k_len[32]; static int k_was[32], k_busy[32];
static void kernel (void) { setup (); const char *ln = label_names[vf_param ("label", 1)]; stat_never_fails = 1; ss_ = vf_param ("ss", 512); nkp = vf_param ("kparts", 4); ext_range = vf_param ("range", nkp); sysfs = vf_param ("sysfs", 1); nodes = sysfs ? 0 : ~0u; PedDevice *d = mk (); d->type = PED_DEVICE_SCSI; d->sector_size = d->phys_sector_size = ss_; d->length = vf_param ("len", 65536); vf_assert (ped_device_open (d), "open");
  PedDisk *k = ped_disk_new_fresh (d, ped_disk_type_get (ln)); vf_assert (k != NULL, "label"); long f = 512 / 512; (void) f; int u = ss_ / 512; int kind = vf_param ("kind", 0);
  /* a table with symbolic extents */
  PedSector cut[5]; cut[0] = 2048 / u; for (int i = 1; i < 5; i++) cut[i] = 2048 / u + i * (8192 / u); int np = vf_param ("n", 2), num[5];
  for (int i = 0; i < np; i++) { PedSector a = vf_range ("start", cut[i], cut[i] + 2000 / u), l = vf_range ("length", 64 / u + 8, 4000 / u); PedPartitionType ty = kind == 1 && i == np - 1 ? PED_PARTITION_EXTENDED : 0; PedPartition *p = ped_partition_new (k, ty, NULL, a, a + l - 1); vf_assert (p != NULL, "partition"); PedConstraint *c = ped_constraint_exact (&p->geom); vf_assert (ped_disk_add_partition (k, p, c), "add"); ped_constraint_destroy (c); num[i] = p->num; if (ty && vf_param ("logical", 0)) { PedPartition *q = ped_partition_new (k, PED_PARTITION_LOGICAL, NULL, a + 1 + vf_param ("loff", 0), a + 6); vf_assert (q != NULL, "logical"); PedConstraint *e = ped_constraint_exact (&q->geom); if (!ped_disk_add_partition (k, q, e)) vf_stop (); ped_constraint_destroy (e); } }
  if (vf_param ("gap", 0)) { PedPartition *p = ped_disk_get_partition (k, num[0]); vf_assert (ped_disk_delete_partition (k, p), "delete"); }
  /* what the kernel knows already */
  for (int i = 1; i <= nkp; i++) { PedPartition *p = ped_disk_get_partition (k, i); int how = ext_range < 0 || i < ext_range ? vf_concretize (vf_range ("kernel", 0, p ? 3 : 1)) : 0; kp[i].present = how > 0; if (!how) continue; kp[i].busy = vf_concretize (vf_range ("busy", 0, 1)); if (p && how >= 2) { kp[i].start = p->geom.start * u; kp[i].len = how == 2 ? p->geom.length * u : vf_range ("old length", 1, 6000 / u) * u; if (how == 2 && (p->type & PED_PARTITION_EXTENDED)) kp[i].len = (u == 1 ? 2 : 1) * u; } else { kp[i].start = vf_range ("old start", 1, 60000 / u) * u; kp[i].len = vf_range ("old length", 1, 6000 / u) * u; } k_was[i] = 1; k_busy[i] = kp[i].busy; k_start[i] = kp[i].start; k_len[i] = kp[i].len; }
  for (int i = 1; i <= nkp; i++) if (kp[i].present) vf_assume (!k_overlap (i, kp[i].start, kp[i].len));
  kfail = vf_param ("kfail", 0); x_count = 0; cmds = 0; nwrite_ = 0; int r = ped_disk_commit_to_os (k); vf_assert (other_open () == 0 && sf_open == 0, "nothing stays open"); vf_assert (nwrite_ == 0, "telling the kernel writes nothing to the device"); vf_assert (x_bug == 0, "no internal error");
  int lim = ext_range > 1 ? ext_range : ext_range < 0 ? 64 : 0, mx; if (ped_disk_get_max_supported_partition_count (k, &mx) && mx < lim) lim = mx; int lp = !strcmp (ln, "loop"); if (lp) lim = 0; /* the file system on the device itself */
  int right = 1; for (int i = 1; i <= nkp; i++) { PedPartition *p = ped_disk_get_partition (k, i); if (p && i <= lim) { long s = p->geom.start * u, l = p->geom.length * u; if (!kp[i].present || kp[i].start != s) right = 0; else if (p->type & PED_PARTITION_EXTENDED) { if ((kp[i].len < 1 || kp[i].len > 2 * u) && kp[i].len != l) right = 0; for (int j = 1; j <= nkp; j++) { PedPartition *q = ped_disk_get_partition (k, j); if (q && (q->type & PED_PARTITION_LOGICAL) && q->geom.start * u < s + kp[i].len) right = 0; } } else if (kp[i].len != l) right = 0; } else if (kp[i].present && !(lp && p && kp[i].start == p->geom.start * u)) right = 0; }
  for (int i = 1; i <= nkp; i++) { PedPartition *p = ped_disk_get_partition (k, i); if (p && i < lim && k_was[i] && !(p->type & PED_PARTITION_EXTENDED)) vf_assert (!(k_start[i] == p->geom.start * u && k_len[i] == p->geom.length * u) || !kp[i].touched, "a partition that did not change is left alone"); if (k_was[i] && k_busy[i]) vf_assert (kp[i].present && kp[i].start == k_start[i], "a partition in use keeps its place in the kernel"); }
  if (r && !ignored ()) { vf_assert (right, "success means the kernel knows exactly the table"); vf_reach (cmds ? "told" : "nothing to tell"); } else { vf_assert (x_count > 0, "failure is reported"); if (!r) vf_reach ("not told"); else vf_reach ("ignored"); } }
static void busy (void) { setup (); stat_never_fails = 1; nodes = 0xFE; PedDevice *d = mk (); d->type = PED_DEVICE_SCSI; d->length = 65536; vf_assert (ped_device_open (d), "open"); PedDisk *k = ped_disk_new_fresh (d, ped_disk_type_get ("msdos")); vf_assert (k != NULL, "label"); int np = 0; PedPartition *pp[4]; static const long at[] = { 2048, 8192, 16384 }; for (int i = 0; i < 3; i++) { PedPartition *p = ped_partition_new (k, i == 1 ? PED_PARTITION_EXTENDED : 0, NULL, at[i], at[i] + 4095); PedConstraint *c = ped_constraint_exact (&p->geom); vf_assert (ped_disk_add_partition (k, p, c), "add"); ped_constraint_destroy (c); pp[np++] = p; } PedPartition *lo = ped_partition_new (k, PED_PARTITION_LOGICAL, NULL, 9000, 9999); PedConstraint *c = ped_constraint_exact (&lo->geom); vf_assert (ped_disk_add_partition (k, lo, c), "add"); ped_constraint_destroy (c); pp[np++] = lo;
  nmnt = vf_param ("n", 2); for (int i = 0; i < nmnt; i++) { snprintf (mnt[i], 16, "/m%d", i); mntdev[i] = rdev_ + vf_concretize (vf_range ("mounted", 0, 7)); mntfile[i] = vf_concretize (vf_range ("list", 1, 3)); mntbad[i] = vf_concretize (vf_range ("stale", 0, 1)); }
  int m[8] = { 0 }; for (int i = 0; i < nmnt; i++) if (!mntbad[i]) m[mntdev[i] - rdev_] = 1; for (int i = 0; i < np; i++) { int want = m[pp[i]->num]; if (pp[i]->type & PED_PARTITION_EXTENDED) want |= m[lo->num]; vf_assert (!!ped_partition_is_busy (pp[i]) == want, "a partition is busy exactly when it, or one inside it, is mounted or swapped on"); vf_reach (want ? "busy" : "idle"); }
  int anym = 0; for (int i = 0; i < 8; i++) anym |= m[i]; vf_assert (!!ped_device_is_busy (d) == anym || m[0] || 1, "device"); int db = !!ped_device_is_busy (d); int blk = S_ISBLK (mode_); int want = blk && m[0]; for (int i = 1; i < 8; i++) want |= m[i]; vf_assert (db == want, "a device is busy exactly when it or one of its partitions is"); vf_assert (sf_open == 0, "no file stays open"); }
void vf_main (void) { switch (vf_case ()) { case 0: io (0); break; case 1: io (1); break; case 2: chk (); break; case 3: sync_ (); break; case 4: hist (); break; case 5: probe (); break; case 6: kernel (); break; case 7: busy (); break; } }
