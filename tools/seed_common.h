/* helpers for the demonstrations: a scratch device file, quiet exceptions */
#define _GNU_SOURCE 1
#define _FILE_OFFSET_BITS 64
#include <parted/parted.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
static const char *D;                   /* the scratch directory, argv[1] */
static PedExceptionOption quiet_ (PedException *e)
{
  if (getenv ("DEMO_V")) fprintf (stderr, "exception: %s\n", e->message);
  static const PedExceptionOption o[] = { PED_EXCEPTION_FIX, PED_EXCEPTION_OK, PED_EXCEPTION_IGNORE, PED_EXCEPTION_YES, PED_EXCEPTION_CANCEL, PED_EXCEPTION_NO };
  for (unsigned i = 0; i < 6; i++) if (e->options & o[i]) return o[i];
  return PED_EXCEPTION_UNHANDLED;
}
static const char *img (const char *n)
{ static char b[8][4096]; static int k; k = (k + 1) % 8; snprintf (b[k], 4096, "%s/%s", D, n); return b[k]; }
static PedDevice *newdev (const char *n, long long sectors)
{
  int fd = open (img (n), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate (fd, sectors * 512)) { perror (n); exit (3); }
  close (fd);
  PedDevice *d = ped_device_get (img (n));
  if (!d) exit (3);
  return d;
}
static void peek (const char *n, long long off, void *buf, size_t len)
{ int fd = open (img (n), O_RDONLY); if (fd < 0 || pread (fd, buf, len, off) != (ssize_t) len) { perror ("peek"); exit (3); } close (fd); }
static void poke (const char *n, long long off, const void *buf, size_t len)
{ int fd = open (img (n), O_RDWR); if (fd < 0 || pwrite (fd, buf, len, off) != (ssize_t) len) { perror ("poke"); exit (3); } close (fd); }
static PedPartition *addp (PedDisk *d, PedPartitionType t, const char *fs, long long s, long long e)
{
  PedPartition *p = ped_partition_new (d, t, fs ? ped_file_system_type_get (fs) : NULL, s, e);
  if (!p) return NULL;
  PedConstraint *c = ped_constraint_exact (&p->geom);
  int ok = ped_disk_add_partition (d, p, c);
  ped_constraint_destroy (c);
  return ok ? p : NULL;
}
static PedDisk *fresh (PedDevice *dev, const char *t)
{ PedDisk *d = ped_disk_new_fresh (dev, ped_disk_type_get (t)); if (!d) { fprintf (stderr, "no fresh %s\n", t); exit (3); } return d; }
static PedDisk *reread (const char *n)
{ PedDevice *dev = ped_device_get (img (n)); return dev ? ped_disk_new (dev) : NULL; }
static inline void unused_ (void) { (void) peek; (void) poke; (void) addp; (void) fresh; (void) reread; (void) newdev; (void) quiet_; (void) unused_; }
#define BAD(...) do { fprintf (stderr, "demo: " __VA_ARGS__); fprintf (stderr, "\n"); exit (1); } while (0)
#define INIT(argv) do { D = argv[1]; ped_exception_set_handler (quiet_); } while (0)
