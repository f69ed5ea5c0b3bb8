#ifndef RT_H
#define RT_H
#include <config.h>
#include <parted/parted.h>
#include <parted/endian.h>
#include "vf.h"
/* ---- virtual device ---- */
#define VD_MAXSEC 3000
#define VD_MAXLOG 600
#define VD_MAXDEV 4
enum { VBG_ZERO, VBG_SYM, VBG_FILL };
typedef struct { char kind; PedSector start, count; } VLog; /* R W S(ync) F(sync_fast) O C */
typedef struct {
  PedDevice *dev; char path[24];
  PedSector length; int ss, phys;
  int bg; unsigned char fill;
  struct { PedSector lba; unsigned char *data; } sec[VD_MAXSEC]; int nsec;
  VLog log[VD_MAXLOG]; int nlog;
  int opened;            /* balance of open/close */
  int nread, nwrite;     /* calls */
  int oob_reads, oob_writes, closed_io;
  long crash_after;      /* >=0: sector writes beyond this many are lost */
  long sectors_written;
  long fail_read_at, fail_write_at; /* fail the n-th read/write call (-1: never) */
  PedSector bad_sector;  /* reads covering it fail (-1: none) */
  int ro;                /* assert no writes at all */
  int hw_c, hw_h, hw_s, bios_c, bios_h, bios_s;
  long align_off, align_grain; /* 0: none */
} VDev;
extern VDev vd[VD_MAXDEV];
extern int vd_n;
/* create a device reachable as ped_device_get("/vdN"); returns the PedDevice */
extern PedDevice *vd_create (PedSector length, int ss);
extern VDev *vd_of (const PedDevice *d);
extern unsigned char *vd_sector (VDev *v, PedSector lba); /* materialise for direct access */
extern unsigned char *vd_peek (VDev *v, PedSector lba);   /* NULL when untouched background */
extern void vd_clear_log (VDev *v);
/* copy the contents of one device onto another of same geometry */
extern void vd_clone (VDev *dst, VDev *src);
/* geometry used by the next vd_create */
extern int vd_geom_mode;
/* ---- exceptions ---- */
enum { XP_CANCEL, XP_FIX, XP_UNHANDLED, XP_SYMBOLIC, XP_IGNORE };
extern int x_policy;
extern int x_count, x_fatal, x_bug, x_last_type, x_last_opts, x_last_answer, x_warn, x_err;
extern int x_types[64], x_opts[64], x_answers[64];
extern void rt_init (void);
extern int rt_sym_print;
#endif
