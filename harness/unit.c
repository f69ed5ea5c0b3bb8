/* C20 units: conversion between text and sectors. */
#include "rt.h"
extern int rt_sym_print __attribute__ ((weak));
static PedDevice *d; static const char *UN[] = { "s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB" };
static long long usize (int u) { /* bytes per unit, from the documentation of the unit */
  static const long long k = 1000, ki = 1024; long long ss = d->sector_size;
  switch (u) { case PED_UNIT_SECTOR: case PED_UNIT_CHS: return ss; case PED_UNIT_BYTE: return 1; case PED_UNIT_KILOBYTE: return k; case PED_UNIT_MEGABYTE: return k * k; case PED_UNIT_GIGABYTE: return k * k * k; case PED_UNIT_TERABYTE: return k * k * k * k;
  case PED_UNIT_KIBIBYTE: return ki; case PED_UNIT_MEBIBYTE: return ki * ki; case PED_UNIT_GIBIBYTE: return ki * ki * ki; case PED_UNIT_TEBIBYTE: return ki * ki * ki * ki;
  case PED_UNIT_CYLINDER: return (long long) d->bios_geom.heads * d->bios_geom.sectors * ss; case PED_UNIT_PERCENT: return d->length * ss / 100; } return 0; }
static void dev (void) { int ss = vf_param ("ss", 512); PedSector len = vf_param ("len", 2000000); d = vd_create (len, ss); vf_assert (d != NULL, "device"); d->bios_geom.heads = vf_param ("heads", 255); d->bios_geom.sectors = vf_param ("spt", 63); d->bios_geom.cylinders = len / (d->bios_geom.heads * d->bios_geom.sectors); d->hw_geom = d->bios_geom; x_policy = XP_CANCEL; if (&rt_sym_print) rt_sym_print = 1; }
static int isiec (int u) { return u == PED_UNIT_KIBIBYTE || u == PED_UNIT_MEBIBYTE || u == PED_UNIT_GIBIBYTE || u == PED_UNIT_TEBIBYTE; }
static void okres (PedSector s, PedGeometry *g) { /* every accepted location lies on the device and inside its range */
  vf_assert (s >= 0 && s < d->length, "an accepted location is on the device"); if (g) { vf_assert (g->start >= 0 && g->end < d->length && g->start <= g->end && g->length == g->end - g->start + 1 && g->dev == d, "the range is on the device"); vf_assert (g->start <= s && s <= g->end, "the range contains the location"); } }
static void badres (PedSector s, PedGeometry *g, int ec) { vf_assert (s == 0 && g == NULL, "refused text yields no location"); vf_assert (x_count == ec + 1 && x_last_type == PED_EXCEPTION_ERROR, "refused text is reported once"); }
/* printed locations read back */
static void back (int u) { PedSector s = vf_range ("sector", vf_param ("lo", 0), vf_param ("hi", d->length - 1)); char *t = ped_unit_format_custom (d, s, u); vf_assert (t != NULL, "formatting succeeds");
  PedSector r = -1; PedGeometry *g = NULL; int du = vf_concretize (vf_range ("dflt", 0, 1)) ? PED_UNIT_MEGABYTE : PED_UNIT_COMPACT; int ok = ped_unit_parse_custom (t, d, du, &r, &g); vf_assert (ok, "a printed location parses"); okres (r, g);
  long long us = usize (u), ss = d->sector_size;
  if (u == PED_UNIT_CYLINDER) { PedSector cyl = us / ss; vf_assert (r == s / cyl * cyl, "a printed cylinder parses to its first sector"); vf_reach ("back-cyl"); }
  else { vf_assert (r == s, "a printed location parses to the same sector"); if (u == PED_UNIT_CHS || u == PED_UNIT_SECTOR) vf_assert (g->length == 1, "an exact location has a range of one sector"); vf_reach (u == PED_UNIT_CHS ? "back-chs" : "back-linear"); }
  ped_geometry_destroy (g); free (t); }
/* byte positions: what is printed is the number of whole units */
static void bytes_ (int u) { PedSector b = vf_range ("byte", 0, d->length * d->sector_size - 1); char *t = ped_unit_format_custom_byte (d, b, u); vf_assert (t != NULL, "formatting succeeds"); long long us = usize (u), v = 0; char *p = t; int n = 0; while (*p >= '0' && *p <= '9') { v = v * 10 + (*p & 15); p++; n++; }
  vf_assert (n > 0 && !strcmp (p, UN[u]), "a number and the unit's name are printed"); vf_assert (v == b / us, "the number of whole units is printed"); vf_assert (n == 1 || t[0] != '0', "no leading zero"); vf_reach ("whole"); free (t); }
/* sizes and names of all units */
static void sizes (void) { d->bios_geom.heads = vf_range ("heads", 1, 255); d->bios_geom.sectors = vf_range ("spt", 1, 63); d->length = vf_range ("len", 1, 1LL << 40); int u = vf_concretize (vf_range ("u", 0, 13)); int ec = x_count;
  long long z = ped_unit_get_size (d, u); if (u == PED_UNIT_COMPACT) { vf_assert (z == 0 && x_count == ec + 1, "compact has no size"); } else vf_assert (z == usize (u) && x_count == ec, "unit size");
  vf_assert (!strcasecmp (ped_unit_get_name (u), UN[u]), "unit name"); char nm[12]; strcpy (nm, UN[u]); for (char *p = nm; *p; p++) if (vf_concretize (vf_range ("case", 0, 1))) { if (*p >= 'a' && *p <= 'z') *p -= 32; else if (*p >= 'A' && *p <= 'Z') *p += 32; }
  vf_assert ((int) ped_unit_get_by_name (nm) == u, "a unit is found by its name in any case"); ped_unit_set_default (u); vf_assert ((int) ped_unit_get_default () == u, "the default unit is kept"); vf_reach ("size"); }
/* a number with a unit */
static int suffix (int k, char *t) { static const struct { const char *s; int u; } S[] = { { "s", PED_UNIT_SECTOR }, { "B", PED_UNIT_BYTE }, { "kB", PED_UNIT_KILOBYTE }, { "MB", PED_UNIT_MEGABYTE }, { "GB", PED_UNIT_GIGABYTE }, { "TB", PED_UNIT_TERABYTE }, { "cyl", PED_UNIT_CYLINDER }, { "%", PED_UNIT_PERCENT }, { "kiB", PED_UNIT_KIBIBYTE }, { "MiB", PED_UNIT_MEBIBYTE }, { "GiB", PED_UNIT_GIBIBYTE }, { "TiB", PED_UNIT_TEBIBYTE }, { "K", PED_UNIT_KILOBYTE }, { "m", PED_UNIT_MEGABYTE }, { "gi", PED_UNIT_GIBIBYTE }, { "c", PED_UNIT_CYLINDER } };
  if (k >= 16) { *t = 0; return -1; } strcpy (t, S[k].s); return S[k].u; }
static void number (void) { char t[40], *p = t; int k = vf_param ("sfx", 0), nd = vf_param ("digits", 4), neg = vf_param ("neg", 0), fr = vf_param ("frac", 0), sp = vf_param ("space", 0); long long m = 0, den = 1; if (sp & 2) { *p++ = ' '; *p++ = ' '; } if (neg) *p++ = '-';
  for (int i = 0; i < nd; i++) { int c = vf_range ("digit", '0', '9'); *p++ = c; m = m * 10 + (c & 15); } if (fr) { *p++ = '.'; for (int i = 0; i < fr; i++) { int c = vf_range ("digit", '0', '9'); *p++ = c; m = m * 10 + (c & 15); den *= 10; } }
  if (sp & 1) *p++ = ' '; int u = suffix (k, p); if (sp & 4) { size_t l = strlen (p); if (l > 1) { memmove (p + 2, p + 1, l); p[1] = ' '; } strcat (p, "  "); } int dflt = vf_param ("dflt", PED_UNIT_MEGABYTE); ped_unit_set_default (vf_param ("default", PED_UNIT_COMPACT)); if (u < 0) { u = dflt; if (u == PED_UNIT_COMPACT) { u = vf_param ("default", PED_UNIT_COMPACT); if (u == PED_UNIT_COMPACT) u = PED_UNIT_MEGABYTE; } }
  int wr = vf_param ("range", 1); PedSector s = -1; PedGeometry *g = NULL; int ec = x_count; int ok = ped_unit_parse_custom (t, d, dflt, &s, wr ? &g : NULL);
  long long us = usize (u), ss = d->sector_size; long long q = m * us / den / ss; /* whole sectors */ if (neg) q = d->length - q; long long rad = isiec (u) ? 0 : (us + ss - 1) / ss / 2 - 1; if (rad < 0) rad = 0;
  if (!neg && m > 0 && m < den) { vf_assert (!ok, "a fraction of one unit is refused"); badres (s, g, ec); vf_reach ("small"); return; }
  if (ok) { okres (s, g); long long c = q < 0 ? 0 : q > d->length - 1 ? d->length - 1 : q; if (fr) vf_assert (s - c <= 1 && c - s <= 1, "a number with a unit parses to its sector"); else vf_assert (s == c, "a number with a unit parses to its sector");
    if (wr) { vf_assert (q - rad <= d->length - 1 + !!fr && q + rad >= 0 - !!fr, "only locations within half a unit of the device are accepted"); long long slack = fr ? 1 : 0, lo = q - rad, hi = q + rad; if (lo < 0) lo = 0; if (lo > d->length - 1) lo = d->length - 1; if (hi > d->length - 1) hi = d->length - 1; if (hi < 0) hi = 0;
      vf_assert (g->start - lo <= slack && lo - g->start <= slack && g->end - hi <= slack && hi - g->end <= slack, "the range reaches half a unit to each side, within the device"); }
    vf_reach ("number"); if (g) ped_geometry_destroy (g); }
  else { vf_assert (wr, "without a range every number is accepted"); vf_assert (q - rad >= d->length - 1 - !!fr || q + rad <= 0 + !!fr, "a location on the device is accepted"); badres (s, g, ec); vf_reach ("outside"); } }
/* cylinder,head,sector text with any digits */
static void chs (void) { char t[40], *p = t; int n[3] = { vf_param ("nc", 4), vf_param ("nh", 3), vf_param ("ns", 2) }; long long v[3]; const char *sep = vf_param ("sep", 0) ? "/:" : ",,"; for (int f = 0; f < 3; f++) { v[f] = 0; for (int i = 0; i < n[f]; i++) { int c = vf_range ("digit", '0', '9'); *p++ = c; v[f] = v[f] * 10 + (c & 15); } if (f < 2) *p++ = sep[f]; } *p = 0;
  PedSector s = -1; PedGeometry *g = NULL; int ec = x_count; int ok = ped_unit_parse_custom (t, d, PED_UNIT_MEGABYTE, &s, &g); long long h = d->bios_geom.heads, sp = d->bios_geom.sectors, q = (v[0] * h + v[1]) * sp + v[2]; int good = v[1] < h && v[2] < sp && q < d->length;
  vf_assert (!!ok == good, "a CHS location is accepted exactly when head and sector are below the geometry's and it is on the device"); if (ok) { vf_assert (s == q && g->start == q && g->length == 1, "a CHS location is the sector it names"); vf_reach ("chs"); ped_geometry_destroy (g); } else { badres (s, g, ec); vf_reach ("chs-refused"); } }
/* any text */
static void any (void) { char t[24]; int n = vf_param ("n", 4); const char *pre = vf_param ("pre", 0) == 1 ? "9999999999" : vf_param ("pre", 0) == 2 ? "-" : vf_param ("pre", 0) == 3 ? "9999999999999" : ""; strcpy (t, pre); int o = strlen (pre); for (int i = 0; i < n; i++) { t[o + i] = vf_range ("ch", vf_param ("clo", 1), vf_param ("chi", 126)); } t[o + n] = 0;
  char keep[24]; memcpy (keep, t, sizeof t); size_t heap = vf_heap_bytes (); PedSector s = -1; PedGeometry *g = NULL; int ec = x_count; int ok = ped_unit_parse_custom (t, d, PED_UNIT_MEGABYTE, &s, &g); vf_assert (!memcmp (keep, t, sizeof t), "the text is not modified");
  if (ok) { okres (s, g); int dg = 0; for (int i = 0; t[i]; i++) if (t[i] >= '0' && t[i] <= '9') dg = 1; vf_assert (dg, "text without a digit is refused"); ped_geometry_destroy (g); vf_reach ("any-ok"); } else { badres (s, g, ec); vf_reach ("any-bad"); } vf_assert (vf_heap_bytes () == heap, "parsing leaks nothing"); }
void vf_main (void) { rt_init (); dev (); switch (vf_case ()) { case 0: back (vf_param ("u", 8)); break; case 1: sizes (); break; case 2: bytes_ (vf_param ("u", 0)); break; case 3: number (); break; case 4: chs (); break; case 5: any (); break; } }
