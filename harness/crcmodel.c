/* CRC model for tables with symbolic contents (C24 decides the real function).
   Concrete data: the real CRC.  Symbolic data: a fresh value, equal to an earlier
   one exactly when length and bytes are equal (checksum collisions are outside the claims
   that use this model). */
#include "rt.h"
#define NM 40
static struct { unsigned long n; unsigned char *c; uint32_t v; } memo[NM]; static int nm;
static uint32_t crcreal (const unsigned char *b, unsigned long n, uint32_t c) { static uint32_t t[256]; if (!t[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t r = i; for (int k = 0; k < 8; k++) r = r & 1 ? r >> 1 ^ 0xEDB88320u : r >> 1; t[i] = r; } for (unsigned long i = 0; i < n; i++) c = t[(c ^ b[i]) & 255] ^ c >> 8; return c; }
static unsigned long word (const unsigned char *p) { unsigned long w; memcpy (&w, p, 8); return w; }
static unsigned long differs (const unsigned char *a, const unsigned char *b, unsigned long n) { unsigned long d = 0, i = 0; for (; i + 8 <= n; i += 8) d |= word (a + i) ^ word (b + i); for (; i < n; i++) d |= a[i] ^ b[i]; return d; }
uint32_t __efi_crc32 (const void *buf, unsigned long len, uint32_t seed) {
  uint32_t v = (uint32_t) vf_sym ("crc", 32); if (vf_is_native ()) return v; len = vf_concretize (len); vf_assume (len <= 65536); /* bound: arrays up to 64 KiB */
  int sym = vf_is_symbolic (seed); const unsigned char *b = buf; unsigned long i = 0; for (; !sym && i + 8 <= len; i += 8) sym = vf_is_symbolic (word (b + i)); for (; !sym && i < len; i++) sym = vf_is_symbolic (b[i]);
  int known = -1; for (int k = 0; k < nm; k++) if (memo[k].n != len) vf_assume (v != memo[k].v); else { unsigned long d = differs (memo[k].c, b, len); if (!vf_is_symbolic (d)) { if (d == 0) known = k; else vf_assume (v != memo[k].v); } else vf_assume ((d == 0) == (v == memo[k].v)); }
  if (known >= 0) { vf_assume (v == memo[known].v); return memo[known].v; }
  if (!sym) { uint32_t r = crcreal (b, len, seed); vf_assume (v == r); v = r; }
  vf_assert (nm < NM, "crc model: too many checksums (harness limit)"); memo[nm].n = len; memo[nm].c = malloc (len ? len : 1); memcpy (memo[nm].c, b, len); memo[nm].v = v; nm++; return v; }
