/* C24: the GPT checksum. */
#include "rt.h"
extern uint32_t __efi_crc32 (const void *buf, unsigned long len, uint32_t seed);
static uint32_t bitstep (uint32_t c, uint8_t b) { c ^= b; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); return c; }
static uint32_t tab[256];
static uint32_t ref (const uint8_t *p, size_t n, uint32_t c) { for (size_t i = 0; i < n; i++) c = tab[(c ^ p[i]) & 0xff] ^ (c >> 8); return c; }
void vf_main (void) {
  rt_init (); for (int i = 0; i < 256; i++) tab[i] = bitstep (0, i);
  switch (vf_case ()) {
  case 0: { uint8_t b; vf_sym_bytes (&b, 1, "b"); uint32_t s = vf_sym ("seed", 32); vf_assert (__efi_crc32 (&b, 1, s) == bitstep (s, b), "one byte: table step equals eight bitwise steps"); vf_assert (ref (&b, 1, s) == bitstep (s, b), "reference table is right"); vf_reach ("step"); break; }
  case 1: { int n = vf_concretize (vf_range ("n", 0, vf_param ("max", 40))); uint8_t *p = malloc (n ? n : 1); if (n) vf_sym_bytes (p, n, "p"); uint32_t s = vf_sym ("seed", 32); vf_assert (__efi_crc32 (p, n, s) == ref (p, n, s), "checksum of a buffer is the fold of the byte step over all its bytes"); vf_reach ("fold"); break; }
  case 2: { static const char k[] = "123456789"; vf_assert ((__efi_crc32 (k, 9, ~0u) ^ ~0u) == 0xCBF43926u, "check value of CRC-32"); vf_assert ((__efi_crc32 (k, 0, ~0u) ^ ~0u) == 0, "empty buffer"); vf_reach ("check"); break; }
  case 3: { /* what a commit writes carries the right checksums */
    PedDevice *d = vd_create (vf_param ("len", 4096), vf_param ("ss", 512)); int ss = d->sector_size; PedDisk *k = ped_disk_new_fresh (d, ped_disk_type_get ("gpt")); int np = vf_range ("np", 0, 3); np = vf_concretize (np); int num = vf_param ("entries", 128);
    for (int i = 0; i < np; i++) { PedPartition *p = ped_partition_new (k, 0, NULL, 200 + i * 50, 230 + i * 50); PedConstraint *c = ped_constraint_exact (&p->geom); vf_assert (ped_disk_add_partition (k, p, c) == 1, "add"); ped_constraint_destroy (c); ped_partition_set_name (p, "name"); }
    vf_assert (ped_disk_commit_to_dev (k) == 1, "commit"); VDev *v = vd_of (d);
    for (int j = 0; j < 2; j++) { PedSector at = j ? d->length - 1 : 1; uint8_t *h = vd_peek (v, at); vf_assert (h && !memcmp (h, "EFI PART", 8), "header present"); uint32_t hs = h[12] | h[13] << 8; vf_assert (hs == 92, "header size");
      uint8_t t[512]; memcpy (t, h, hs); uint32_t stored = t[16] | t[17] << 8 | t[18] << 16 | (uint32_t) t[19] << 24; memset (t + 16, 0, 4); vf_assert ((ref (t, hs, ~0u) ^ ~0u) == stored, "the stored header checksum is the CRC-32 of the header");
      uint64_t el = 0; for (int i = 7; i >= 0; i--) el = el << 8 | h[72 + i]; uint32_t ne = h[80] | h[81] << 8, es = h[84] | h[85] << 8; vf_assert (ne == num && es == 128, "entry array shape");
      uint32_t c = ~0u; PedSector lba = el; for (size_t left = (size_t) ne * es; left; lba++) { uint8_t *q = vd_peek (v, lba); size_t n = left < (size_t) ss ? left : ss; vf_assert (q != NULL, "entry array written"); c = ref (q, n, c); left -= n; }
      uint32_t se = h[88] | h[89] << 8 | h[90] << 16 | (uint32_t) h[91] << 24; vf_assert ((c ^ ~0u) == se, "the stored entry array checksum is the CRC-32 of the array"); vf_log ("crc", se); vf_log ("hcrc", stored); }
    vf_reach ("disk"); break; }
  } }
