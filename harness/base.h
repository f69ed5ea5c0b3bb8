#ifndef BASE_H
#define BASE_H
static void base (int b) { /* concrete starting tables; refused additions are simply absent */
  PedSector L = d->length, u = L / 32;
  if (b == 0) return;
  if (!ped_disk_type_check_feature (k->type, PED_DISK_TYPE_EXTENDED)) {
    if (b >= 1) add_any (k, 0, 4 * u, 6 * u - 1);
    if (b >= 2) add_any (k, 0, 12 * u, 16 * u - 1);
    if (b >= 3) { add_any (k, 0, 20 * u, 22 * u - 1); add_any (k, 0, 22 * u, 24 * u - 1); }
    if (b == 3) { PedPartition *p = nth_active (k, 1); if (p) { vf_assert (ped_disk_delete_partition (k, p), "delete"); } }
    if (b == 4 || b == 5) { for (int i = 0; i < (b == 4 ? 8 : 22); i++) add_any (k, 0, 24 * u + i * (u / 4), 24 * u + (i + 1) * (u / 4) - 1); }
    return; }
  if (!strcmp (k->type->name, "dvh") && b > 1) { /* the volume header is created with the label, over the first 4096 sectors */
    add_any (k, 0, 18 * u, 20 * u - 1); int n = b == 2 ? 1 : b == 3 ? 3 : b == 4 ? 8 : 15; for (int i = 0; i < n; i++) add_any (k, PED_PARTITION_LOGICAL, 60 + i * 250, 60 + i * 250 + 199);
    for (int i = 0; i < b - 2; i++) add_any (k, 0, 22 * u + i * u, 22 * u + i * u + 300); return; }
  if (b == 1) { add_any (k, 0, 4 * u, 6 * u - 1); add_any (k, 0, 20 * u, 22 * u - 1); }
  if (b >= 2) { add_any (k, 0, 2 * u, 4 * u - 1); add_any (k, PED_PARTITION_EXTENDED, 8 * u, 28 * u - 1); add_any (k, PED_PARTITION_LOGICAL, 10 * u, 12 * u - 1); }
  if (b >= 3) { add_any (k, PED_PARTITION_LOGICAL, 16 * u, 18 * u - 1); add_any (k, PED_PARTITION_LOGICAL, 20 * u, 22 * u - 1); }
  if (b == 5) { add_any (k, 0, 4 * u, 5 * u - 1); add_any (k, 0, 5 * u, 6 * u - 1); for (int i = 0; i < 15; i++) add_any (k, PED_PARTITION_LOGICAL, 22 * u + i * 300 + 100, 22 * u + i * 300 + 299); }
  if (b == 4) { add_any (k, 0, 4 * u, 5 * u - 1); add_any (k, 0, 30 * u, 31 * u - 1); add_any (k, PED_PARTITION_LOGICAL, 13 * u, 14 * u - 1); } }
#endif
