/* C01 / C02: rounding, alignment, alignment intersection. */
#include "rt.h"
static PedDevice dev;
static int aligned (const PedAlignment *a, PedSector s) { /* reference: grain > 0 */
  PedSector d = s - a->offset; return d % a->grain_size == 0; }
static void rounding (PedSector g, int bits) {
  /* every sector is q*g + r with 0 <= r < g */
  PedSector lim = (1ll << bits) / g;
  PedSector q = vf_range ("q", -lim, lim), r = vf_range ("r", 0, g - 1), s = q * g + r;
  PedSector d = ped_round_down_to (s, g), u = ped_round_up_to (s, g), n = ped_round_to_nearest (s, g);
  vf_log ("down", d); vf_log ("up", u); vf_log ("near", n);
  vf_assert (d == q * g, "round_down_to is the largest multiple not above the sector");
  vf_assert (u == (r ? q * g + g : q * g), "round_up_to is the smallest multiple not below the sector");
  PedSector dn = n - s; if (dn < 0) dn = -dn;
  vf_assert (n == q * g || n == q * g + g, "round_to_nearest returns a neighbouring multiple");
  vf_assert (dn <= r && dn <= g - r, "round_to_nearest returns the closest multiple");
  vf_reach ("rounding");
}
static void rounding_symgrain (void) {
  PedSector g = vf_concretize (vf_range ("g", 1, vf_param ("gmax", 40))), s = vf_range ("s", -2000, 2000);
  PedSector d = ped_round_down_to (s, g), u = ped_round_up_to (s, g), n = ped_round_to_nearest (s, g);
  vf_assert (d <= s && s - d < g && d % g == 0, "round_down_to is the largest multiple not above the sector");
  vf_assert (u >= s && u - s < g && u % g == 0, "round_up_to is the smallest multiple not below the sector");
  PedSector dn = n > s ? n - s : s - n;
  vf_assert (n % g == 0 && dn <= s - d && dn <= d + g - s, "round_to_nearest returns the closest multiple");
  vf_reach ("rounding_symgrain");
}
/* align: k-th aligned sector is off + k*g.  geom [gs, ge]. */
static void align (PedSector g, int bits) {
  dev.length = 1ll << bits;
  PedSector off = vf_range ("off", 0, g - 1);
  PedSector gs = vf_range ("gs", 0, (1 << bits) - 1), len = vf_range ("len", 1, (1 << bits));
  PedSector ge = gs + len - 1; vf_assume (ge < dev.length);
  PedSector s = vf_range ("s", -4 * g, (1ll << bits) + 4 * g);
  PedAlignment a; PedGeometry geom; 
  vf_assert (ped_alignment_init (&a, off, g) == 1, "alignment_init accepts a positive grain");
  vf_assert (a.offset == off && a.grain_size == g, "alignment_init keeps offset and grain");
  vf_assert (ped_geometry_init (&geom, &dev, gs, len) == 1, "geometry_init accepts a geometry inside the device");
  int op = vf_range ("op", 0, 2); PedSector w = vf_range ("w", -4 * g, (1ll << bits) + 4 * g); /* any other aligned sector */
  int w_in = w >= gs && w <= ge && aligned (&a, w);
  if (op == 0) {
    PedSector u = ped_alignment_align_up (&a, &geom, s); vf_log ("up", u);
    if (u == -1) { vf_assert (!w_in, "align_up fails only when the geometry holds no aligned sector"); vf_reach ("up-none"); }
    else { vf_assert (u >= gs && u <= ge && aligned (&a, u), "align_up result is aligned and inside the geometry");
      vf_assert (!(w_in && w >= s && (u < s || w < u)), "align_up returns the first aligned sector at or above");
      vf_assert (!(w_in && u < s && w > u), "align_up otherwise returns the last aligned sector of the geometry"); }
    PedSector un = ped_alignment_align_up (&a, NULL, s);
    vf_assert (un >= s && un - s < g && aligned (&a, un), "align_up without geometry is the next aligned sector");
  } else if (op == 1) {
    PedSector d = ped_alignment_align_down (&a, &geom, s); vf_log ("down", d);
    if (d == -1) { vf_assert (!w_in, "align_down fails only when the geometry holds no aligned sector"); vf_reach ("down-none"); }
    else { vf_assert (d >= gs && d <= ge && aligned (&a, d), "align_down result is aligned and inside the geometry");
      vf_assert (!(w_in && w <= s && (d > s || w > d)), "align_down returns the last aligned sector at or below");
      vf_assert (!(w_in && d > s && w < d), "align_down otherwise returns the first aligned sector of the geometry"); }
    PedSector dn = ped_alignment_align_down (&a, NULL, s);
    vf_assert (dn <= s && s - dn < g && aligned (&a, dn), "align_down without geometry is the previous aligned sector");
  } else {
    PedSector n = ped_alignment_align_nearest (&a, &geom, s); vf_log ("near", n);
    if (n == -1) vf_assert (!w_in, "align_nearest fails only when the geometry holds no aligned sector");
    else { vf_assert (n >= gs && n <= ge && aligned (&a, n), "align_nearest result is aligned and inside the geometry");
      PedSector dn = n > s ? n - s : s - n, dw = w > s ? w - s : s - w;
      vf_assert (!(w_in && dw < dn), "align_nearest returns the closest aligned sector"); vf_reach ("near"); }
  }
  /* is_aligned agrees with the definition */
  vf_assert (!!ped_alignment_is_aligned (&a, &geom, w) == w_in, "is_aligned agrees with the definition");
}
static void align_exact (void) { /* grain 0: exactly one sector */
  dev.length = 1ll << 40; PedAlignment a; PedGeometry geom;
  PedSector off = vf_range ("off", 0, (1ll << 40) - 1), gs = vf_range ("gs", 0, (1ll << 40) - 1), len = vf_range ("len", 1, 1ll << 40), s = vf_range ("s", 0, (1ll << 40) - 1);
  vf_assume (gs + len <= dev.length); vf_assume (ped_geometry_init (&geom, &dev, gs, len)); vf_assert (ped_alignment_init (&a, off, 0) == 1, "alignment_init accepts grain 0");
  int in = off >= gs && off < gs + len; PedSector want = in ? off : -1;
  vf_assert (ped_alignment_align_up (&a, &geom, s) == want && ped_alignment_align_down (&a, &geom, s) == want && ped_alignment_align_nearest (&a, &geom, s) == want, "grain 0: the only candidate is the offset");
  vf_assert (ped_alignment_is_aligned (&a, &geom, s) == (in && s == off), "grain 0: is_aligned");
  PedAlignment b; vf_assert (ped_alignment_init (&b, off, -1 - (PedSector) vf_range ("neg", 0, 1 << 20)) == 0, "negative grain refused");
  vf_reach ("exact");
}
/* alignment_init normalises any offset without changing the aligned set */
static void initneg (PedSector g) {
  PedSector q = vf_range ("q", -(1 << 20), 1 << 20), r = vf_range ("r", 0, g - 1); PedAlignment a;
  vf_assert (ped_alignment_init (&a, q * g + r, g) == 1, "alignment_init accepts a positive grain");
  vf_assert (a.offset == r, "alignment_init reduces the offset into [0, grain)"); vf_reach ("initneg");
}
static void gcd (void) {
  PedSector a = vf_concretize (vf_range ("a", 0, vf_param ("gmax", 24))), b = vf_concretize (vf_range ("b", 0, vf_param ("gmax", 24) + 8)); vf_assume (a || b);
  PedSector g = ped_greatest_common_divisor (a, b); PedSector d = vf_range ("d", 1, 60);
  vf_assert (g >= 1 && a % g == 0 && b % g == 0, "gcd divides both");
  vf_assert (!(a % d == 0 && b % d == 0) || g % d == 0, "every common divisor divides the gcd"); vf_reach ("gcd");
}
static void intersect (PedSector ga, PedSector gb, PedSector omax) {
  PedSector cap = vf_param ("ocap", 1ll << 40);
  PedAlignment a, b; PedSector oa = ga ? vf_range ("oa", 0, ga - 1 < cap ? ga - 1 : cap) : vf_range ("oa", 0, omax), ob = gb ? vf_range ("ob", 0, gb - 1) : vf_range ("ob", 0, omax);
  ped_alignment_init (&a, oa, ga); ped_alignment_init (&b, ob, gb);
  PedAlignment *c = ped_alignment_intersect (&a, &b);
  PedSector s = vf_range ("s", 0, omax);
  int both = ped_alignment_is_aligned (&a, NULL, s) && ped_alignment_is_aligned (&b, NULL, s);
  if (!c) { vf_assert (!both, "intersection absent only when no sector is aligned to both"); vf_reach ("absent"); }
  else { int in = ped_alignment_is_aligned (c, NULL, s); vf_log ("off", c->offset); vf_log ("grain", c->grain_size);
    vf_assert (in == both, "aligned to the intersection iff aligned to both"); vf_reach ("present");
    PedAlignment *dup = ped_alignment_duplicate (c); vf_assert (dup && dup->offset == c->offset && dup->grain_size == c->grain_size, "duplicate equals the original"); ped_alignment_destroy (dup);
    ped_alignment_destroy (c); }
}
void vf_main (void) {
  rt_init (); PedSector g = vf_param ("g", 8); int bits = vf_param ("bits", 20);
  switch (vf_case ()) {
  case 0: rounding (g, bits); break;
  case 1: rounding_symgrain (); break;
  case 2: align (g, bits); break;
  case 3: align_exact (); break;
  case 4: initneg (g); break;
  case 5: gcd (); break;
  case 10: intersect (vf_param ("ga", 4), vf_param ("gb", 6), vf_param ("omax", 4000)); break;
  case 11: { PedAlignment a; ped_alignment_init (&a, 1, 2); vf_assert (!ped_alignment_intersect (NULL, &a) && !ped_alignment_intersect (&a, NULL) && !ped_alignment_intersect (NULL, NULL), "intersection with nothing is nothing"); vf_assert (!ped_alignment_duplicate (NULL), "duplicate of nothing"); vf_assert (!ped_alignment_is_aligned (NULL, NULL, vf_range ("s", 0, 1000)), "nothing is aligned to nothing"); vf_reach ("absent"); break; }
  case 12: { PedSector ga = vf_range ("ga", 0, vf_param ("gmax", 9)), gb = vf_range ("gb", 0, vf_param ("gmax", 9)); ga = vf_concretize (ga); gb = vf_concretize (gb); intersect (ga, gb, vf_param ("omax", 200)); break; }
  }
}
