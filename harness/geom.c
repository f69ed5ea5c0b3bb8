/* C03 / C04: geometries as sector sets, constraint solving. */
#include "rt.h"
static PedDevice d1, d2;
#define LIM (1ll << 40)
static int mk (PedGeometry *g, const char *n, PedDevice *d, PedSector *s, PedSector *l, PedSector lim) {
  char a[16]; snprintf (a, sizeof a, "%s.start", n); *s = vf_range (a, 0, lim - 1); snprintf (a, sizeof a, "%s.len", n); *l = vf_range (a, 1, lim);
  vf_assume (*s + *l <= lim); return ped_geometry_init (g, d, *s, *l); }
static int wf (const PedGeometry *g) { return g->length >= 1 && g->start >= 0 && g->end == g->start + g->length - 1; }
#define IN(x, g, s, l) ((x) >= (s) && (x) < (s) + (l))
static void sets (void) {
  d1.length = d2.length = LIM; PedGeometry a, b; PedSector as, al, bs, bl;
  int same = vf_range ("same", 0, 1);
  vf_assert (mk (&a, "a", &d1, &as, &al, LIM) && mk (&b, "b", same ? &d1 : &d2, &bs, &bl, LIM), "geometry_init accepts a positive length");
  vf_assert (wf (&a) && a.start == as && a.length == al && a.dev == &d1, "geometry_init stores what was asked");
  PedSector x = vf_range ("x", -5, LIM + 5); /* any sector */
  int ina = IN (x, a, as, al), inb = same && IN (x, b, bs, bl);
  PedGeometry *i = ped_geometry_intersect (&a, &b);
  if (i) { vf_assert (wf (i) && i->dev == &d1, "an intersection is a well-formed geometry"); vf_assert ((x >= i->start && x <= i->end) == (ina && inb), "intersection holds exactly the common sectors"); vf_reach ("inter"); }
  else { vf_assert (!(ina && inb), "no intersection only when there is no common sector"); vf_reach ("disjoint"); }
  int ov = ped_geometry_test_overlap (&a, &b);
  vf_assert (!!ov == (i != NULL), "overlap test agrees with intersection"); vf_assert (!!ov == !!ped_geometry_test_overlap (&b, &a), "overlap is symmetric");
  int inside = ped_geometry_test_inside (&a, &b);
  vf_assert (!!inside == (same && bs >= as && bs + bl <= as + al), "inside means every sector of b is in a");
  vf_assert (!(inside && inb && !ina), "inside: no sector of b is outside a");
  vf_assert (!!ped_geometry_test_equal (&a, &b) == (same && as == bs && al == bl), "equality is equality of sector sets");
  vf_assert (!!ped_geometry_test_sector_inside (&a, x) == ina, "sector membership");
  if (i) { vf_assert (ped_geometry_test_inside (&a, i) && ped_geometry_test_inside (&b, i), "the intersection is inside both"); ped_geometry_destroy (i); }
  PedGeometry *d = ped_geometry_duplicate (&a); vf_assert (d && d != &a && ped_geometry_test_equal (d, &a) && wf (d), "duplicate equals the original"); ped_geometry_destroy (d);
  vf_assert (!ped_geometry_intersect (NULL, &a) && !ped_geometry_intersect (&a, NULL), "intersection with nothing is nothing"); }
static void setters (void) {
  d1.length = LIM; PedGeometry a; PedSector as, al; mk (&a, "a", &d1, &as, &al, LIM); PedGeometry o = a;
  int op = vf_range ("op", 0, 3); PedSector v = vf_range ("v", 0, LIM), l = vf_range ("l", -LIM, LIM); int r, want; PedSector ws, we;
  x_policy = vf_range ("handled", 0, 1) ? XP_CANCEL : XP_UNHANDLED;
  if (op == 0) { r = ped_geometry_set_start (&a, v); ws = v; we = o.end; }
  else if (op == 1) { r = ped_geometry_set_end (&a, v); ws = o.start; we = v; }
  else if (op == 2) { r = ped_geometry_set (&a, v, l); ws = v; we = v + l - 1; }
  else { PedGeometry *n = ped_geometry_new (&d1, v, l); r = n != NULL; ws = v; we = v + l - 1; if (n) a = *n; else a = o; if (n) ped_geometry_destroy (n); }
  want = we >= ws; vf_assert (!!r == want, "a setter succeeds exactly when the result is a non-empty range");
  if (r) { vf_assert (wf (&a) && a.start == ws && a.end == we && a.dev == &d1, "a setter stores exactly the range asked for"); vf_reach ("set"); }
  else { vf_assert (a.start == o.start && a.end == o.end && a.length == o.length && a.dev == o.dev, "a refused setter changes nothing"); vf_assert (x_count == 1, "a refused setter reports once"); vf_reach ("refused"); } }
static void map (void) {
  d1.length = d2.length = LIM; PedGeometry a, b; PedSector as, al, bs, bl; int same = vf_range ("same", 0, 1);
  mk (&a, "dst", &d1, &as, &al, LIM); mk (&b, "src", same ? &d1 : &d2, &bs, &bl, LIM);
  PedSector x = vf_range ("x", 0, LIM), r = ped_geometry_map (&a, &b, x); vf_log ("r", r);
  int ok = same && x < bl && IN (bs + x, a, as, al);
  if (ok) { vf_assert (r == bs + x - as, "map gives the same disk sector relative to the destination"); vf_reach ("mapped"); }
  else { vf_assert (r == -1, "map refuses sectors outside either geometry"); vf_reach ("unmapped"); } }
static void io (void) { /* reads and writes through a geometry never leave it */
  PedDevice *d = vd_create (1 << 20, 512); ped_device_open (d); PedGeometry a; PedSector as, al; mk (&a, "a", d, &as, &al, 1 << 20);
  PedSector off = vf_range ("off", 0, LIM), cnt = vf_range ("cnt", 0, 3); int op = vf_range ("op", 0, 2); int pol = vf_range ("policy", 0, 2);
  x_policy = pol == 0 ? XP_CANCEL : pol == 1 ? XP_IGNORE : XP_UNHANDLED; cnt = vf_concretize (cnt); VDev *v = vd_of (d); vd_clear_log (v);
  static char buf[3 * 512]; int r; int fit = off + cnt <= al; void *p = NULL;
  if (op == 0) r = ped_geometry_read (&a, buf, off, cnt); else if (op == 1) r = ped_geometry_write (&a, buf, off, cnt); else { r = ped_geometry_read_alloc (&a, &p, off, cnt); vf_assert (!r == !p, "read_alloc returns a buffer exactly on success"); free (p); }
  vf_assert (v->oob_reads == 0 && v->oob_writes == 0, "geometry I/O stays on the device");
  for (int i = 0; i < v->nlog; i++) if (v->log[i].kind == 'R' || v->log[i].kind == 'W') { vf_assert (v->log[i].count == 0 || (v->log[i].start >= as && v->log[i].start + v->log[i].count <= as + al), "geometry I/O stays inside the geometry"); vf_assert (v->log[i].kind == (op == 1 ? 'W' : 'R'), "geometry read reads, write writes"); vf_assert (v->log[i].start == as + off && v->log[i].count == cnt, "geometry I/O addresses start+offset"); }
  if (fit) { vf_assert (r, "geometry I/O inside the geometry succeeds"); vf_assert (cnt == 0 || v->nread + v->nwrite == 1, "geometry I/O issues the transfer"); vf_reach ("io-in"); }
  else { vf_assert (v->nread + v->nwrite == 0, "geometry I/O outside the geometry is not issued"); vf_assert (!r || (op == 1 && pol == 1), "geometry I/O outside the geometry fails unless the user ignores it"); vf_reach ("io-out"); } }
static void check (void) {
  PedDevice *d = vd_create (64, 512); ped_device_open (d); PedGeometry a; PedSector gs = 8, gl = 40; ped_geometry_init (&a, d, gs, gl);
  PedSector off = vf_range ("off", 0, 6), cnt = vf_range ("cnt", 1, 12), bs = vf_range ("bufsize", 1, 6), gr = vf_range ("gran", 1, 3), bad = vf_range ("bad", 8, 48);
  off = vf_concretize (off); cnt = vf_concretize (cnt); bs = vf_concretize (bs); gr = vf_concretize (gr); vf_assume (gr <= bs); bad = vf_concretize (bad); vf_assume (bad <= gs + off + cnt + 2 && bad + 3 >= gs + off);
  VDev *v = vd_of (d); v->bad_sector = bad; static char buf[6 * 512]; PedSector r = ped_geometry_check (&a, buf, bs, off, gr, cnt, NULL); vf_log ("r", r);
  PedSector rel = bad - gs; vf_assert (v->oob_reads == 0, "geometry check stays on the device");
  vf_assert (v->nlog < VD_MAXLOG, "log");
  for (int i = 0; i < v->nlog; i++) if (v->log[i].kind == 'R') vf_assert (v->log[i].start >= gs + off && v->log[i].start + v->log[i].count <= gs + gl, "check reads only from the range on");
  if (rel < off || rel >= off + cnt) { vf_assert (r == 0, "check finds nothing when the range is good"); vf_reach ("check-ok"); }
  else if (rel >= off + 3) { vf_assert (r > 0 && r <= rel && rel < r + gr, "check returns the bad group"); vf_reach ("check-bad"); } }
/* ---------------- constraints ---------------- */
static PedSector CL;
static PedAlignment *mkal (const char *n, int g) { char t[16]; snprintf (t, sizeof t, "%s.off", n); PedSector o = vf_range (t, 0, g ? g - 1 : CL - 1); if (g > 1) { int om = vf_param ("offmode", 0); if (om) o = om == 1 ? 0 : om == 2 ? 1 : g - 1; } return ped_alignment_new (o, g); }
static PedConstraint *mkc (const char *n, int gs, int ge) {
  char t[16]; PedGeometry sr, er; PedSector a, b; snprintf (t, sizeof t, "%s.sr", n); mk (&sr, t, &d1, &a, &b, CL); snprintf (t, sizeof t, "%s.er", n); mk (&er, t, &d1, &a, &b, CL);
  snprintf (t, sizeof t, "%s.min", n); PedSector mn = vf_range (t, 1, CL); snprintf (t, sizeof t, "%s.max", n); PedSector mx = vf_range (t, 1, CL + 5);
  snprintf (t, sizeof t, "%s.sa", n); PedAlignment *sa = mkal (t, gs); snprintf (t, sizeof t, "%s.ea", n); PedAlignment *ea = mkal (t, ge);
  PedConstraint *c = ped_constraint_new (sa, ea, &sr, &er, mn, mx); vf_assert (c != NULL, "constraint_new succeeds");
  vf_assert (c->min_size == mn && c->max_size == mx && c->start_range != &sr && ped_geometry_test_equal (c->start_range, &sr) && ped_geometry_test_equal (c->end_range, &er), "constraint_new copies its parts");
  ped_alignment_destroy (sa); ped_alignment_destroy (ea); return c; }
static int alg (const PedAlignment *a, PedSector s) { return a->grain_size ? (s - a->offset) % a->grain_size == 0 : s == a->offset; }
static int sol (const PedConstraint *c, const PedGeometry *g) { /* reference */
  if (!alg (c->start_align, g->start)) return 0; if (!alg (c->end_align, g->end)) return 0;
  return g->start >= c->start_range->start && g->start <= c->start_range->end && g->end >= c->end_range->start && g->end <= c->end_range->end && g->length >= c->min_size && g->length <= c->max_size; }
static void solve (int gs, int ge) {
  CL = vf_param ("clen", 1 << 16); d1.length = CL; PedConstraint *c = mkc ("c", gs, ge); PedGeometry g; PedSector s, l; mk (&g, "g", &d1, &s, &l, CL);
  int is = sol (c, &g); vf_assert (!!ped_constraint_is_solution (c, &g) == is, "is_solution is the conjunction of the constraint's parts");
  if (!vf_param ("nosolve", 0)) {
  PedGeometry *r = ped_constraint_solve_nearest (c, &g);
  if (r) { vf_assert (wf (r) && r->end < CL && r->dev == &d1, "a solution is a well-formed geometry on the device"); vf_assert (sol (c, r), "a solution satisfies the constraint"); vf_log ("s", r->start); vf_log ("e", r->end);
    if (is) { vf_assert (r->start == g.start && r->end == g.end, "a geometry that satisfies the constraint is its own nearest solution"); vf_reach ("fixpoint"); } vf_reach ("solved"); ped_geometry_destroy (r); }
  else { vf_assert (!is, "solve_nearest finds a solution when asked at one"); vf_reach ("unsolved"); } }
  vf_assert (ped_constraint_solve_nearest (NULL, &g) == NULL && ped_constraint_solve_max (NULL) == NULL, "no constraint, no solution");
  ped_constraint_destroy (c); }
static void solvemax (int gs, int ge) {
  CL = vf_param ("clen", 1 << 16); d1.length = CL; PedConstraint *c = mkc ("c", gs, ge);
  PedGeometry *m = ped_constraint_solve_max (c); if (m) { vf_assert (wf (m) && m->end < CL && sol (c, m), "solve_max returns a solution"); vf_reach ("max"); ped_geometry_destroy (m); } ped_constraint_destroy (c); }
static void inter (int gs1, int ge1, int gs2, int ge2) {
  CL = vf_param ("clen", 1 << 12); d1.length = CL; PedConstraint *a = mkc ("a", gs1, ge1), *b = mkc ("b", gs2, ge2), *c = ped_constraint_intersect (a, b);
  PedGeometry g; PedSector s, l; mk (&g, "g", &d1, &s, &l, CL); int both = sol (a, &g) && sol (b, &g);
  if (!c) { vf_assert (!both, "an intersection is absent only when nothing satisfies both"); vf_reach ("no-inter"); }
  else { vf_assert (!!ped_constraint_is_solution (c, &g) == both, "the intersection accepts exactly what both accept"); vf_reach ("inter-c"); ped_constraint_destroy (c); }
  vf_assert (!ped_constraint_intersect (NULL, a) && !ped_constraint_intersect (a, NULL), "intersection with nothing");
  PedConstraint *d = ped_constraint_duplicate (a); vf_assert (!!ped_constraint_is_solution (d, &g) == sol (a, &g), "a duplicate accepts the same geometries"); ped_constraint_destroy (d);
  ped_constraint_destroy (a); ped_constraint_destroy (b); }
static void build (void) {
  CL = 1ll << 40; d1.length = CL; PedGeometry mn, mx, g; PedSector a, b; mk (&mn, "min", &d1, &a, &b, CL); mk (&mx, "max", &d1, &a, &b, CL); mk (&g, "g", &d1, &a, &b, CL);
  int k = vf_range ("kind", 0, 4); PedConstraint *c; int want;
  int gin = g.start >= mx.start && g.end <= mx.end, hasmin = g.start <= mn.start && g.end >= mn.end;
  if (k == 0) { vf_assume (mn.start >= mx.start && mn.end <= mx.end); c = ped_constraint_new_from_min_max (&mn, &mx); want = gin && hasmin; vf_reach ("minmax"); }
  else if (k == 1) { c = ped_constraint_new_from_min (&mn); want = hasmin; }
  else if (k == 2) { c = ped_constraint_new_from_max (&mx); want = gin; }
  else if (k == 3) { c = ped_constraint_exact (&mx); want = g.start == mx.start && g.end == mx.end; vf_reach ("exact-c"); }
  else { c = ped_constraint_any (&d1); want = 1; vf_reach ("any"); }
  vf_assert (c != NULL, "constraint constructor succeeds"); vf_assert (!!ped_constraint_is_solution (c, &g) == want, "a constructed constraint accepts exactly what its name describes");
  PedGeometry *r = ped_constraint_solve_nearest (c, &g); if (want) vf_assert (r && r->start == g.start && r->end == g.end, "an accepted geometry is returned unchanged"); else if (r) vf_assert (sol (c, r), "a solution satisfies the constraint");
  if (k == 3) vf_assert (r && r->start == mx.start && r->end == mx.end, "exact constraint always yields the exact geometry");
  if (r) ped_geometry_destroy (r); ped_constraint_destroy (c); }
void vf_main (void) {
  rt_init (); int a = vf_param ("ga", 1), b = vf_param ("gb", 1), c = vf_param ("gc", 1), d = vf_param ("gd", 1);
  switch (vf_case ()) { case 0: sets (); break; case 1: setters (); break; case 2: map (); break; case 3: io (); break; case 4: check (); break;
  case 10: solve (a, b); break; case 11: inter (a, b, c, d); break; case 12: build (); break; case 13: solvemax (a, b); break; } }
