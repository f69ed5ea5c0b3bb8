/* Native side of the harness API: replays one recorded path (VF_REPLAY). */
#define _GNU_SOURCE
#include "vf.h"
#include <unistd.h>
#include <errno.h>
static FILE *rf; static long the_case; static struct { char n[64]; long long v; } prm[64]; static int nprm;
static char line[512]; static int have; static int nomore;
static void die (int code, const char *m, const char *a) { fflush (stdout); fprintf (stderr, "VF-NATIVE %s %s\n", m, a); fflush (stderr); _exit (code); }
static int nextline (void) { if (have) return 1; if (nomore) return 0; while (fgets (line, sizeof line, rf)) { line[strcspn (line, "\n")] = 0; if (!strncmp (line, "sym ", 4)) { have = 1; return 1; } } nomore = 1; return 0; }
static void init (void) {
  if (rf) return; const char *p = getenv ("VF_REPLAY"); if (!p) { fprintf (stderr, "set VF_REPLAY\n"); _exit (2); }
  rf = fopen (p, "r"); if (!rf) { perror (p); _exit (2); }
  while (fgets (line, sizeof line, rf)) { line[strcspn (line, "\n")] = 0;
    if (sscanf (line, "case %ld", &the_case) == 1) continue;
    if (!strncmp (line, "param ", 6)) { sscanf (line, "param %63s %lld", prm[nprm].n, &prm[nprm].v); nprm++; continue; }
    if (!strncmp (line, "sym ", 4)) { have = 1; break; } }
}
static uint64_t get (const char *name) {
  init (); if (!nextline ()) return 0; /* path ended before: any value */
  have = 0; char n[256]; int w; unsigned long long v;
  char *q = strrchr (line, ' '); if (!q) die (77, "BADREPLAY", line); v = strtoull (q + 1, 0, 0); *q = 0; q = strrchr (line, ' '); if (!q) die (77, "BADREPLAY", line); w = atoi (q + 1); *q = 0; (void) w; snprintf (n, sizeof n, "%s", line + 4);
  if (strcmp (n, name)) { fprintf (stderr, "expected %s got %s\n", n, name); die (77, "DIVERGED", name); }
  return v; }
uint64_t vf_sym (const char *name, unsigned bits) { uint64_t v = get (name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int64_t vf_range (const char *name, int64_t lo, int64_t hi) { init (); if (!nextline ()) return lo; return (int64_t) get (name); }
void vf_sym_bytes (void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = get (name); }
void vf_assume (int c) { if (!c) die (78, "ASSUME-FALSE", ""); }
void vf_assert_ (int c, const char *msg) { if (!c) die (42, "ASSERT-FAILED", msg); }
void vf_reach (const char *l) { (void) l; }
void vf_log (const char *name, uint64_t v) { printf ("log %s %llu\n", name, (unsigned long long) v); }
long vf_case (void) { init (); return the_case; }
int64_t vf_param (const char *name, int64_t d) { init (); for (int i = 0; i < nprm; i++) if (!strcmp (prm[i].n, name)) return prm[i].v; return d; }
uint64_t vf_concretize (uint64_t v) { return v; }
int vf_is_symbolic (uint64_t v) { (void) v; return 0; }
void vf_stop (void) { fflush (stdout); _exit (0); }
uint64_t vf_ite (int c, uint64_t a, uint64_t b) { return c ? a : b; }
void vf_print (const char *name, uint64_t v) { fprintf (stderr, "[%s] %lld 0x%llx\n", name, (long long) v, (unsigned long long) v); }
#include <sanitizer/allocator_interface.h>
size_t vf_heap_bytes (void) { return __sanitizer_get_current_allocated_bytes (); }
int vf_native = 1;
int vf_is_native (void) { return 1; }
int main (void) { init (); vf_main (); fflush (stdout); _exit (0); }
/* gnulib pieces libparted links to */
void *xmalloc (size_t n) { return malloc (n); }
void *xcalloc (size_t n, size_t m) { return calloc (n, m); }
void *xrealloc (void *p, size_t n) { return realloc (p, n); }
char *xstrdup (const char *s) { return strdup (s); }
