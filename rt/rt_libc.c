/* C library model used under symbolic execution only (native replays use the
   real libc).  malloc/free/mem* and strcmp family are engine builtins. */
#include "vf.h"
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
#include <locale.h>
#include <limits.h>
#undef errno
static int the_errno;
int *__errno_location (void) { return &the_errno; }
static struct _fake { int x; } fe, fo, fi;
FILE *stderr = (FILE *) &fe, *stdout = (FILE *) &fo, *stdin = (FILE *) &fi;
size_t strlen (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen (const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy (char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy (char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
/* branch-free on content where the source object is long enough */
char *strncpy (char *d, const char *s, size_t n) {
  size_t os = vf_objsize (s); int end = 0;
  for (size_t i = 0; i < n; i++) {
    if (i >= os && end) { d[i] = 0; continue; }
    char c = s[i]; c = (char) vf_ite (end, 0, (uint64_t) (unsigned char) c); d[i] = c; end = (int) vf_ite (c == 0, 1, (uint64_t) end);
  }
  return d; }
char *strcat (char *d, const char *s) { strcpy (d + strlen (d), s); return d; }
char *strncat (char *d, const char *s, size_t n) { char *p = d + strlen (d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strchr (const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *strchrnul (const char *s, int c) { for (;; s++) { if (*s == (char) c || !*s) return (char *) s; } }
char *strrchr (const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
char *strstr (const char *h, const char *n) { size_t l = strlen (n); if (!l) return (char *) h; for (; *h; h++) if (!strncmp (h, n, l)) return (char *) h; return 0; }
size_t strspn (const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn (const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strpbrk (const char *s, const char *a) { s += strcspn (s, a); return *s ? (char *) s : 0; }
void *memchr (const void *p, int c, size_t n) { const unsigned char *q = p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char) c) return (void *) (q + i); return 0; }
void *rawmemchr (const void *p, int c) { const unsigned char *q = p; for (;; q++) if (*q == (unsigned char) c) return (void *) q; }
void *memrchr (const void *p, int c, size_t n) { const unsigned char *q = p; while (n--) if (q[n] == (unsigned char) c) return (void *) (q + n); return 0; }
void *mempcpy (void *d, const void *s, size_t n) { memcpy (d, s, n); return (char *) d + n; }
char *strdup (const char *s) { size_t n = strlen (s) + 1; char *p = malloc (n); if (p) memcpy (p, s, n); return p; }
char *strndup (const char *s, size_t m) { size_t n = strnlen (s, m); char *p = malloc (n + 1); if (p) { memcpy (p, s, n); p[n] = 0; } return p; }
void *xmalloc (size_t n) { return malloc (n); }
void *xcalloc (size_t n, size_t m) { return calloc (n, m); }
void *xrealloc (void *p, size_t n) { return realloc (p, n); }
char *xstrdup (const char *s) { return strdup (s); }
void *reallocarray (void *p, size_t n, size_t m) { return realloc (p, n * m); }
int posix_memalign (void **p, size_t a, size_t n) { (void) a; *p = malloc (n); return *p ? 0 : ENOMEM; }
void *aligned_alloc (size_t a, size_t n) { (void) a; return malloc (n); }
#define B(bit) (bit)
#define UP 0x100
#define LO 0x200
#define AL 0x400
#define DI 0x800
#define XD 0x1000
#define SP 0x2000
#define PR 0x4000
#define GR 0x8000
#define BL 1
#define CN 2
#define PU 4
#define AN 8
static unsigned short ctb[384]; static int tl[384], tu[384];
static const unsigned short *ctp; static const int *tlp, *tup;
__attribute__ ((constructor (101))) static void ct_init (void) {
  for (int i = -128; i < 256; i++) { int c = i & 255; unsigned short f = 0;
    tl[i + 128] = i; tu[i + 128] = i;
    if (i >= 0 && c < 128) {
      if (c >= 'A' && c <= 'Z') { f |= UP | AL | AN; tl[i + 128] = c + 32; }
      if (c >= 'a' && c <= 'z') { f |= LO | AL | AN; tu[i + 128] = c - 32; }
      if (c >= '0' && c <= '9') f |= DI | AN | XD;
      if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) f |= XD;
      if (c == 32 || (c >= 9 && c <= 13)) f |= SP;
      if (c == 32 || c == 9) f |= BL;
      if (c >= 32 && c < 127) f |= PR;
      if (c > 32 && c < 127) f |= GR;
      if (c < 32 || c == 127) f |= CN;
      if (c > 32 && c < 127 && !(f & AN)) f |= PU;
    }
    ctb[i + 128] = f; }
  ctp = ctb + 128; tlp = tl + 128; tup = tu + 128; }
const unsigned short **__ctype_b_loc (void) { return &ctp; }
const int **__ctype_tolower_loc (void) { return &tlp; }
const int **__ctype_toupper_loc (void) { return &tup; }
#undef isdigit
static int isf (int c, int f) { return (c >= 0 && c < 128) ? (ctb[c + 128] & f) : 0; }
int (isdigit) (int c) { return c >= '0' && c <= '9'; }
int (isspace) (int c) { return isf (c, SP); }
int (isalpha) (int c) { return isf (c, AL); }
int (isalnum) (int c) { return isf (c, AN); }
int (isprint) (int c) { return c >= 32 && c < 127; }
int (isupper) (int c) { return c >= 'A' && c <= 'Z'; }
int (islower) (int c) { return c >= 'a' && c <= 'z'; }
int (iscntrl) (int c) { return (c >= 0 && c < 32) || c == 127; }
int (ispunct) (int c) { return isf (c, PU); }
int (isxdigit) (int c) { return isf (c, XD); }
int (tolower) (int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int (toupper) (int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int abs (int x) { return x < 0 ? -x : x; }
long labs (long x) { return x < 0 ? -x : x; }
long long llabs (long long x) { return x < 0 ? -x : x; }
static unsigned long long sto (const char *s, char **e, int base, int sgn) {
  const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long long v = 0;
  while (*p == 32 || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && (((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f') || (p[2] >= '0' && p[2] <= '9'))) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if ((c | 32) >= 'a' && (c | 32) <= 'z') d = (c | 32) - 'a' + 10; else break; if (d >= base) break;
    any = 1; if (v > (ULLONG_MAX - d) / base) ovf = 1; else v = v * base + d; }
  if (e) *e = (char *) (any ? p : s);
  if (sgn) { if (ovf || v > (unsigned long long) LLONG_MAX + neg) { the_errno = ERANGE; return neg ? (unsigned long long) LLONG_MIN : LLONG_MAX; } }
  else if (ovf) { the_errno = ERANGE; return ULLONG_MAX; }
  return neg ? -v : v; }
#define STO(name, T, sg) T name (const char *s, char **e, int b) { return (T) sto (s, e, b, sg); }
STO (strtol, long, 1) STO (strtoll, long long, 1) STO (strtoul, unsigned long, 0) STO (strtoull, unsigned long long, 0)
STO (__isoc23_strtol, long, 1) STO (__isoc23_strtoll, long long, 1) STO (__isoc23_strtoul, unsigned long, 0) STO (__isoc23_strtoull, unsigned long long, 0)
int atoi (const char *s) { return (int) sto (s, 0, 10, 1); }
long atol (const char *s) { return (long) sto (s, 0, 10, 1); }
long long atoll (const char *s) { return (long long) sto (s, 0, 10, 1); }
/* decimal text to double: exact while the digits and the power of ten stay below 2^53 (one correctly rounded division) */
double strtod (const char *s, char **e) {
  static const double p10[] = { 1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 };
  const char *p = s; int neg = 0, any = 0, fr = 0, ex = 0; long long v = 0; while (*p == 32 || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  for (int dot = 0; ; p++) { char c = *p; if (c == '.' && !dot) { dot = 1; continue; } if (c < '0' || c > '9') break; any++; if (any <= 18) { v = v * 10 + (c & 15); if (dot) fr++; } else if (!dot) ex++; }
  if (!any) { if (e) *e = (char *) s; return 0; }
  if ((*p | 32) == 'e') { const char *q = p + 1; int en = 0, x = 0; if (*q == '-' || *q == '+') en = *q++ == '-'; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') { if (x < 10000) x = x * 10 + (*q - '0'); q++; } p = q; ex += en ? -x : x; } }
  if (e) *e = (char *) p; ex -= fr; double d = (double) v; while (ex > 0) { int k = ex > 22 ? 22 : ex; d *= p10[k]; ex -= k; } while (ex < 0) { int k = -ex > 22 ? 22 : -ex; d /= p10[k]; ex += k; } return neg ? -d : d; }
static int scan (const char *s, const char *f, va_list ap) {
  const char *b = s; int n = 0;
  for (; *f; f++) {
    if (*f == ' ' || (*f >= 9 && *f <= 13)) { while (*s == 32 || (*s >= 9 && *s <= 13)) s++; continue; }
    if (*f != '%') { if (*s != *f) return n; s++; continue; }
    f++; int sup = 0, w = 0, l = 0; if (*f == '*') { sup = 1; f++; } while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { l += *f == 'h' ? -1 : 1; f++; }
    if (*f == '%') { if (*s != '%') return n; s++; continue; } if (*f == 'n') { *va_arg (ap, int *) = s - b; continue; }
    if (*f == 'c') { if (!*s) return n ? n : -1; int k = w ? w : 1; char *o = sup ? 0 : va_arg (ap, char *); while (k-- && *s) { if (o) *o++ = *s; s++; } if (!sup) n++; continue; }
    while (*s == 32 || (*s >= 9 && *s <= 13)) s++; if (!*s) return n ? n : -1;
    if (*f == 's') { char *o = sup ? 0 : va_arg (ap, char *); int k = 0; while (*s && *s != 32 && !(*s >= 9 && *s <= 13) && (!w || k < w)) { if (o) *o++ = *s; s++; k++; } if (o) *o = 0; if (!sup) n++; continue; }
    char t[64], *e; const char *src = s; if (w) { int k = 0; while (k < w && k < 63 && s[k]) { t[k] = s[k]; k++; } t[k] = 0; src = t; }
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') { unsigned long long v = sto (src, &e, *f == 'x' ? 16 : *f == 'i' ? 0 : 10, *f == 'd' || *f == 'i'); if (e == src) return n; s += e - src; if (!sup) { if (l > 0) *va_arg (ap, long long *) = v; else if (l == -1) *va_arg (ap, short *) = v; else if (l == -2) *va_arg (ap, char *) = v; else *va_arg (ap, int *) = v; n++; } }
    else if (*f == 'f' || *f == 'g' || *f == 'e') { double v = strtod (src, &e); if (e == src) return n; s += e - src; if (!sup) { if (l > 0) *va_arg (ap, double *) = v; else *va_arg (ap, float *) = v; n++; } }
    else return n; }
  return n; }
int __isoc99_vsscanf (const char *s, const char *f, va_list ap) { return scan (s, f, ap); }
#define SC(name) int name (const char *s, const char *f, ...) { va_list ap; va_start (ap, f); int r = scan (s, f, ap); va_end (ap); return r; }
SC (__isoc99_sscanf) SC (__isoc23_sscanf)
double atof (const char *s) { return strtod (s, 0); }
void qsort (void *b, size_t n, size_t w, int (*c) (const void *, const void *)) { char t; char *p = b;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c (p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; } }
void *bsearch (const void *k, const void *b, size_t n, size_t w, int (*c) (const void *, const void *)) { for (size_t i = 0; i < n; i++) if (!c (k, (char *) b + i * w)) return (char *) b + i * w; return 0; }
/* ---- formatting.  Symbolic numbers print as '?' unless rt_sym_print. ---- */
int rt_sym_print;
struct ob { char *p; size_t cap, n; };
static void oc (struct ob *o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void onum (struct ob *o, unsigned long long v, int neg, unsigned base, int upper, int width, int left, int zero, int prec, int plus, int alt) {
  char t[70]; int n = 0;
  if (vf_is_symbolic (v) && !rt_sym_print) t[n++] = '?';
  else if (vf_is_symbolic (v) && base == 10) { /* the digits are the numbers 0..9 whose weighted sum is V */
    static const unsigned long long p10[] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000 };
    int k = 1; while (k < 19 && v >= p10[k]) k++;
    if (k == 19) { do { t[n++] = '0' + v % 10; v /= 10; } while (v); }
    else { unsigned long long sum = 0; for (int i = 0; i < k; i++) { unsigned long long d = vf_range ("#digit", k > 1 && i == k - 1, 9); t[n++] = '0' + d; sum += d * p10[i]; } vf_assume (sum == v); } }
  else { do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v); }
  while (n < prec && n < 64) t[n++] = '0';
  if (alt && base == 16) { t[n++] = upper ? 'X' : 'x'; t[n++] = '0'; }
  int tot = n + (neg || plus);
  if (!left && !zero) for (; tot < width; tot++) oc (o, ' ');
  if (neg) oc (o, '-'); else if (plus) oc (o, '+');
  if (!left && zero) for (; tot < width; tot++) oc (o, '0');
  while (n) oc (o, t[--n]);
  if (left) for (; tot < width; tot++) oc (o, ' '); }
extern int rt_format_double (double d, int prec, char *buf) __attribute__ ((weak));
static int fmt (struct ob *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { oc (o, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ' || *f == '\'') ; else break; }
    if (*f == '*') { width = va_arg (ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg (ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'q' || *f == 'j' || *f == 'z' || *f == 't') lng = 1; else if (*f == 'h') { if (!lng) lng--; else lng--; } else break; }
    switch (*f) {
    case 'd': case 'i': { long long v = lng > 0 ? va_arg (ap, long long) : va_arg (ap, int); if (lng == -1) v = (short) v; if (lng == -2) v = (signed char) v;
        if (vf_is_symbolic (v) && !rt_sym_print) { oc (o, '?'); break; }
        int neg = v < 0; onum (o, neg ? -(unsigned long long) v : v, neg, 10, 0, width, left, zero && prec < 0, prec, plus, 0); break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long long v = lng > 0 ? va_arg (ap, unsigned long long) : va_arg (ap, unsigned); if (lng == -1) v = (unsigned short) v; if (lng == -2) v = (unsigned char) v;
        onum (o, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, left, zero && prec < 0, prec, 0, alt); break; }
    case 'p': onum (o, va_arg (ap, unsigned long long), 0, 16, 0, width, left, 0, -1, 0, 1); break;
    case 'c': { int c = va_arg (ap, int); if (!left) for (int i = 1; i < width; i++) oc (o, ' '); oc (o, c); if (left) for (int i = 1; i < width; i++) oc (o, ' '); break; }
    case 's': { const char *s = va_arg (ap, const char *); if (!s) s = "(null)"; size_t n = prec >= 0 ? strnlen (s, prec) : strlen (s);
        if (!left) for (size_t i = n; i < (size_t) width; i++) oc (o, ' '); for (size_t i = 0; i < n; i++) oc (o, s[i]); if (left) for (size_t i = n; i < (size_t) width; i++) oc (o, ' '); break; }
    case 'f': case 'g': case 'e': { double d = va_arg (ap, double); if (rt_format_double) { char t[80]; rt_format_double (d, prec, t); for (char *q = t; *q; q++) oc (o, *q); } else { (void) d; oc (o, 'F'); } break; }
    case 'm': oc (o, 'E'); break;
    case '%': oc (o, '%'); break;
    case 0: f--; break;
    default: oc (o, *f); } }
  if (o->cap) o->p[o->n < o->cap ? o->n : o->cap - 1] = 0;
  return (int) o->n; }
int vsnprintf (char *p, size_t n, const char *f, va_list ap) { struct ob o = { p, n, 0 }; return fmt (&o, f, ap); }
int snprintf (char *p, size_t n, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (p, n, f, ap); va_end (ap); return r; }
int vsprintf (char *p, const char *f, va_list ap) { return vsnprintf (p, 1 << 20, f, ap); }
int sprintf (char *p, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (p, 1 << 20, f, ap); va_end (ap); return r; }
int vasprintf (char **out, const char *f, va_list ap) { char t[1024]; int n = vsnprintf (t, sizeof t, f, ap); if (n >= 1023) n = 1023; *out = malloc (n + 1); if (!*out) return -1; memcpy (*out, t, n + 1); return n; }
int asprintf (char **out, const char *f, ...) { va_list ap; va_start (ap, f); int r = vasprintf (out, f, ap); va_end (ap); return r; }
/* output streams: discarded unless the harness captures them */
void (*rt_out_hook) (char c);
static int outs (const char *s, size_t n) { if (rt_out_hook) for (size_t i = 0; i < n; i++) rt_out_hook (s[i]); return (int) n; }
int vfprintf (FILE *fp, const char *f, va_list ap) { if (fp == stdout && rt_out_hook) { char t[2048]; int n = vsnprintf (t, sizeof t, f, ap); outs (t, n < 2047 ? n : 2047); return n; } return 1; }
int fprintf (FILE *fp, const char *f, ...) { va_list ap; va_start (ap, f); int r = vfprintf (fp, f, ap); va_end (ap); return r; }
int vprintf (const char *f, va_list ap) { return vfprintf (stdout, f, ap); }
int printf (const char *f, ...) { va_list ap; va_start (ap, f); int r = vfprintf (stdout, f, ap); va_end (ap); return r; }
int fputc (int c, FILE *fp) { char ch = c; if (fp == stdout) outs (&ch, 1); return (unsigned char) c; }
int putc (int c, FILE *fp) { return fputc (c, fp); }
int putchar (int c) { return fputc (c, stdout); }
int fputs (const char *s, FILE *fp) { if (fp == stdout) outs (s, strlen (s)); return 1; }
int puts (const char *s) { outs (s, strlen (s)); outs ("\n", 1); return 1; }
size_t fwrite (const void *p, size_t s, size_t n, FILE *fp) { if (fp == stdout) outs (p, s * n); return n; }
int fflush (FILE *fp) { (void) fp; return 0; }
int fclose (FILE *fp) { (void) fp; return 0; }
void __assert_fail (const char *c, const char *f, unsigned l, const char *fn) { (void) f; (void) l; (void) fn; char t[200]; snprintf (t, sizeof t, "assertion failed: %s", c); vf_assert_ (0, t); abort (); }
int getpagesize (void) { return 4096; }
static struct __locale_struct the_loc;
locale_t newlocale (int m, const char *l, locale_t b) { (void) m; (void) l; (void) b; the_loc.__ctype_b = ctp; the_loc.__ctype_tolower = tlp; the_loc.__ctype_toupper = tup; return &the_loc; }
locale_t duplocale (locale_t p) { return p; }
void freelocale (locale_t p) { (void) p; }
locale_t uselocale (locale_t p) { return p; }
char *setlocale (int c, const char *l) { (void) c; (void) l; return "C"; }
char *nl_langinfo (int i) { (void) i; return "UTF-8"; }
int (isspace_l) (int c, locale_t l) { (void) l; return isf (c, SP); }
int (tolower_l) (int c, locale_t l) { (void) l; return (tolower) (c); }
char *strerror (int e) { (void) e; return "error"; }
char *gettext (const char *s) { return (char *) s; }
char *dcgettext (const char *d, const char *s, int c) { (void) d; (void) c; return (char *) s; }
void swab (const void *f, void *t, ssize_t n) { const char *a = f; char *b = t; for (; n > 1; n -= 2, a += 2, b += 2) { char x = a[0]; b[0] = a[1]; b[1] = x; } }
char *getenv (const char *n) { (void) n; return 0; }

int vf_is_native (void) { return 0; }
