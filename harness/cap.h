/* everything the program prints ends here */
#ifndef CAP_H
#define CAP_H
#include <stdarg.h>
#include <wchar.h>
extern int rt_sym_print __attribute__ ((weak));
static unsigned char out[8192]; static int on;
static void oputc (int c) { vf_assert (on < (int) sizeof out - 1, "output buffer (harness limit)"); out[on++] = c; out[on] = 0; }
int cap_fputc (int c, FILE *f) { (void) f; oputc (c); return c; }
int cap_fputs (const char *s, FILE *f) { (void) f; while (*s) oputc (*s++); return 1; }
int cap_puts (const char *s) { while (*s) oputc (*s++); oputc ('\n'); return 1; }
int cap_putchar (int c) { oputc (c); return c; }
size_t cap_fwrite (const void *p, size_t s, size_t n, FILE *f) { (void) f; for (size_t i = 0; i < s * n; i++) oputc (((const unsigned char *) p)[i]); return n; }
int cap_vfprintf (FILE *f, const char *fm, va_list ap) { (void) f; if (!strcmp (fm, "%ls\n")) { const wchar_t *w = va_arg (ap, const wchar_t *); while (*w) oputc (*w++); oputc ('\n'); return 1; } char t[1024]; int n = vsnprintf (t, sizeof t, fm, ap); vf_assert (n < (int) sizeof t, "formatted output (harness limit)"); for (int i = 0; i < n; i++) oputc (t[i]); return n; }
int cap_fprintf (FILE *f, const char *fm, ...) { va_list ap; va_start (ap, fm); int n = cap_vfprintf (f, fm, ap); va_end (ap); return n; }
int cap_printf (const char *fm, ...) { va_list ap; va_start (ap, fm); int n = cap_vfprintf (stdout, fm, ap); va_end (ap); return n; }
int cap_vprintf (const char *fm, va_list ap) { return cap_vfprintf (stdout, fm, ap); }
void m_error (int st, int e, const char *fm, ...) { (void) e; va_list ap; va_start (ap, fm); cap_vfprintf (stderr, fm, ap); va_end (ap); if (st) vf_stop (); }
#endif
