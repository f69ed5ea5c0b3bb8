/* gnulib and terminal helpers that parted/ needs, in their documented meaning */
#include <config.h>
#define C_CTYPE_INLINE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include "c-ctype.h"
char const *Version = "0"; const char *program_name = "parted"; int exit_failure = 1;
void set_program_name (const char *a) { (void) a; }
void close_stdout (void) { }
void version_etc (FILE *f, const char *a, const char *b, const char *c, ...) { (void) f; (void) a; (void) b; (void) c; }
int tgetnum (const char *n) { (void) n; return -1; }
long __xargmatch_internal (const char *c, const char *a, const char *const *l, const void *v, size_t s, void (*e) (void), char f) { (void) c; (void) v; (void) s; (void) e; (void) f; for (long i = 0; l[i]; i++) if (!strcmp (a, l[i])) return i; return -1; }
void (*argmatch_die) (void) = abort;
int uuid_is_null (const unsigned char *u) { for (int i = 0; i < 16; i++) if (u[i]) return 0; return 1; }
void uuid_unparse_lower (const unsigned char *u, char *o) { static const char h[] = "0123456789abcdef"; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *o++ = '-'; *o++ = h[u[i] >> 4]; *o++ = h[u[i] & 15]; } *o = 0; }
static int uhex (int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
int uuid_parse (const char *s, unsigned char *u) { for (int i = 0; i < 36; i++) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return -1; } else if (uhex (s[i]) < 0) return -1; } if (s[36]) return -1; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) s++; u[i] = uhex (s[0]) * 16 + uhex (s[1]); s += 2; } return 0; }
void xalloc_die (void) { abort (); }
