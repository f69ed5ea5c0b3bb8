/* wide characters in a locale with one byte per character: ASCII, C1 controls, 0xa0-0xaf zero width, 0xb0-0xbf double width */
#include <stddef.h>
#include <stdlib.h>
#include <wchar.h>
size_t m_wcslen (const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
wchar_t *m_wcscat (wchar_t *d, const wchar_t *s) { wchar_t *p = d + m_wcslen (d); while ((*p++ = *s++)); return d; }
wchar_t *m_wcschr (const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *) s; if (!*s) return NULL; } }
wchar_t *m_wcsdup (const wchar_t *s) { size_t n = m_wcslen (s) + 1; wchar_t *r = malloc (n * sizeof *r); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
static wchar_t low (wchar_t c) { return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7) ? c + 32 : c; }
int m_wcsncasecmp (const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; i++) { wchar_t x = low (a[i]), y = low (b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int m_wcscasecmp (const wchar_t *a, const wchar_t *b) { return m_wcsncasecmp (a, b, (size_t) -1); }
int m_wcwidth (wchar_t c) { if (!c) return 0; if (c < 32 || c == 127 || (c >= 0x80 && c < 0xa0) || c > 255) return -1; if (c >= 0xa0 && c < 0xb0) return 0; return c >= 0xb0 && c < 0xc0 ? 2 : 1; }
int m_wcswidth (const wchar_t *s, size_t n) { int w = 0; for (size_t i = 0; i < n && s[i]; i++) { int x = m_wcwidth (s[i]); if (x < 0) return -1; w += x; } return w; }
size_t m_mbsrtowcs (wchar_t *d, const char **s, size_t n, mbstate_t *ps) { (void) ps; const unsigned char *p = (const unsigned char *) *s; size_t i; for (i = 0; i < n; i++) { d[i] = p[i]; if (!p[i]) { *s = NULL; return i; } } *s = (const char *) p + i; return i; }
size_t m_wcrtomb (char *d, wchar_t c, mbstate_t *ps) { (void) ps; if (c < 0 || c > 255) return (size_t) -1; *d = (char) c; return 1; }
static int aln (wint_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int m_iswalnum (wint_t c) { return aln (c) || (c >= 0xc0 && c <= 0xff); }
int m_iswpunct (wint_t c) { return (c > 32 && c < 127 && !aln (c)) || (c > 0xa0 && c < 0xc0); }
wint_t m_btowc (int c) { return c < 0 ? WEOF : (wint_t) c; }
char *m_dgettext (const char *d, const char *s) { (void) d; return (char *) s; }
char *m_setlocale (int c, const char *l) { (void) c; (void) l; return (char *) "C"; }
char *m_bindtextdomain (const char *d, const char *n) { (void) d; return (char *) n; }
char *m_textdomain (const char *d) { return (char *) d; }
int m_sigaction (int n, const void *a, void *o) { (void) n; (void) a; (void) o; return 0; }
int m_sigfillset (void *s) { (void) s; return 0; }
