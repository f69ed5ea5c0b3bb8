/* C32 the command line: words, choices, wrapped text. */
#include "tbl.h"
#include "cap.h"
#undef wchar_t
typedef struct _SL { struct _SL *next; const wchar_t *str; } StrList; /* as compiled with wide characters */
typedef struct { StrList *names; int (*method) (PedDevice **, PedDisk **); StrList *summary, *help; int non_interactive:1; } Cmd;
extern StrList *str_list_create (const char *, ...), *str_list_create_unique (const char *, ...), *str_list_duplicate (const StrList *), *str_list_insert (StrList *, const char *), *str_list_append (StrList *, const char *), *str_list_append_unique (StrList *, const char *), *str_list_join (StrList *, StrList *), *str_list_match (const StrList *, const char *);
extern char *str_list_convert (const StrList *), *str_list_convert_node (const StrList *); extern void str_list_destroy (StrList *), str_list_print_wrap (const StrList *, int, int, int, FILE *), str_list_print (const StrList *, FILE *); extern int str_list_match_any (const StrList *, const char *), str_list_length (const StrList *);
extern void command_line_push_line (const char *, int), command_line_push_word (const char *), command_line_flush (void); extern char *command_line_pop_word (void), *command_line_peek_word (void), *command_line_get_word (const char *, const char *, const StrList *, int); extern int command_line_get_word_count (void), init_ui (void);
extern int command_line_get_integer (const char *, int *), command_line_get_state (const char *, int *), command_line_get_partition (const char *, PedDisk *, PedPartition **), command_line_get_fs_type (const char *, const PedFileSystemType **), command_line_get_disk_type (const char *, const PedDiskType **), command_line_get_disk_flag (const char *, const PedDisk *, PedDiskFlag *), command_line_get_part_flag (const char *, const PedPartition *, PedPartitionFlag *), command_line_get_part_type (const char *, const PedDisk *, PedPartitionType *), command_line_get_unit (const char *, PedUnit *), command_line_get_align_type (const char *, int *);
extern int opt_script_mode; extern Cmd **pm_commands (void); extern Cmd *command_get (Cmd **, char *);
static PedDisk *k; static PedDevice *d;
#include "base.h"
static int lowc (int c) { c &= 255; return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7) ? c + 32 : c; }
static int pre (const char *p, const char *s) { for (; *p; p++, s++) if (lowc (*p) != lowc (*s)) return 0; return 1; } /* p begins s, in any case */
static int same_ci (const char *a, const char *b) { return strlen (a) == strlen (b) && pre (a, b); }
static void text (char *t, int n, int lo, int hi) { for (int i = 0; i < n; i++) t[i] = vf_range ("ch", lo, hi); t[n] = 0; }
/* lists keep their texts, in order */
static void holds (StrList *l, char (*t)[8], int n) { vf_assert (str_list_length (l) == n, "list length"); char all[40]; all[0] = 0; for (int i = 0; i < n; i++) strcat (all, t[i]); char *c = str_list_convert (l); vf_assert (!strcmp (c, all), "the list converts to its texts"); free (c); for (int i = 0; i < n; i++, l = l->next) { c = str_list_convert_node (l); vf_assert (!strcmp (c, t[i]), "each text is kept"); free (c); } }
static void list (void) { char t[6][8]; int n = 3; for (int i = 0; i < n; i++) text (t[i], vf_concretize (vf_range ("len", 0, 2)), 1, 255); StrList *l = str_list_create (t[0], t[1], NULL); holds (l, t, 2); l = str_list_append (l, t[2]); holds (l, t, 3); StrList *c = str_list_duplicate (l); str_list_destroy (l); holds (c, t, 3);
  int dup = 0; for (int i = 0; i < 3; i++) if (same_ci (t[i], t[0])) dup = 1; c = str_list_append_unique (c, t[0]); vf_assert (dup && str_list_length (c) == 3, "a text already there is not added"); StrList *u = str_list_create_unique (t[0], t[1], NULL); vf_assert (str_list_length (u) == (same_ci (t[0], t[1]) ? 1 : 2), "only different texts are added"); memcpy (t[3], t[0], 8); memcpy (t[4], t[1], 8); if (!same_ci (t[0], t[1])) { c = str_list_join (c, u); holds (c, t, 5); } else str_list_destroy (u);
  on = 0; str_list_print (c, stdout); char *x = str_list_convert (c); vf_assert (!strcmp (x, (char *) out), "a list prints its texts"); free (x); memmove (t[1], t[0], 40); strcpy (t[0], "new"); c = str_list_insert (c, "new"); holds (c, t, str_list_length (c) == 6 ? 6 : 4); vf_assert (str_list_join (NULL, c) == c && str_list_join (c, NULL) == c && !str_list_duplicate (NULL) && !str_list_length (NULL), "empty lists"); str_list_destroy (c); vf_reach ("list"); }
static void match (void) { char t[4][8], key[8]; int n = vf_param ("n", 2), ln = vf_param ("len", 2); StrList *l = NULL; for (int i = 0; i < n; i++) { text (t[i], vf_concretize (vf_range ("len", 1, ln)), 1, 255); l = str_list_append (l, t[i]); } text (key, vf_concretize (vf_range ("keylen", 0, ln)), 1, 255);
  int ex = -1, np = 0, pp = -1; for (int i = n - 1; i >= 0; i--) { if (same_ci (t[i], key)) ex = i; if (pre (key, t[i])) { np++; pp = i; } } StrList *r = str_list_match (l, key); int any = str_list_match_any (l, key); vf_assert (any == (ex >= 0 ? 2 : np ? 1 : 0), "the best match of the list"); int want = ex >= 0 ? ex : np == 1 ? pp : -1;
  if (want < 0) { vf_assert (!r, "nothing or an ambiguous text chooses nothing"); vf_reach ("unmatched"); } else { StrList *w = l; for (int i = 0; i < want; i++) w = w->next; vf_assert (r == w, "an exact match, or else the only partial one, is chosen"); vf_reach ("matched"); } }
/* wrapped text: no character lost or invented, nothing beyond the margin, no word broken that fits a line */
static void wrap (void) { int sh = vf_param ("shape", 0), ll = vf_param ("ll", 12), off = vf_param ("off", 0), ind = vf_param ("ind", 0); static char in[400]; int n = 0; StrList *l = NULL; int cuts[8], nc = 0;
  if (sh == 0 || sh == 2) { int w = 3; for (int i = 0; i < w; i++) { int len = vf_concretize (vf_range ("word", i == 1 ? 0 : 1, i == 1 ? 2 * ll + 2 : ll > 40 ? 3 : ll + 2)); int s = n; for (int j = 0; j < len; j++) in[n++] = 'a' + (n - s) % 26; if (len && i == 0) in[n - 1] = vf_range ("last", 33, 126); if (i < w - 1) { int sp = vf_concretize (vf_range ("sep", 0, ll > 40 ? 1 : 3)); if (sp == 0) in[n++] = ' '; else if (sp == 1) in[n++] = '\n'; else if (sp == 2) { in[n++] = ' '; in[n++] = ' '; } else { in[n++] = ' '; in[n++] = '\n'; } } if (sh == 2 || i == w - 1) { in[n] = 0; cuts[nc++] = n; } } }
  else { for (int i = 0; i < ll - 3; i++) in[n++] = i % 5 == 4 ? ' ' : 'a' + i % 26; for (int i = 0; i < 5; i++) { in[n] = vf_range ("c", 1, 255); vf_assume (in[n] == ' ' || in[n] == '\n' || (in[n] >= 'a' && in[n] <= 'z') || in[n] == ','); n++; } for (int i = 0; i < 8; i++) in[n++] = 'A' + i; in[n] = 0; cuts[nc++] = n; }
  int s = 0; for (int i = 0; i < nc; i++) { char tmp[400]; memcpy (tmp, in + s, cuts[i] - s); tmp[cuts[i] - s] = 0; s = cuts[i]; l = str_list_append (l, tmp); } on = 0; str_list_print_wrap (l, ll, off, ind, stdout);
  int a = 0, b = 0, col = off, maxw = 0, cw = 0; for (;;) { int sp = 0, isp = 0; while (out[a] == ' ' || out[a] == '\n') { if (out[a] == '\n') col = 0; else col++; sp++; a++; } while (in[b] == ' ' || in[b] == '\n') { isp++; b++; } vf_assert (out[a] == (unsigned char) in[b], "every character of the text is printed, in order"); if (!out[a]) break; (void) sp; (void) isp; col++; vf_assert (col <= ll, "nothing is printed beyond the line"); a++; b++; }
  /* line breaks of the text are kept */ int nlo = 0, nli = 0; for (int i = 0; i < on; i++) nlo += out[i] == '\n'; for (int i = 0; i < n; i++) nli += in[i] == '\n'; vf_assert (nlo >= nli, "line breaks in the text are kept");
  /* a word is broken only when it is longer than a line */ if (nc == 1) { a = b = 0; cw = 0; int wstart = 0; for (;;) { int sp = 0, isp = 0; while (out[a] == ' ' || out[a] == '\n') { sp++; a++; } while (in[b] == ' ' || in[b] == '\n') { isp++; b++; } if (isp) wstart = b; if (sp && !isp && b) { int e = wstart; while (in[e] && in[e] != ' ' && in[e] != '\n') e++; vf_assert (e - wstart > ll - ind || wstart == b, "a word that fits a line is not broken"); } if (!out[a]) break; a++; b++; } } (void) maxw; (void) cw; vf_reach ("wrapped"); }
/* the words of a line */
static void words (void) { int n = vf_param ("n", 3), single = vf_param ("single", 0), pad = vf_param ("pad", 0); static char ln[400]; memset (ln, 'w', pad); for (int i = 0; i < n; i++) ln[pad + i] = vf_range ("ch", 1, 255); ln[pad + n] = 0;
  /* reading: spaces separate; quotes keep spaces, and within them a backslash takes the next character; "" alone is an empty word */
  static char w[8][400]; int nw = 0; const char *p = ln; do { while (*p == ' ') p++; int i = 0, any = 0; char q = 0; for (; *p; p++) { if (!q && *p == ' ') { if (!single) break; const char *e = p; while (*e == ' ' || (*e >= 9 && *e <= 13)) e++; if (!*e) break; } if (!q && (*p == '"' || *p == '\'')) { q = *p; continue; } if (q && *p == q) { if (!i) any = 1; q = 0; continue; } if (q && *p == '\\' && p[1]) p++; any = 0; w[nw][i++] = *p; } w[nw][i] = 0; if (i || any || single) nw++; } while (*p && !single);
  command_line_push_line (ln, !single); vf_assert (command_line_get_word_count () == nw, "the number of words"); for (int i = 0; i < nw; i++) { char *k_ = command_line_peek_word (); vf_assert (k_ && !strcmp (k_, w[i]), "each word is kept"); free (k_); k_ = command_line_pop_word (); vf_assert (!strcmp (k_, w[i]), "each word is kept, in order"); free (k_); } vf_assert (command_line_get_word_count () == 0, "no more words"); vf_reach ("words"); }
/* a word chooses what it names */
static struct { const char *name; long v; } ch[400]; static int nch; static void opt (const char *nm, long v) { if (!nm) return; for (int i = 0; i < nch; i++) if (same_ci (ch[i].name, nm)) return; ch[nch].name = nm; ch[nch++].v = v; }
static void choose (void) { int what = vf_param ("what", 0), n = vf_param ("n", 2), lab = vf_param ("label", 0); opt_script_mode = 1; d = vd_create (65536, 512); k = ped_disk_new_fresh (d, ped_disk_type_get (label_names[lab])); vf_assert (k != NULL, "label"); base (vf_concretize (vf_range ("base", 0, 2))); PedPartition *pt = nth_active (k, 0); vf_assert (init_ui (), "start"); rt_init (); x_policy = XP_UNHANDLED; nch = 0;
  switch (what) { case 0: { int np = ped_disk_get_primary_partition_count (k) < ped_disk_get_max_primary_partition_count (k), e = ped_disk_type_check_feature (k->type, PED_DISK_TYPE_EXTENDED); if (np) opt ("primary", 0); if (np && e && !ped_disk_extended_partition (k)) opt ("extended", PED_PARTITION_EXTENDED); if (e && ped_disk_extended_partition (k)) opt ("logical", PED_PARTITION_LOGICAL); break; }
  case 1: opt ("on", 1); opt ("off", 0); break; case 2: opt ("optimal", 2); opt ("minimal", 1); break; case 3: { static const char *U[] = { "s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB" }; for (int i = 0; i < 14; i++) opt (U[i], i); break; }
  case 4: if (!pt) vf_stop (); for (int i = 1; i <= PED_PARTITION_LAST_FLAG; i++) if (ped_partition_is_flag_available (pt, i)) opt (ped_partition_flag_get_name (i), i); break; case 5: for (int i = 1; i <= PED_DISK_LAST_FLAG; i++) if (ped_disk_is_flag_available (k, i)) opt (ped_disk_flag_get_name (i), i); break;
  case 6: for (PedFileSystemType *t = ped_file_system_type_get_next (NULL); t; t = ped_file_system_type_get_next (t)) opt (t->name, (long) t); for (PedFileSystemAlias *t = ped_file_system_alias_get_next (NULL); t; t = ped_file_system_alias_get_next (t)) opt (t->alias, (long) t->fs_type); break;
  case 7: for (PedDiskType *t = ped_disk_type_get_next (NULL); t; t = ped_disk_type_get_next (t)) opt (t->name, (long) t); break; }
  char key[40]; if (n) text (key, n, 33, 126); else { int i = vf_concretize (vf_range ("which", 0, nch ? nch - 1 : 0)); if (!nch) vf_stop (); strcpy (key, ch[i].name); for (char *p = key; *p; p++) if (p - key < 3 && vf_concretize (vf_range ("up", 0, 1)) && *p >= 'a' && *p <= 'z') *p -= 32; }
  int ex = -1, np = 0, pp = -1; for (int i = 0; i < nch; i++) { if (same_ci (key, ch[i].name)) ex = i; if (pre (key, ch[i].name)) { np++; pp = i; } } int want = ex >= 0 ? ex : np == 1 ? pp : -1; command_line_push_word (key); command_line_push_word ("next"); long v = -7; int r; int ec = x_count;
  switch (what) { case 0: { PedPartitionType t = 99; r = command_line_get_part_type ("?", k, &t); v = t; break; } case 1: { int t = vf_concretize (vf_range ("dflt", 0, 1)); r = command_line_get_state ("?", &t); v = t; break; } case 2: { int t = 1 + vf_concretize (vf_range ("dflt", 0, 1)); r = command_line_get_align_type ("?", &t); v = t; break; } case 3: { PedUnit t = 77; r = command_line_get_unit ("?", &t); v = t; break; } case 4: { PedPartitionFlag t = 0; r = command_line_get_part_flag ("?", pt, &t); v = t; break; } case 5: { PedDiskFlag t = 0; r = command_line_get_disk_flag ("?", k, &t); v = t; break; }
  case 6: { const PedFileSystemType *t = NULL; r = command_line_get_fs_type ("?", &t); v = (long) t; break; } default: { const PedDiskType *t = NULL; r = command_line_get_disk_type ("?", &t); v = (long) t; break; } }
  if (want >= 0) { vf_assert (r && v == ch[want].v, "a word chooses what it names"); char *x = command_line_pop_word (); vf_assert (x && !strcmp (x, "next"), "the next word stays"); free (x); vf_assert (x_count == ec, "nothing is reported"); vf_reach ("chosen"); } else { vf_assert (!r, "an unknown or ambiguous word is refused"); vf_reach ("not-chosen"); } }
static void integer (void) { int n = vf_param ("n", 2), pad = vf_param ("pad", 0); opt_script_mode = 1; char t[40]; int m = 0; if (pad) { strcpy (t, "42949672"); m = 8; } int neg = vf_concretize (vf_range ("neg", 0, 1)); if (neg) { memmove (t + 1, t, m); t[0] = '-'; m++; } long long v = 0; for (int i = 0; i < n; i++) t[m + i] = vf_range ("digit", '0', '9'); t[m + n] = 0; for (int i = neg; t[i]; i++) v = v * 10 + (t[i] - '0'); if (neg) v = -v;
  command_line_push_word (t); int x = 77; int r = command_line_get_integer ("?", &x); if (v > 2147483647LL || v < -2147483648LL) vf_assert (!r && x == 77, "a number out of range is refused"); else vf_assert (r && x == v, "the number written is the number read");
  if (pad) return; d = vd_create (65536, 512); k = ped_disk_new_fresh (d, ped_disk_type_get ("msdos")); base (3); command_line_push_word (t); PedPartition *p = NULL; int ec = x_count; r = command_line_get_partition ("?", k, &p); PedPartition *w = NULL; for (PedPartition *q = ped_disk_next_partition (k, NULL); q; q = ped_disk_next_partition (k, q)) if (ped_partition_is_active (q) && q->num == v) w = q; if (w) vf_assert (r && p == w, "the partition of that number is chosen"); else vf_assert (!r && !p && x_count == ec + 1, "no partition of that number: refused and reported"); vf_reach ("integer"); }
static void command (void) { Cmd **c = pm_commands (); static const char *N[] = { "align-check", "help", "mklabel", "mktable", "mkpart", "name", "print", "quit", "rescue", "resizepart", "rm", "select", "disk_set", "disk_toggle", "set", "toggle", "type", "unit", "version" }; int nn = sizeof N / sizeof *N; char key[24]; int n = vf_param ("n", 2), who = -1; if (n == 0) { who = vf_concretize (vf_range ("which", 0, nn - 1)); strcpy (key, N[who]); } else { int pw = vf_concretize (vf_range ("prefix", 0, nn)); if (pw < nn) { strcpy (key, N[pw]); int l = vf_concretize (vf_range ("keep", 0, 2)); text (key + l, n, 33, 126); } else text (key, n, 33, 126); }
  Cmd *g = command_get (c, key); int ex = -1, np = 0, pp = -1, nc = 0; for (int i = 0; c[i]; i++) { int best = 0; for (StrList *l = c[i]->names; l; l = l->next) { char *nm = str_list_convert_node (l); if (same_ci (nm, key)) best = 2; else if (pre (key, nm) && !best) best = 1; free (nm); } if (best == 2 && ex < 0) ex = i; if (best == 1) { np++; pp = i; } nc++; } vf_assert (nc < 40, "commands"); int want = ex >= 0 ? ex : np == 1 ? pp : -1;
  if (who >= 0) { vf_assert (g != NULL, "every documented command exists"); char *a = str_list_convert_node (g->names); vf_assert (!strcmp (a, N[who]) || (g->names->next && str_list_match_any (g->names, N[who]) == 2), "a full name is that command"); free (a); vf_assert (g->method && g->summary, "a command can be run"); } if (want < 0) { vf_assert (!g, "an unknown or ambiguous command is refused"); vf_reach ("no-command"); } else { vf_assert (g == c[want], "a name or its only completion is the command"); vf_reach ("command"); } }
void vf_main (void) { rt_init (); if (&rt_sym_print) rt_sym_print = 1; switch (vf_case ()) { case 0: list (); break; case 1: match (); break; case 2: wrap (); break; case 3: words (); break; case 4: choose (); break; case 5: integer (); break; case 6: command (); break; } }
