/* C23 exceptions. */
#include "rt.h"
static int calls, last_h, want_type, want_opts, answer, nested; static char want[1400];
static int checkmsg = 1;
static PedExceptionOption common (PedException *e, int h) {
  calls++; last_h = h; vf_assert (e != NULL, "handler gets an exception"); vf_assert ((int) e->type == want_type, "handler gets the thrown type"); vf_assert ((int) e->options == want_opts, "handler gets the thrown options");
  if (checkmsg) vf_assert (!strcmp (e->message, want), "handler gets the formatted message");
  vf_assert (ped_exception == 1, "the pending flag is set while the handler runs");
  return (PedExceptionOption) answer; }
static PedExceptionOption h1 (PedException *e) { return common (e, 1); }
static PedExceptionOption h2 (PedException *e) { return common (e, 2); }
static int single (int o) { return o == PED_EXCEPTION_OK || o == PED_EXCEPTION_CANCEL || o == PED_EXCEPTION_IGNORE; }
static void seq (int steps) {
  size_t base = vf_heap_bytes (); int fetch = 0, pending = 0, cur = vf_concretize (vf_range ("h0", 0, 2)); ped_exception_set_handler (cur == 0 ? NULL : cur == 1 ? h1 : h2);
  for (int i = 0; i < steps; i++) {
    int op = vf_range ("op", 1, 6); calls = 0; last_h = -1;
    switch (op) {
    case 1: { /* throw */ op = i & 1;
      want_type = vf_range ("type", 1, 6); want_opts = vf_range ("opts", 1, 127); answer = vf_range ("answer", 0, 127); strcpy (want, op ? "value 42: x" : "plain");
      int r = op ? ped_exception_throw (want_type, want_opts, "value %d: %s", 42, "x") : ped_exception_throw (want_type, want_opts, "plain");
      if (fetch) { vf_assert (calls == 0 && r == PED_EXCEPTION_UNHANDLED, "while fetching, the handler is not called and the thrower gets unhandled"); vf_assert (ped_exception, "while fetching, the exception stays pending"); pending = 1; vf_reach ("fetched"); }
      else { pending = 0; vf_assert (!ped_exception, "after handling nothing is pending"); if (cur) { vf_assert (calls == 1 && last_h == cur, "the current handler is called exactly once"); vf_assert (r == answer, "the thrower gets the handler's choice"); vf_reach ("handled"); }
        else { vf_assert (calls == 0, "the default handler handles it"); vf_assert (r == (single (want_opts) ? want_opts : PED_EXCEPTION_UNHANDLED), "the default handler picks the only option"); vf_reach ("default"); } }
      break; }
    case 2: ped_exception_fetch_all (); fetch++; break;
    case 3: vf_assume (fetch > 0); ped_exception_leave_all (); fetch--; vf_assert (!!ped_exception == pending, "leaving a fetch keeps the pending exception"); break;
    case 4: ped_exception_catch (); vf_assert (!ped_exception, "catch clears the exception"); pending = 0; break;
    case 5: { vf_assume (pending); answer = vf_range ("answer", 0, 127); int r = ped_exception_rethrow ();
      if (fetch) { vf_assert (calls == 0 && r == PED_EXCEPTION_UNHANDLED && ped_exception, "rethrow while fetching keeps it pending"); vf_reach ("rethrow-fetched"); }
      else { pending = 0; vf_assert (!ped_exception, "rethrow consumes the exception"); if (cur) { vf_assert (calls == 1 && last_h == cur && r == answer, "rethrow reaches the current handler with the original exception"); vf_reach ("rethrown"); } else vf_assert (r == (single (want_opts) ? want_opts : 0), "rethrow to the default handler"); }
      break; }
    case 6: { cur = vf_range ("h", 0, 2); ped_exception_set_handler (cur == 0 ? NULL : cur == 1 ? h1 : h2); PedExceptionHandler *g = ped_exception_get_handler (); vf_assert (cur == 0 ? g != h1 && g != h2 && g : g == (cur == 1 ? h1 : h2), "get_handler returns the handler that was set"); break; }
    }
    vf_assert (!!ped_exception == pending, "the pending flag follows the rules");
  }
  while (fetch--) ped_exception_leave_all ();
  ped_exception_catch (); vf_assert (vf_heap_bytes () == base, "no exception object is leaked"); vf_reach ("end"); }
static void lengths (void) { /* message formatting around the growth of the buffer */
  size_t base = vf_heap_bytes (); ped_exception_set_handler (h1); static char big[1300]; int n = vf_concretize (vf_range ("len", 0, 44)); n = n < 8 ? n : n < 40 ? 990 + n - 8 : 1100 + (n - 40) * 37; memset (big, 'a', n); big[n] = 0;
  want_type = PED_EXCEPTION_ERROR; want_opts = PED_EXCEPTION_OK_CANCEL; answer = PED_EXCEPTION_OK; strcpy (want, big); strcat (want, "!");
  vf_assert (ped_exception_throw (want_type, want_opts, "%s!", big) == PED_EXCEPTION_OK && calls == 1, "long messages are delivered");
  strcpy (want, "short"); vf_assert (ped_exception_throw (want_type, want_opts, "short") == PED_EXCEPTION_OK && calls == 2, "next message is delivered");
  vf_assert (vf_heap_bytes () == base, "no message buffer is leaked"); vf_reach ("len"); }
static PedExceptionOption hn (PedException *e) { int t = e->type; if (nested++ == 0) { checkmsg = 0; ped_exception_set_handler (h1); want_type = 2; want_opts = 8; answer = 8; int r = ped_exception_throw (PED_EXCEPTION_WARNING, PED_EXCEPTION_OK, "inner"); vf_assert (r == 8, "a handler may throw"); } return t == 3 ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_OK; }
static void nest (void) { size_t base = vf_heap_bytes (); ped_exception_set_handler (hn); int r = ped_exception_throw (PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "outer"); vf_assert (r == PED_EXCEPTION_CANCEL && !ped_exception, "outer exception answered"); vf_assert (vf_heap_bytes () == base, "nothing leaked"); vf_reach ("nested"); }
static void names (void) { int t = vf_concretize (vf_range ("t", 1, 6)), b = vf_concretize (vf_range ("b", 0, 6)), b2 = vf_concretize (vf_range ("b2", 0, 6)), t2 = vf_concretize (vf_range ("t2", 1, 6));
  vf_assert (strlen (ped_exception_get_type_string (t)) > 0 && (t == t2) == !strcmp (ped_exception_get_type_string (t), ped_exception_get_type_string (t2)), "type names are distinct");
  vf_assert (strlen (ped_exception_get_option_string (1 << b)) > 0 && (b == b2) == !strcmp (ped_exception_get_option_string (1 << b), ped_exception_get_option_string (1 << b2)), "option names are distinct");
  static const char *on[] = { "Fix", "Yes", "No", "OK", "Retry", "Ignore", "Cancel" }, *tn[] = { "Information", "Warning", "Error", "Fatal", "Bug", "No Implementation" }; vf_assert (!strcmp (ped_exception_get_option_string (1 << b), on[b]) && !strcmp (ped_exception_get_type_string (t), tn[t - 1]), "names match the constants"); vf_reach ("names"); }
void vf_main (void) { switch (vf_case ()) { case 0: seq (vf_param ("steps", 4)); break; case 1: lengths (); break; case 2: nest (); break; case 3: names (); break; } }
