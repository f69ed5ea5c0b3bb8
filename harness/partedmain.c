/* the parted program, with its commands reachable */
#include "verif_pre.h"
int cap_puts (const char *);
#define main parted_main
#include "parted/parted.c"
#undef main
int pm_print (PedDevice **d, PedDisk **k, int mode) { opt_output_mode = mode == 0 ? JSON : mode == 1 ? MACHINE : HUMAN; opt_fix_mode = 0; alignment = ALIGNMENT_NONE; return do_print (d, k); }
Command **pm_commands (void) { _init_messages (); _init_commands (); return commands; }
void pm_align (int a) { alignment = a; }
