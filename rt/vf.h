/* Harness API: implemented by the symbolic engine (psym builtins) and by
   rt_native.c when a counterexample is replayed against the real code. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
extern uint64_t vf_sym (const char *name, unsigned bits);
extern int64_t vf_range (const char *name, int64_t lo, int64_t hi);
extern void vf_sym_bytes (void *p, size_t n, const char *name);
extern void vf_assume (int c);
extern void vf_assert_ (int c, const char *msg);
extern void vf_reach (const char *label);
extern void vf_log (const char *name, uint64_t v);
extern long vf_case (void);
extern int64_t vf_param (const char *name, int64_t dflt);
extern uint64_t vf_concretize (uint64_t v);
extern int vf_is_symbolic (uint64_t v);
extern void vf_stop (void) __attribute__ ((noreturn));
extern uint64_t vf_ite (int c, uint64_t a, uint64_t b);
extern void vf_print (const char *name, uint64_t v);
extern int vf_is_native (void);
extern size_t vf_objsize (const void *p);
extern size_t vf_heap_bytes (void); /* bytes currently allocated: compare for equality only */
#define vf_assert(c, msg) vf_assert_ (!!(c), msg)
extern void vf_main (void);
#endif
