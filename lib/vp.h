/* Harness interface.  The same harness source is compiled twice: to LLVM IR for
   the symbolic engine, and natively (gcc -fsanitize=address) to replay the
   engine's counterexamples and samples against the real build of the library. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <stdio.h>

uint64_t vp_sym(int bits, const char *name);            /* fresh symbolic value */
void     vp_bytes(void *p, size_t n, const char *name); /* fresh symbolic bytes */
void     vp_assume_(int c);
void     vp_assert_(int c, const char *msg);
void     vp_fail(const char *msg);
void     vp_reach(const char *label);                   /* non-vacuity witness: must be reached */
long     vp_param(const char *name, long dflt);         /* bound chosen by the task */
long     vp_live(void);                                 /* live heap blocks */
void     vp_note(uint64_t v);                           /* observation compared between engine and native run */
uint64_t vp_conc(uint64_t v);                           /* split into one path per value */
void     vp_done(void);                                 /* end of this path */
int      vp_symbolic(void);                             /* 1 in the engine, 0 natively */

#define vp_assume(c) vp_assume_(!!(c))
#define VP_S2(x) #x
#define VP_S1(x) VP_S2(x)
#define vp_assert(c, msg) vp_assert_(!!(c), msg)

static inline uint64_t vp_range(uint64_t lo, uint64_t hi, const char *name)
{
    int bits = 1;
    uint64_t v;
    while (bits < 64 && (hi >> bits)) bits++;
    v = vp_sym(bits, name);
    if (lo == 0 && bits < 64 && hi == (((uint64_t)1 << bits) - 1)) return v;
    vp_assume_((v >= lo) & (v <= hi));
    return v;
}
/* one path per value */
static inline int vp_choice(int n, const char *name) { return n <= 1 ? 0 : (int)vp_conc(vp_range(0, n - 1, name)); }

/* ---- expected process endings: exit() and abort() of the library are
   redirected to vp_exit()/vp_abort() */
extern jmp_buf vp_end_env;
extern volatile int vp_end_armed;    /* 1: an ending is caught */
extern volatile int vp_end_kind;     /* 0 none, 1 exit, 2 abort, 3 _exit */
extern volatile int vp_end_code;
#define VP_CATCH (vp_end_kind = 0, vp_end_armed = 1, setjmp(vp_end_env) == 0)
#define VP_END_CATCH (vp_end_armed = 0)

/* ---- captured streams: stdout/stderr are redirected into memory */
void vp_capture(FILE **slot);        /* stderr or stdout */
const char *vp_captured(FILE **slot, size_t *len);
void vp_capture_reset(FILE **slot);
#endif
