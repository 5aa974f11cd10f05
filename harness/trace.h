/* Tracing: the library's own debug classes switched on, a log open, and every
   flush leaving an errno behind.  None of it may change a result. */
#include <errno.h>
static int tracing; extern int real_fflush(FILE *) __asm__("fflush");
int vp_fflush(FILE *f) { int r = real_fflush(f); if (tracing) errno = ENOSPC; return r; }
static void trace(void)
{
    static const unsigned long cl[] = { MAA_PR, MAA_SRC, MAA_SL, MAA_PARSE };
    int i;
    if (!vp_param("trace", 0)) return;
    vp_capture(&stdout);
    for (i = 0; i < 4; i++) dbg_set_flag(cl[i]);
    if (vp_choice(2, "log")) log_stream("trc", stdout);
    tracing = 1;
}
