/* Environment of the library, shared by the engine and the native replay.  The
   library's sources are compiled with -D<call>=vp_<call> for every call that
   reaches the operating system; harnesses override these weak defaults. */
#define _GNU_SOURCE 1
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <poll.h>
#include <fcntl.h>
#include "vp.h"
#define WEAK __attribute__((weak))

jmp_buf vp_end_env;
volatile int vp_end_armed, vp_end_kind, vp_end_code;

static void ending(int kind, int code)
{
    if (!vp_end_armed) vp_fail(kind == 1 ? "unexpected exit()" : kind == 2 ? "unexpected abort()" : "unexpected _exit()");
    vp_end_armed = 0; vp_end_kind = kind; vp_end_code = code;
    longjmp(vp_end_env, 1);
}
WEAK void vp_exit(int c) { ending(1, c); for (;;) ; }
WEAK void vp_abort(void) { ending(2, 0); for (;;) ; }
WEAK void vp__exit(int c) { ending(3, c); for (;;) ; }
WEAK int vp_atexit(void (*f)(void)) { (void)f; return 0; }

#define NO(name, proto, ret) WEAK ret vp_##name proto { vp_fail("unexpected call of " #name); return (ret)-1; }
NO(fork, (void), pid_t)
NO(vfork, (void), pid_t)
NO(execvp, (const char *f, char *const a[]), int)
NO(execv, (const char *f, char *const a[]), int)
NO(execve, (const char *f, char *const a[], char *const e[]), int)
NO(pipe, (int p[2]), int)
NO(pipe2, (int p[2], int fl), int)
NO(dup2, (int a, int b), int)
NO(dup, (int a), int)
NO(close, (int a), int)
NO(waitpid, (pid_t p, int *s, int o), pid_t)
NO(wait, (int *s), pid_t)
NO(select, (int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t), int)
NO(read, (int f, void *b, size_t n), ssize_t)
NO(write, (int f, const void *b, size_t n), ssize_t)
NO(kill, (pid_t p, int s), int)
NO(mkdir, (const char *p, mode_t m), int)
NO(unlink, (const char *p), int)
NO(rename, (const char *p, const char *q), int)
NO(symlink, (const char *p, const char *q), int)
NO(system, (const char *p), int)
WEAK int vp_open(const char *p, int f, ...) { (void)p; (void)f; vp_fail("unexpected call of open"); return -1; }
WEAK int vp_fcntl(int f, int c, ...) { (void)f; (void)c; vp_fail("unexpected call of fcntl"); return -1; }
WEAK FILE *vp_fopen(const char *p, const char *m) { (void)p; (void)m; vp_fail("unexpected call of fopen"); return NULL; }
WEAK FILE *vp_fdopen(int f, const char *m) { (void)f; (void)m; vp_fail("unexpected call of fdopen"); return NULL; }
WEAK FILE *vp_popen(const char *p, const char *m) { (void)p; (void)m; vp_fail("unexpected call of popen"); return NULL; }
WEAK int vp_pclose(FILE *f) { (void)f; vp_fail("unexpected call of pclose"); return -1; }
WEAK pid_t vp_getpid(void) { return 4242; }
WEAK pid_t vp_getppid(void) { return 4241; }
WEAK long vp_sysconf(int n) { (void)n; return 64; }
WEAK int vp_gethostname(char *b, size_t n) { if (n < 5) return -1; memcpy(b, "host", 5); return 0; }
WEAK int vp_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = 1000; t->tv_usec = 0; return 0; }
WEAK int vp_getrusage(int w, struct rusage *r) { (void)w; memset(r, 0, sizeof *r); return 0; }
WEAK time_t vp_time(time_t *t) { if (t) *t = 1000; return 1000; }
static struct tm vp_tm;
WEAK struct tm *vp_localtime(const time_t *t) { (void)t; vp_tm.tm_mday = 1; vp_tm.tm_year = 100; return &vp_tm; }
WEAK struct tm *vp_gmtime(const time_t *t) { (void)t; vp_tm.tm_mday = 1; vp_tm.tm_year = 100; return &vp_tm; }
WEAK struct tm *vp_localtime_r(const time_t *t, struct tm *r) { *r = *vp_localtime(t); return r; }
WEAK size_t vp_strftime(char *b, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; if (n < 5) return 0; memcpy(b, "DATE", 5); return 4; }
WEAK char *vp_ctime(const time_t *t) { static char b[32]; (void)t; memcpy(b, "Thu Jan  1 00:00:00 1970\n", 26); return b; }
static unsigned long vp_rnd = 12345;
WEAK long vp_random(void) { vp_rnd = vp_rnd * 6364136223846793005UL + 1442695040888963407UL; return (long)(vp_rnd >> 33); }
WEAK int vp_rand(void) { return (int)vp_random(); }
WEAK void vp_srandom(unsigned s) { (void)s; }
WEAK void vp_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; vp_fail("unexpected call of openlog"); }
WEAK void vp_closelog(void) { }
WEAK void vp_vsyslog(int p, const char *f, va_list ap) { (void)p; (void)f; (void)ap; vp_fail("unexpected call of vsyslog"); }
WEAK void vp_syslog(int p, const char *f, ...) { (void)p; (void)f; vp_fail("unexpected call of syslog"); }
WEAK unsigned vp_sleep(unsigned n) { (void)n; return 0; }
WEAK int vp_usleep(unsigned n) { (void)n; return 0; }
/* other ways to say the same */
WEAK int vp_clock_gettime(int c, struct timespec *t) { struct timeval v; int r = vp_gettimeofday(&v, NULL); (void)c; t->tv_sec = v.tv_sec; t->tv_nsec = v.tv_usec * 1000; return r; }
WEAK pid_t vp_wait4(pid_t p, int *s, int o, struct rusage *u) { if (u) memset(u, 0, sizeof *u); return vp_waitpid(p, s, o); }
WEAK pid_t vp_wait3(int *s, int o, struct rusage *u) { return vp_wait4(-1, s, o, u); }
WEAK int vp_dup3(int a, int b, int f) { int r; if (a == b) { errno = EINVAL; return -1; } r = vp_dup2(a, b); if (r >= 0 && (f & O_CLOEXEC)) vp_fcntl(r, F_SETFD, FD_CLOEXEC); return r; }
WEAK int vp_nanosleep(const struct timespec *t, struct timespec *r) { (void)t; (void)r; return 0; }
WEAK struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { *r = *vp_gmtime(t); return r; }
WEAK char *vp_ctime_r(const time_t *t, char *b) { return strcpy(b, vp_ctime(t)); }
WEAK int vp_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const void *m) { struct timeval v; (void)m; if (t) { v.tv_sec = t->tv_sec; v.tv_usec = t->tv_nsec / 1000; } return vp_select(n, r, w, e, t ? &v : NULL); }
WEAK int vp_poll(struct pollfd *p, nfds_t n, int ms)
{
    struct { fd_set low, high; } R, W; fd_set *r = &R.low, *w = &W.low; struct timeval t; int max = -1, k; nfds_t i;
    memset(&R, 0, sizeof R); memset(&W, 0, sizeof W);
    for (i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (p[i].fd > max) max = p[i].fd; if (p[i].events & POLLIN) FD_SET(p[i].fd, r); if (p[i].events & POLLOUT) FD_SET(p[i].fd, w); }
    t.tv_sec = ms / 1000; t.tv_usec = ms % 1000 * 1000;
    k = vp_select(max + 1, r, w, NULL, ms < 0 ? NULL : &t); if (k <= 0) return k;
    for (k = 0, i = 0; i < n; i++) if (p[i].fd >= 0) { if (FD_ISSET(p[i].fd, r)) p[i].revents |= POLLIN; if (FD_ISSET(p[i].fd, w)) p[i].revents |= POLLOUT; k += p[i].revents != 0; }
    return k;
}
