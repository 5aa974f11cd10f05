/* A model of descriptors, pipes and processes, as POSIX describes them. */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#ifndef NFD
#define NFD 64
#endif
#define ID_STD 1                 /* 1 2 3: what descriptors 0 1 2 refer to at the start */
#define ID_USER 50               /* files of the user */
#define ID_PIPE 100              /* read end 100 + 2k, write end 101 + 2k */
#define ID_NULL 900              /* /dev/null, + access mode */
static int T[NFD], cloex[NFD], fl[NFD];
static int limit = NFD;          /* what sysconf says of the number of descriptors */
static int anyFile, npipes, nforks, childFork = -1, inChild, forkFails, pipeFails = -1, execed, execFails;
static jmp_buf childEnd;
static void (*onExec)(const char *file, char *const *argv);
static int lowest(int from) { int i; for (i = from; i < NFD; i++) if (!T[i]) return i; vp_fail("out of descriptors"); return -1; }
static void put(int fd, int id, int ce) { T[fd] = id; cloex[fd] = ce; fl[fd] = 0; }
static void model_init(void) { put(0, 1, 0); put(1, 2, 0); put(2, 3, 0); }
static int isopen(int fd) { return fd >= 0 && fd < NFD && T[fd]; }
int vp_pipe2(int p[2], int f)
{
    if (npipes == pipeFails) { errno = EMFILE; return -1; }
    p[0] = lowest(0); put(p[0], ID_PIPE + 2 * npipes, !!(f & O_CLOEXEC));
    p[1] = lowest(0); put(p[1], ID_PIPE + 2 * npipes + 1, !!(f & O_CLOEXEC));
    npipes++; return 0;
}
int vp_pipe(int p[2]) { return vp_pipe2(p, 0); }
int vp_dup2(int a, int b)
{
    if (!isopen(a) || b < 0 || b >= NFD) { errno = EBADF; return -1; }
    if (a != b) put(b, T[a], 0);
    return b;
}
int vp_dup(int a) { int b; if (!isopen(a)) { errno = EBADF; return -1; } b = lowest(0); put(b, T[a], 0); return b; }
int vp_close(int a)
{
    if (!isopen(a)) { if (!inChild && a >= 0 && a < NFD) vp_fail("a descriptor that is not open is closed"); errno = EBADF; return -1; }
    T[a] = 0; return 0;
}
int vp_open(const char *p, int f, ...)
{
    int n;
    if (anyFile && strcmp(p, "/dev/null")) { n = lowest(0); put(n, ID_USER, 0); return n; }
    vp_assert(!strcmp(p, "/dev/null"), "only /dev/null is opened");
    n = lowest(0); put(n, ID_NULL + (f & O_ACCMODE), !!(f & O_CLOEXEC)); return n;
}
int vp_fcntl(int fd, int c, ...)
{
    va_list ap; int a = 0;
    va_start(ap, c); if (c == F_SETFL || c == F_SETFD || c == F_DUPFD || c == F_DUPFD_CLOEXEC) a = va_arg(ap, int); va_end(ap);
    if (!isopen(fd)) { errno = EBADF; return -1; }
    switch (c) {
    case F_GETFL: return fl[fd] | O_RDWR;
    case F_SETFL: fl[fd] = a; return 0;
    case F_GETFD: return cloex[fd] ? FD_CLOEXEC : 0;
    case F_SETFD: cloex[fd] = !!(a & FD_CLOEXEC); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int b = lowest(a); put(b, T[fd], c == F_DUPFD_CLOEXEC); return b; }
    }
    errno = EINVAL; return -1;
}
pid_t vp_fork(void)
{
    vp_assert(!inChild, "the child forks no further");
    if (forkFails) { errno = EAGAIN; return -1; }
    if (nforks++ == childFork) { inChild = 1; return 0; }
    return 1000 + nforks;
}
pid_t vp_vfork(void) { return vp_fork(); }
int vp_execvp(const char *f, char *const a[])
{
    int i;
    vp_assert(inChild, "only the child is replaced");
    if (execFails) { errno = ENOENT; return -1; }
    for (i = 0; i < NFD; i++) if (cloex[i]) T[i] = 0;
    execed = 1;
    if (onExec) onExec(f, a);
    longjmp(childEnd, 1);
}
long vp_sysconf(int n) { (void)n; return limit; }
