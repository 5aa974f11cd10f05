/* Logging: every message reaches every open sink once, and only those. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include "lens.h"
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <syslog.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
/* ---- the outside: files by name, directories, clock, syslog */
static struct { char name[4400]; char text[8400]; int n, open; } F[6]; static int nF, fd0;
static char dirs[8][40]; static int nd, openFails, eintr, day = 1, sysn, sysPrio, sysOpen, sysClosed, sysFac; static char sysText[64], sysIdent[16];
static int isdir(const char *p, int n) { int i; if (n == 0) return 1; for (i = 0; i < nd; i++) if ((int)strlen(dirs[i]) == n && !strncmp(dirs[i], p, n)) return 1; return 0; }
static int parent(const char *p) { int n = strlen(p); while (n > 0 && p[n - 1] != '/') n--; while (n > 0 && p[n - 1] == '/') n--; return isdir(p, n); }
int vp_mkdir(const char *p, mode_t m) { if (isdir(p, strlen(p))) { errno = EEXIST; return -1; } if (!parent(p)) { errno = ENOENT; return -1; } vp_assert(nd < 8, "few directories"); strcpy(dirs[nd++], p); vp_assert(m == 0755, "mode of a new directory"); return 0; }
int vp_open(const char *p, int fl, ...)
{
    int i; va_list ap;
    va_start(ap, fl); vp_assert(va_arg(ap, int) == 0644, "mode of a new file"); va_end(ap);
    vp_assert((fl & O_ACCMODE) != O_RDONLY && (fl & O_CREAT) && (fl & O_APPEND) && !(fl & O_TRUNC), "log files are created and appended to");
    if (openFails) { errno = EACCES; return -1; }
    if (!parent(p)) { errno = ENOENT; return -1; }
    for (i = 0; i < nF; i++) if (!strcmp(F[i].name, p)) break;
    if (i == nF) { vp_assert(nF < 6, "few files"); strcpy(F[nF++].name, p); }
    vp_assert(!F[i].open, "not opened twice"); F[i].open = 1; return fd0 + i;
}
int vp_close(int fd) { vp_assert(fd >= fd0 && fd < fd0 + nF && F[fd - fd0].open, "an open log file is closed"); F[fd - fd0].open = 0; return 0; }
ssize_t vp_write(int fd, const void *b, size_t n)
{
    vp_assert(fd >= fd0 && fd < fd0 + nF && F[fd - fd0].open, "an open log file is written");
    if (eintr > 0) switch (vp_choice(n > 1 ? 5 : 2, "eintr")) {             /* interrupted, before or after some bytes */
    case 1: eintr--; errno = EINTR; return -1;
    case 2: eintr--; n = 1; break;
    case 3: eintr--; n /= 2; break;
    case 4: eintr--; n--; break;
    }
    memcpy(F[fd - fd0].text + F[fd - fd0].n, b, n); F[fd - fd0].n += n; F[fd - fd0].text[F[fd - fd0].n] = 0; return n;
}
/* the user's stream is flushed after every message and closed with the sink; standard streams stay open */
static FILE *str; static int flushed, closed; extern int real_fflush(FILE *) __asm__("fflush"), real_fclose(FILE *) __asm__("fclose");
int vp_fflush(FILE *f) { if (!f || f == str) flushed = 1; return real_fflush(f); }
int vp_fclose(FILE *f) { vp_assert(str && f == str, "only the stream handed over is closed"); closed++; return real_fclose(f); }
static struct tm TM; static int sec, pid = 4242;      /* the clock: 100 seconds make a day */
time_t vp_time(time_t *t) { time_t r = day * 100 + sec; if (t) *t = r; return r; }
struct tm *vp_localtime(const time_t *t) { TM.tm_mday = *t / 100; TM.tm_sec = *t % 100; return &TM; }
struct tm *vp_gmtime(const time_t *t) { TM.tm_mday = (*t - 50) / 100; TM.tm_sec = (*t + 50) % 100; return &TM; }   /* half a day away */
char *vp_ctime(const time_t *t) { static char b[32]; memcpy(b, "Thu Jan  1 00:00:00 1970\n", 26); b[9] += *t / 100 - 1; b[17] += *t % 100 / 10; b[18] += *t % 10; return b; }
pid_t vp_getpid(void) { return pid; }
/* %d is the day, %c takes 24 characters, %p may be empty; what does not fit leaves rubbish */
static size_t expand(char *b, size_t n, const char *f, int d)
{
    size_t k = 0, j, m;
    for (; *f; f++) { char c = *f; m = 1; if (c == '%') { f++; m = *f == 'c' ? 24 : *f == 'p' ? 0 : 1; c = '0' + d; } if (k + m >= n) { memset(b, 'U', n); return 0; } for (j = 0; j < m; j++) b[k++] = c; }
    b[k] = 0; return k;
}
size_t vp_strftime(char *b, size_t n, const char *f, const struct tm *t) { return expand(b, n, f, t->tm_mday); }
int vp_gethostname(char *b, size_t n) { vp_assert(n > 9, "room"); memcpy(b, "hst.dom.x", 10); return 0; }
void vp_openlog(const char *i, int o, int f) { vp_assert(!sysOpen, "opened once"); sysOpen = 1; sysFac = f; strcpy(sysIdent, i); (void)o; }
void vp_closelog(void) { vp_assert(sysOpen, "closed when open"); sysOpen = 0; sysClosed++; }
void vp_vsyslog(int p, const char *f, va_list ap) { vp_assert(sysOpen, "syslog only while open"); sysn++; sysPrio = p; vsnprintf(sysText, sizeof sysText, f, ap); }
/* ---- what is expected */
static char *sbuf; static size_t slen; static int std, fileOn, strOn, sysOn, nofull; static size_t smark; static int fmark[6], smk;
static char want[8400];
static void wanted(const char *routine, const char *msg)
{
    want[0] = 0;
    if (!nofull) sprintf(want, "Thu Jan  %d 00:00:%02d 1970 hst me[%d]: ", day, sec, pid);
    if (routine) { strcat(want, "("); strcat(want, routine); strcat(want, ") "); }
    strcat(want, msg); strcat(want, "\n");
}
static size_t curs(const char **t) { size_t n; if (std) { *t = vp_captured(&stderr, &n); return n; } if (!str && !sbuf) { *t = ""; return 0; } if (str) fflush(str); *t = sbuf; return slen; }
static void fname(char *b, const char *f) { expand(b, 4400, f, day); }
static const char *fmtName = "d/e/l.%d", *cur;
static void mark(void) { int i; const char *t; for (i = 0; i < 6; i++) fmark[i] = F[i].n; smark = curs(&t); smk = sysn; flushed = 0; }
static void verify(const char *routine, const char *msg, int prio)
{
    int i; const char *t; static char b[4400]; size_t n; int found = 0;
    wanted(routine, msg); fname(b, fmtName);
    for (i = 0; i < nF; i++) {
        if (fileOn && !strcmp(F[i].name, b)) { found = 1; vp_assert(F[i].n - fmark[i] == (int)strlen(want) && !memcmp(F[i].text + fmark[i], want, strlen(want)), "the file gets the message once"); vp_assert(F[i].open, "current file is open"); }
        else { vp_assert(F[i].n == fmark[i], "other files get nothing"); vp_assert(!F[i].open, "other files are closed"); }
    }
    vp_assert(found == fileOn, "the file of the day exists");
    if (strOn && !std) vp_assert(flushed, "the message is not kept back");
    n = curs(&t);
    if (strOn) { const char *w = std ? msg : want; vp_assert(n - smark == strlen(w) && !memcmp(t + smark, w, strlen(w)), "the stream gets the message once"); }
    else vp_assert(n == smark, "a closed stream gets nothing");
    vp_assert(sysn - smk == sysOn, "syslog gets the message once");
    if (sysOn) { vp_assert(sysPrio == prio, "priority"); vp_assert(!strcmp(sysText, msg), "syslog text"); }
}
static void file(int on) { if (on) { { char id[4], f[24]; strcpy(id, "me"); strcpy(f, fmtName); log_file(id, f); memset(id, 'Q', 3); memset(f, 'Q', 23); } fileOn = 1; } else { int k = vp_choice(3, "null"); log_file(k == 1 ? "me" : NULL, k == 2 ? "f" : NULL); fileOn = 0; } }
static void stream(int on) { if (on) { if (std) log_stream("me", stderr); else { free(sbuf); sbuf = NULL; str = open_memstream(&sbuf, &slen); fflush(str); { char id[4]; strcpy(id, "me"); log_stream(id, str); memset(id, 'Q', 3); } } strOn = 1; } else { int c = closed; log_stream(vp_choice(2, "null") ? "me" : NULL, NULL); vp_assert(closed - c == (strOn && !std), "the stream is closed with the sink"); strOn = 0; if (!std) str = NULL; } }
static void sys(int on) { if (on) log_syslog("si"); else log_syslog(NULL); sysOn = on; }
static void twice(int what) { if (VP_CATCH) { if (what == 0) log_file("x", "y"); else if (what == 1) log_stream("x", stdout); else log_syslog("x"); VP_END_CATCH; vp_fail("a sink is opened once"); } vp_assert(vp_end_kind == 2, "a second open of a sink is an internal error"); }
static int kinds;
static void va_error(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
static void va_info(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
static void message(int k)
{
    int v = 40 + kinds; char m[40];
    sec += 3; mark();
    kinds++;
    switch (k < 0 ? vp_choice(5, "msg") : k) {
    case 0: log_info("v=%d %s", v, "tail"); sprintf(m, "v=%d %s", v, "tail"); verify(NULL, m, LOG_INFO); break;
    case 1: log_error("rout", "%s:%d", "e", v); sprintf(m, "%s:%d", "e", v); verify("rout", m, LOG_ERR); break;
    case 3: va_error("r2", "%c%s", 'q', "z"); verify("r2", "qz", LOG_ERR); break;
    case 4: va_info("%d%%", v); sprintf(m, "%d%%", v); verify(NULL, m, LOG_INFO); break;
    case 2: log_error(NULL, "100%%"); verify(NULL, "100%", LOG_ERR); break;
    }
}
void harness(void)
{
    int mode = vp_param("mode", 0), ops = vp_param("ops", 3), i; long live0;
    fd0 = vp_param("fd0", 40);
    vp_capture(&stderr); live0 = vp_live();
    if (mode == 0) {
        std = vp_choice(2, "std"); nofull = vp_choice(2, "nofull"); log_option(nofull ? LOG_OPTION_NO_FULL : LOG_OPTION_FULL); eintr = vp_param("eintr", 1);
        if (vp_choice(2, "path")) { fmtName = "/q/l"; }
        if (vp_choice(2, "f0")) file(1); if (vp_choice(2, "s0")) stream(1); if (vp_choice(2, "y0")) sys(1);
        for (i = 0; i < ops; i++) {
            switch (vp_choice(7, "op")) {
            case 0: file(!fileOn); break;
            case 1: if (std || !sbuf || !strOn) stream(!strOn); else stream(0); break;
            case 2: sys(!sysOn); break;
            case 3: day++; break;
            case 5: pid++; break;             /* a child process goes on logging */
            case 6: maa_init("p"); maa_shutdown(); break;      /* the log outlives the rest of the library */
            case 4: log_close(); fileOn = strOn = sysOn = 0; if (!std) str = NULL; vp_assert(!sysOpen, "syslog is closed"); break;
            }
            message(i == ops - 1 ? -1 : 1);
        }
        message(0);
        i = closed; log_close(); vp_assert(closed - i == (strOn && !std), "the stream is closed with the sink"); fileOn = strOn = sysOn = 0; if (!std) str = NULL;
        for (i = 0; i < nF; i++) vp_assert(!F[i].open, "files are closed at the end");
        message(1);
        str_destroy(); free(sbuf); vp_assert(vp_live() == live0, "nothing leaks");
        vp_reach("end");
    } else if (mode == 1) {                  /* opening failures and double opens */
        int w = vp_choice(7, "what");
        if (w < 3) { std = 1; file(1); stream(1); sys(1); twice(w); vp_reach("twice"); }
        else {
            std = 1;
            if (w == 4) file(1);
            openFails = w < 5; day++; if (w >= 5) fmtName = w == 5 ? "" : "%p%p";
            if (VP_CATCH) { if (w != 4) log_file("me", fmtName); else log_info("x"); VP_END_CATCH; vp_fail("a log file that cannot be opened is an error"); }
            vp_assert(vp_end_kind == 1 && vp_end_code == 1, "a log file that cannot be opened ends the program"); vp_reach("open");
        }
    } else if (mode == 2) {                  /* facilities */
        static const struct { const char *n; int v; } fa[] = { { "auth", LOG_AUTH }, { "authpriv", LOG_AUTHPRIV }, { "cron", LOG_CRON }, { "daemon", LOG_DAEMON }, { "ftp", LOG_FTP }, { "lpr", LOG_LPR }, { "mail", LOG_MAIL }, { "news", LOG_NEWS }, { "syslog", LOG_SYSLOG }, { "user", LOG_USER }, { "uucp", LOG_UUCP }, { "local0", LOG_LOCAL0 }, { "local1", LOG_LOCAL1 }, { "local2", LOG_LOCAL2 }, { "local3", LOG_LOCAL3 }, { "local4", LOG_LOCAL4 }, { "local5", LOG_LOCAL5 }, { "local6", LOG_LOCAL6 }, { "local7", LOG_LOCAL7 } };
        int k = vp_choice(19, "k"), bad = vp_choice(2, "bad");
        vp_assert(!strcmp(log_get_facility(), "user"), "default facility");
        log_set_facility(fa[k].n); vp_assert(!strcmp(log_get_facility(), fa[k].n), "facility read back");
        if (bad) { char b[8]; vp_bytes(b, 3, "name"); b[3] = 0; vp_assume(b[0] && b[1] && b[2]); vp_assume(!(b[0] == 'f' && b[1] == 't' && b[2] == 'p') & !(b[0] == 'l' && b[1] == 'p' && b[2] == 'r'));
                   if (VP_CATCH) { log_set_facility(b); VP_END_CATCH; vp_fail("an unknown facility is refused"); } vp_assert(vp_end_kind == 1 && vp_end_code == 1, "an unknown facility ends the program"); vp_reach("bad"); }
        vp_assert(!strcmp(log_get_facility(), fa[k].n), "facility stays");
        log_syslog("id"); vp_assert(sysOpen && sysFac == fa[k].v && !strcmp(sysIdent, "id"), "syslog is opened with the facility"); log_close(); vp_assert(!sysOpen, "closed"); vp_reach("end");
    } else if (mode == 4) {                  /* long file names, names of routines and of the program */
        static char fn[4400], rt[4300], id[4300], w[9000]; int l = a_length("len"), which = vp_choice(3, "which"), k, m;
        k = which == 0 ? l - 2 : 3; a_text(fn, k, 0); strcat(fn, "%d"); if (vp_choice(2, "end")) strcat(fn, ".log"); a_text(rt, which == 1 ? (l > 3000 ? 3000 : l) : 2, 1); a_text(id, which == 2 ? l : 2, 2); rt[0] = 'R'; id[0] = 'I'; fmtName = fn;
        k = strlen(fn); log_file(id, fn);
        if (which == 0) { fn[k] = 0; fname(w, fn); vp_assert(nF == 1 && !strcmp(F[0].name, w), "the file of the day"); }
        log_error(rt, "message %d", 7); F[0].text[F[0].n] = 0;
        sprintf(w, "(%s) message 7\n", rt); m = strlen(w); vp_assert(F[0].n > m && !strcmp(F[0].text + F[0].n - m, w), "the routine and the message are logged in full");
        if (which != 2 || l < 200) { sprintf(w, "Thu Jan  %d 00:00:%02d 1970 hst %s[%d]: ", day, sec, id, pid); vp_assert(!strncmp(F[0].text, w, strlen(w)) && F[0].n == m + (int)strlen(w), "time, host, program and process"); }
        day++; log_info("again"); vp_assert(nF == 2 && F[1].n > 6 && !F[0].open, "the next day has a file of its own"); F[1].text[F[1].n] = 0; vp_assert(!strcmp(F[1].text + F[1].n - 6, "again\n"), "the message");
        log_close(); vp_assert(!F[1].open, "closed"); str_destroy(); vp_assert(vp_live() == live0, "nothing leaks"); vp_reach("long"); return;
    } else if (mode == 5) {                  /* names much longer than their patterns */
        static char fn[400], w[4400]; static const int ks[] = { 1, 5, 57, 58, 64, 85, 86, 120, 170 }; int i, k = ks[vp_choice(9, "specs")]; 
        for (i = 0; i < k; i++) strcpy(fn + 2 * i, "%c"); if (vp_choice(2, "plain")) strcat(fn, "%d.x"); fmtName = fn;
        log_file("me", fn); fname(w, fn); vp_assert(nF == 1 && !strcmp(F[0].name, w), "the file of the day");
        day++; log_info("again"); fname(w, fn); vp_assert(nF == 2 && !strcmp(F[1].name, w) && !F[0].open && F[1].n > 6, "the next day has a file of its own");
        log_close(); str_destroy(); vp_assert(vp_live() == live0, "nothing leaks"); vp_reach("expand"); return;
    } else {                                 /* long texts: never past a buffer, the beginning is kept */
        static const int ln[] = { 1, 4000, 4094, 4095, 4096, 8192 }; int n = ln[vp_choice(6, "n")], k = vp_choice(2, "routine"), m; char *b = xmalloc(n + 1);
        memset(b, 'x', n); b[n] = 0; fmtName = "l";
        file(1); stream(1); mark();
        if (k) log_error("r", "%s", b); else log_info("%s", b);
        wanted(k ? "r" : NULL, ""); m = strlen(want) - 1;
        vp_assert(F[0].n >= m + (n < 4000 ? n : 4000) && !strncmp(F[0].text, want, m) && F[0].text[F[0].n - 1] == '\n' && F[0].text[m + (n < 4000 ? n : 4000) - 1] == 'x', "a long message is cut, not lost");
        xfree(b); log_close(); vp_reach("end");
    }
    str_destroy();
}
