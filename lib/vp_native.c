/* Native side of vp.h: feeds the values found by the solver to the real build. */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
extern int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
#include "vp.h"

static char (*s_name)[64]; static int *s_w; static unsigned long long *s_v; static int s_n, s_i, s_cap;
static struct { char n[48]; long v; } prm[64]; static int prm_n;
static unsigned long long notes[65536]; static int notes_n;
static volatile long live; static int uncounted;
static int outfd = 1;

static void hook_m(const volatile void *p, size_t n) { (void)p; (void)n; if (!uncounted) live++; }
static void hook_f(const volatile void *p) { if (p) live--; }

static void finish(int code, const char *tag, const char *msg)
{
    char b[512]; int i, n = snprintf(b, sizeof b, "\nVP-%s %s\n", tag, msg);
    if (write(outfd, b, n) < 0) _exit(76);
    if (code == 0) for (i = 0; i < notes_n; i++) { n = snprintf(b, sizeof b, "VP-NOTE %llu\n", notes[i]); if (write(outfd, b, n) < 0) _exit(76); }
    _exit(code);
}
static unsigned long long next(const char *name, int w)
{
    if (s_i >= s_n) finish(79, "DIVERGED", name);
    if (strcmp(s_name[s_i], name) || s_w[s_i] != w) finish(79, "DIVERGED", name);
    return s_v[s_i++];
}
uint64_t vp_sym(int bits, const char *name) { return next(name, bits); }
void vp_bytes(void *p, size_t n, const char *name) { size_t i; for (i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(name, 8); }
void vp_assume_(int c) { if (!c) finish(78, "ASSUME", "assumption does not hold"); }
void vp_assert_(int c, const char *msg) { if (!c) finish(77, "ASSERT", msg); }
void vp_fail(const char *msg) { finish(77, "ASSERT", msg); }
void vp_sysexit(const char *msg) { finish(76, "HARNESS", msg); }
void vp_reach(const char *l) { (void)l; }
long vp_param(const char *n, long d) { int i; for (i = 0; i < prm_n; i++) if (!strcmp(prm[i].n, n)) return prm[i].v; return d; }
long vp_live(void) { return live; }
void vp_note(uint64_t v) { if (notes_n < 65536) notes[notes_n++] = v; }
uint64_t vp_conc(uint64_t v) { return v; }
void vp_done(void) { finish(0, "PASS", ""); }
int vp_symbolic(void) { return 0; }

/* streams caught in memory; what they need for themselves is not counted as allocated */
struct cap { FILE **slot; size_t len; FILE *f; char buf[1 << 20]; };
static struct cap caps[4];
static ssize_t capWrite(void *v, const char *b, size_t n) { struct cap *c = v; if (n > sizeof c->buf - 1 - c->len) finish(76, "HARNESS", "too much output"); memcpy(c->buf + c->len, b, n); c->len += n; c->buf[c->len] = 0; return n; }
static int capClose(void *v) { ((struct cap *)v)->f = NULL; return 0; }
static struct cap *capOf(FILE **slot) { int i; for (i = 0; i < 4; i++) if (caps[i].slot == slot || !caps[i].slot) { caps[i].slot = slot; return &caps[i]; } return 0; }
void vp_capture(FILE **slot)
{
    struct cap *c = capOf(slot);
    if (c->f) fflush(c->f);
    else { cookie_io_functions_t io = { NULL, capWrite, NULL, capClose }; uncounted = 1; c->f = fopencookie(c, "w", io); setvbuf(c->f, NULL, _IONBF, 0); uncounted = 0; }
    c->len = 0; c->buf[0] = 0; *slot = c->f;
}
const char *vp_captured(FILE **slot, size_t *len) { struct cap *c = capOf(slot); if (c->f) fflush(c->f); if (len) *len = c->len; return c->buf; }
void vp_capture_reset(FILE **slot) { vp_capture(slot); }

void harness(void);
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r"); char line[256], n[128];
    outfd = dup(1);
    if (argc < 2 || !f) return 76;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == 'P') { if (sscanf(line + 2, "%47s %ld", prm[prm_n].n, &prm[prm_n].v) == 2) prm_n++; }
        else if (line[0] == 'S') {
            int w; unsigned long long v;
            if (sscanf(line + 2, "%63s %d %llu", n, &w, &v) != 3) return 76;
            if (s_n == s_cap) { s_cap = s_cap * 2 + 64; s_name = realloc(s_name, s_cap * sizeof *s_name); s_w = realloc(s_w, s_cap * sizeof *s_w); s_v = realloc(s_v, s_cap * sizeof *s_v); }
            strcpy(s_name[s_n], n); s_w[s_n] = w; s_v[s_n] = v; s_n++;
        }
    }
    fclose(f);
    setvbuf(stdout, NULL, _IONBF, 0);
    __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
    if (vp_param("stack", 0)) { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = (rlim_t)(vp_param("stack", 0) + 64) << 10; setrlimit(RLIMIT_STACK, &rl); }
    harness();
    finish(0, "PASS", "");
    return 0;
}
