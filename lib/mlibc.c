/* C library model for the engine only (natively the real one is used).
   Written from the ISO C / POSIX descriptions; values of malloc, memcpy,
   setjmp ... are provided by the engine itself. */
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#undef errno
#include "vp.h"

void vp_sysexit(const char *);
static int the_errno;
int *__errno_location(void) { return &the_errno; }

/* ---------------------------------------------------------------- strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) a++, b++;
    return *(const unsigned char*)a - *(const unsigned char*)b;
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncmp(const char *a, const char *b, size_t n)
{
    while (n && *a && *a == *b) a++, b++, n--;
    return n ? *(const unsigned char*)a - *(const unsigned char*)b : 0;
}
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b)
{
    while (*a && lo((unsigned char)*a) == lo((unsigned char)*b)) a++, b++;
    return lo(*(const unsigned char*)a) - lo(*(const unsigned char*)b);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    while (n && *a && lo((unsigned char)*a) == lo((unsigned char)*b)) a++, b++, n--;
    return n ? lo(*(const unsigned char*)a) - lo(*(const unsigned char*)b) : 0;
}
int memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n; n--, a++, b++) if (*a != *b) return *a - *b;
    return 0;
}
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void *memchr(const void *p, int c, size_t n)
{
    const unsigned char *s = p;
    for (; n; n--, s++) if (*s == (unsigned char)c) return (void*)s;
    return NULL;
}
void *memrchr(const void *p, int c, size_t n)
{
    const unsigned char *s = p;
    while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n);
    return NULL;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
    char *p = d + strlen(d);
    while (n && *s) *p++ = *s++, n--;
    *p = 0;
    return d;
}
size_t strlcpy(char *d, const char *s, size_t n)
{
    size_t l = strlen(s);
    if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; }
    return l;
}
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strstr(const char *h, const char *n)
{
    size_t l = strlen(n);
    if (!l) return (char*)h;
    for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h;
    return NULL;
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char*)s : NULL; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *__strdup(const char *s) { return strdup(s); }
char *strerror(int e) { static char b[40]; sprintf(b, "error %d", e); return b; }
char *strsignal(int e) { static char b[40]; sprintf(b, "signal %d", e); return b; }
char *strtok_r(char *s, const char *d, char **sv)
{
    char *r;
    if (!s) s = *sv;
    s += strspn(s, d);
    if (!*s) { *sv = s; return NULL; }
    r = s; s += strcspn(s, d);
    if (*s) *s++ = 0;
    *sv = s;
    return r;
}
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }

/* ---------------------------------------------------------------- ctype (C locale) */
#define U 0x100   /* _ISupper ... as in <ctype.h>, little endian */
static unsigned short ctab[384];
static int lotab[384], uptab[384];
static const unsigned short *ctabp; static const int *lotabp, *uptabp;
void vp_mlibc_init(void)
{
    int c;
    for (c = 0; c < 256; c++) {
        unsigned short f = 0;
        int up = c >= 'A' && c <= 'Z', dn = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
        if (up) f |= _ISupper | _ISalpha;
        if (dn) f |= _ISlower | _ISalpha;
        if (dg) f |= _ISdigit;
        if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) f |= _ISxdigit;
        if (c == ' ' || (c >= 9 && c <= 13)) f |= _ISspace;
        if (c >= 32 && c < 127) f |= _ISprint;
        if (c > 32 && c < 127) f |= _ISgraph;
        if (c == ' ' || c == '\t') f |= _ISblank;
        if (c < 32 || c == 127) f |= _IScntrl;
        if (c > 32 && c < 127 && !up && !dn && !dg) f |= _ISpunct;
        if (up || dn || dg) f |= _ISalnum;
        ctab[128 + c] = f;
        lotab[128 + c] = up ? c + 32 : c;
        uptab[128 + c] = dn ? c - 32 : c;
    }
    for (c = -128; c < -1; c++) { ctab[128 + c] = ctab[128 + 256 + c]; lotab[128 + c] = uptab[128 + c] = 256 + c; }
    lotab[127] = uptab[127] = -1;
    ctabp = ctab + 128; lotabp = lotab + 128; uptabp = uptab + 128;
}
const unsigned short **__ctype_b_loc(void) { return &ctabp; }
const int **__ctype_tolower_loc(void) { return &lotabp; }
const int **__ctype_toupper_loc(void) { return &uptabp; }
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isprint
#undef ispunct
#undef isxdigit
#undef iscntrl
#undef isgraph
#undef isblank
#undef tolower
#undef toupper
int isspace(int c) { return ctabp[c] & _ISspace; }
int isdigit(int c) { return ctabp[c] & _ISdigit; }
int isalpha(int c) { return ctabp[c] & _ISalpha; }
int isalnum(int c) { return ctabp[c] & _ISalnum; }
int isupper(int c) { return ctabp[c] & _ISupper; }
int islower(int c) { return ctabp[c] & _ISlower; }
int isprint(int c) { return ctabp[c] & _ISprint; }
int ispunct(int c) { return ctabp[c] & _ISpunct; }
int isxdigit(int c) { return ctabp[c] & _ISxdigit; }
int iscntrl(int c) { return ctabp[c] & _IScntrl; }
int isgraph(int c) { return ctabp[c] & _ISgraph; }
int isblank(int c) { return ctabp[c] & _ISblank; }
int tolower(int c) { return lo(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

/* ---------------------------------------------------------------- stdlib */
static unsigned long conv(const char *s, char **end, int base)
{
    unsigned long v = 0; int neg = 0, any = 0; const char *s0 = s;
    while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
    if (*s == '-') neg = 1, s++; else if (*s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; }
    else if (base == 0) base = *s == '0' ? 8 : 10;
    for (;; s++) {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'z' ? (*s | 32) - 'a' + 10 : 99;
        if (d >= base) break;
        v = v * base + d; any = 1;
    }
    if (end) *end = (char*)(any ? s : s0);
    return neg ? -v : v;
}
long vpc_strtol(const char *s, char **end, int base) __asm__("strtol");
long vpc_strtol(const char *s, char **end, int base) { return (long)conv(s, end, base); }
long vpc___isoc23_strtol(const char *s, char **end, int base) __asm__("__isoc23_strtol");
long vpc___isoc23_strtol(const char *s, char **end, int base) { return (long)conv(s, end, base); }
unsigned long vpc_strtoul(const char *s, char **end, int base) __asm__("strtoul");
unsigned long vpc_strtoul(const char *s, char **end, int base) { return (unsigned long)conv(s, end, base); }
unsigned long vpc___isoc23_strtoul(const char *s, char **end, int base) __asm__("__isoc23_strtoul");
unsigned long vpc___isoc23_strtoul(const char *s, char **end, int base) { return (unsigned long)conv(s, end, base); }
long long vpc_strtoll(const char *s, char **end, int base) __asm__("strtoll");
long long vpc_strtoll(const char *s, char **end, int base) { return (long long)conv(s, end, base); }
long long vpc___isoc23_strtoll(const char *s, char **end, int base) __asm__("__isoc23_strtoll");
long long vpc___isoc23_strtoll(const char *s, char **end, int base) { return (long long)conv(s, end, base); }
unsigned long long vpc_strtoull(const char *s, char **end, int base) __asm__("strtoull");
unsigned long long vpc_strtoull(const char *s, char **end, int base) { return (unsigned long long)conv(s, end, base); }
unsigned long long vpc___isoc23_strtoull(const char *s, char **end, int base) __asm__("__isoc23_strtoull");
unsigned long long vpc___isoc23_strtoull(const char *s, char **end, int base) { return (unsigned long long)conv(s, end, base); }
int atoi(const char *s) { return (int)conv(s, NULL, 10); }
long atol(const char *s) { return (long)conv(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
char *getenv(const char *n) { (void)n; return NULL; }
void *reallocarray(void *p, size_t n, size_t m) { if (m && n > (size_t)-1 / m) return NULL; return realloc(p, n * m); }
long long llabs(long long x) { return x < 0 ? -x : x; }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
int ffs(int x) { int i; for (i = 0; i < 32; i++) if ((unsigned)x >> i & 1) return i + 1; return 0; }
int ffsl(long x) { int i; for (i = 0; i < 64; i++) if ((unsigned long)x >> i & 1) return i + 1; return 0; }
/* intrinsics of the compiler: llvm.x.iN is vpi_x_iN */
#define BITS(N, T, S) \
T vpi_ctpop_i##N(T x) { T n = 0; int i; for (i = 0; i < N; i++) n += x >> i & 1; return n; } \
T vpi_ctlz_i##N(T x, _Bool z) { int i; (void)z; for (i = 0; i < N; i++) if (x >> (N - 1 - i) & 1) break; return i; } \
T vpi_cttz_i##N(T x, _Bool z) { int i; (void)z; for (i = 0; i < N; i++) if (x >> i & 1) break; return i; } \
T vpi_bswap_i##N(T x) { T r = 0; int i; for (i = 0; i < N; i += 8) r |= (T)((x >> i & 255) << (N - 8 - i)); return r; } \
T vpi_abs_i##N(S x, _Bool z) { (void)z; return x < 0 ? -(T)x : (T)x; } \
T vpi_fshl_i##N(T a, T b, T n) { n %= N; return n ? (T)(a << n | b >> (N - n)) : a; } \
T vpi_fshr_i##N(T a, T b, T n) { n %= N; return n ? (T)(a << (N - n) | b >> n) : b; } \
T vpi_umax_i##N(T a, T b) { return a > b ? a : b; } \
T vpi_umin_i##N(T a, T b) { return a < b ? a : b; } \
S vpi_smax_i##N(S a, S b) { return a > b ? a : b; } \
S vpi_smin_i##N(S a, S b) { return a < b ? a : b; } \
struct ov vpi_uadd_with_overflow_i##N(T a, T b) { struct ov r; r.v = (T)(a + b); r.o = (T)(a + b) < a; return r; } \
struct ov vpi_usub_with_overflow_i##N(T a, T b) { struct ov r; r.v = (T)(a - b); r.o = a < b; return r; } \
struct ov vpi_umul_with_overflow_i##N(T a, T b) { struct ov r; r.v = (T)(a * b); r.o = a && (T)(a * b) / a != b; return r; } \
struct ov vpi_sadd_with_overflow_i##N(S a, S b) { struct ov r; T v = (T)a + (T)b; r.v = v; r.o = (((T)a ^ v) & ((T)b ^ v)) >> (N - 1) & 1; return r; } \
struct ov vpi_ssub_with_overflow_i##N(S a, S b) { struct ov r; T v = (T)a - (T)b; r.v = v; r.o = (((T)a ^ (T)b) & ((T)a ^ v)) >> (N - 1) & 1; return r; } \
struct ov vpi_smul_with_overflow_i##N(S a, S b) { struct ov r; T v = (T)a * (T)b; r.v = v; r.o = a == -1 ? (T)b == (T)1 << (N - 1) : a && (S)v / a != b; return r; }
struct ov { uint64_t v, o; };
BITS(32, uint32_t, int32_t)
BITS(64, uint64_t, int64_t)
uint16_t vpi_bswap_i16(uint16_t x) { return x << 8 | x >> 8; }
double vpi_fabs_f64(double x) { return x < 0.0 ? -x : x == 0.0 ? 0.0 : x; }
double vpi_fmuladd_f64(double a, double b, double c) { return a * b + c; }
double vpi_floor_f64(double x) { double t = (double)(long)x; return t > x ? t - 1.0 : t; }
double vpi_trunc_f64(double x) { return (double)(long)x; }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    size_t i, j; char *a = b; char t[256];
    if (w > sizeof t) vp_sysexit("qsort");
    for (i = 1; i < n; i++) {
        memcpy(t, a + i * w, w);
        for (j = i; j > 0 && cmp(a + (j - 1) * w, t) > 0; j--) memcpy(a + j * w, a + (j - 1) * w, w);
        memcpy(a + j * w, t, w);
    }
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    size_t l = 0, h = n;
    while (l < h) {
        size_t m = l + (h - l) / 2; const char *p = (const char*)b + m * w; int r = cmp(k, p);
        if (!r) return (void*)p;
        if (r < 0) h = m; else l = m + 1;
    }
    return NULL;
}

/* ---------------------------------------------------------------- stdio */
typedef struct mf {
    int kind;              /* 1 memory sink, 2 memory source, 3 dynamic sink (open_memstream), 4 growing file, 5 discard, 9 closed */
    char *buf; size_t len, cap, pos; char **ub; size_t *ul;
    int eof, err, unget, fd, own;
} MF;
static char outb[32768], errb[32768], outB[1 << 19], errB[1 << 19];    /* the big ones take over when the small ones are full */
static MF m_out = { 1, outb, 0, sizeof outb, 0, 0, 0, 0, 0, -1, 1, 0 };
static MF m_err = { 1, errb, 0, sizeof errb, 0, 0, 0, 0, 0, -1, 2, 0 };
static MF m_in  = { 2, "", 0, 0, 0, 0, 0, 0, 0, -1, 0, 0 };
FILE *stdout = (FILE*)&m_out, *stderr = (FILE*)&m_err, *stdin = (FILE*)&m_in;

static void put1(MF *f, char c)
{
    if (!f || f->kind == 9) { vp_fail("write to a closed stream"); return; }
    if (f->kind == 5) return;
    if (f->kind == 2) { f->err = 1; return; }
    if (f->kind == 1) {
        if (f->len == f->cap && f->buf == outb) { memcpy(outB, outb, sizeof outb); f->buf = outB; f->cap = sizeof outB; }
        if (f->len == f->cap && f->buf == errb) { memcpy(errB, errb, sizeof errb); f->buf = errB; f->cap = sizeof errB; }
        if (f->len < f->cap) f->buf[f->len++] = c; else if (f->fd > 0) vp_fail("more text than the model of the standard streams keeps"); return; }
    if (f->len + 1 >= f->cap) {
        f->cap = f->cap * 2 + 32;
        f->buf = realloc(f->buf, f->cap);
    }
    f->buf[f->len++] = c; f->buf[f->len] = 0;
    if (f->ub) { *f->ub = f->buf; *f->ul = f->len; }
}
FILE *open_memstream(char **p, size_t *n)
{
    MF *f = calloc(1, sizeof *f);
    f->kind = 3; f->unget = -1; f->ub = p; f->ul = n; f->cap = 64; f->buf = malloc(64); f->buf[0] = 0; *p = f->buf; *n = 0; f->fd = -1;
    return (FILE*)f;
}
FILE *fmemopen(void *b, size_t n, const char *mode)
{
    MF *f = calloc(1, sizeof *f);
    f->unget = -1; f->buf = b; f->fd = -1;
    if (mode[0] == 'r') { f->kind = 2; f->len = n; } else { f->kind = 1; f->cap = n; }
    return (FILE*)f;
}
int fclose(FILE *s)
{
    MF *f = (MF*)s;
    if (f == &m_out || f == &m_err || f == &m_in) { return 0; }
    if (f->kind == 9) { vp_fail("stream closed twice"); return -1; }
    if (f->own) free(f->buf);
    f->kind = 9;
    free(f);
    return 0;
}
int fflush(FILE *s) { if (s && ((MF*)s)->kind == 9) vp_fail("flush of a closed stream"); return 0; }
int setvbuf(FILE *s, char *b, int m, size_t n) { (void)s; (void)b; (void)m; (void)n; return 0; }
void setbuf(FILE *s, char *b) { (void)s; (void)b; }
int fseek(FILE *s, long o, int w) { MF *f = (MF*)s; (void)o; (void)w; if (f->kind == 9) vp_fail("seek in a closed stream"); return 0; }
int fileno(FILE *s) { return ((MF*)s)->fd; }
int feof(FILE *s) { return ((MF*)s)->eof; }
int ferror(FILE *s) { return ((MF*)s)->err; }
void clearerr(FILE *s) { ((MF*)s)->eof = ((MF*)s)->err = 0; }
int fputc(int c, FILE *s) { put1((MF*)s, (char)c); return (unsigned char)c; }
#undef putc
#undef getc
#undef putchar
int putc(int c, FILE *s) { return fputc(c, s); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *p, FILE *s) { for (; *p; p++) put1((MF*)s, *p); return 1; }
int puts(const char *p) { fputs(p, stdout); putchar('\n'); return 1; }
size_t fwrite(const void *p, size_t n, size_t m, FILE *s) { size_t i; const char *c = p; for (i = 0; i < n * m; i++) put1((MF*)s, c[i]); return m; }
int fgetc(FILE *s)
{
    MF *f = (MF*)s;
    if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
    if (f->kind != 2 || f->pos >= f->len) { f->eof = 1; return EOF; }
    return (unsigned char)f->buf[f->pos++];
}
int getc(FILE *s) { return fgetc(s); }
int ungetc(int c, FILE *s) { ((MF*)s)->unget = c; return c; }
char *fgets(char *b, int n, FILE *s)
{
    int i = 0, c;
    while (i + 1 < n && (c = fgetc(s)) != EOF) { b[i++] = (char)c; if (c == '\n') break; }
    if (!i) return NULL;
    b[i] = 0;
    return b;
}
size_t fread(void *p, size_t n, size_t m, FILE *s)
{
    size_t i; int c; char *b = p;
    for (i = 0; i < n * m; i++) { if ((c = fgetc(s)) == EOF) break; b[i] = (char)c; }
    return n ? i / n : 0;
}
void perror(const char *p) { fprintf(stderr, "%s: %s\n", p, strerror(the_errno)); }

typedef struct { char *b; size_t n, pos; MF *f; int cnt; } Out;
static void oc(Out *o, char c)
{
    o->cnt++;
    if (o->f) put1(o->f, c);
    else if (o->pos + 1 < o->n) o->b[o->pos++] = c;
}
static void pad(Out *o, int n, char c) { while (n-- > 0) oc(o, c); }
static void emitNum(Out *o, const char *pre, const char *d, int len, int width, int prec, int left, int zero)
{
    int pl = (int)strlen(pre), z = prec > len ? prec - len : 0;
    if (prec < 0 && zero && !left && width > pl + len) z = width - pl - len;
    if (!left) pad(o, width - pl - z - len, ' ');
    while (*pre) oc(o, *pre++);
    pad(o, z, '0');
    for (int i = 0; i < len; i++) oc(o, d[i]);
    if (left) pad(o, width - pl - z - len, ' ');
}
static int doprintf(Out *o, const char *f, va_list ap)
{
    for (; *f; f++) {
        int left = 0, zero = 0, plus = 0, alt = 0, space = 0, width = 0, prec = -1, lng = 0;
        if (*f != '%') { oc(o, *f); continue; }
        for (f++;; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break;
        }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) left = 1, width = -width; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
        }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
        switch (*f) {
        case 0: return o->cnt;
        case '%': oc(o, '%'); break;
        case 'c': { char c = (char)va_arg(ap, int); if (!left) pad(o, width - 1, ' '); oc(o, c); if (left) pad(o, width - 1, ' '); break; }
        case 's': {
            const char *s = va_arg(ap, const char*); int n = 0;
            if (!s) s = "(null)";
            if (width) {
                while ((prec < 0 || n < prec) && s[n]) n++;
                if (!left) pad(o, width - n, ' ');
                for (int i = 0; i < n; i++) oc(o, s[i]);
                if (left) pad(o, width - n, ' ');
            } else while ((prec < 0 || n < prec) && s[n]) oc(o, s[n++]);
            break;
        }
        case 'd': case 'i': {
            long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); char b[24]; int i = 24; unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v;
            if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v;
            while (u) { b[--i] = '0' + u % 10; u /= 10; }
            if (i == 24 && prec != 0) b[--i] = '0';
            emitNum(o, v < 0 ? "-" : plus ? "+" : space ? " " : "", b + i, 24 - i, width, prec, left, zero);
            break;
        }
        case 'u': case 'x': case 'X': case 'o': case 'p': {
            unsigned long u = *f == 'p' ? (unsigned long)va_arg(ap, void*) : lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
            unsigned base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; char b[24]; int i = 24; const char *pre = "";
            if (lng == -1) u = (unsigned short)u; else if (lng == -2) u = (unsigned char)u;
            if (*f == 'p') { pre = "0x"; }
            else if (alt && u && base == 16) pre = *f == 'x' ? "0x" : "0X";
            { unsigned off = (*f == 'X' ? 'A' : 'a') - '0' - 10;      /* no branch per digit */
              if (base == 16) while (u) { unsigned d = u & 15; b[--i] = (char)('0' + d + (d > 9) * off); u >>= 4; }
              else if (base == 8) while (u) { b[--i] = (char)('0' + (u & 7)); u >>= 3; }
              else while (u) { b[--i] = (char)('0' + u % 10); u /= 10; } }
            if (i == 24 && prec != 0) b[--i] = '0';
            emitNum(o, pre, b + i, 24 - i, width, prec, left, zero);
            break;
        }
        case 'f': case 'F': case 'g': case 'e': {
            double v = va_arg(ap, double); char b[40]; int i = 40, neg = 0, k; unsigned long ip, fp, sc = 1;
            if (prec < 0) prec = 6;
            if (v < 0) neg = 1, v = -v;
            for (k = 0; k < prec; k++) sc *= 10;
            v = v + 0.5 / (double)sc; ip = (unsigned long)v; fp = (unsigned long)((v - (double)ip) * (double)sc);
            for (k = 0; k < prec; k++) { b[--i] = '0' + fp % 10; fp /= 10; }
            if (prec) b[--i] = '.';
            do { b[--i] = '0' + ip % 10; ip /= 10; } while (ip);
            emitNum(o, neg ? "-" : "", b + i, 40 - i, width, -1, left, zero);
            break;
        }
        default: vp_sysexit("printf conversion");
        }
    }
    return o->cnt;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    Out o = { b, n, 0, NULL, 0 };
    doprintf(&o, f, ap);
    if (n) b[o.pos] = 0;
    return o.cnt;
}
int vsprintf(char *b, const char *f, va_list ap) { Out o = { b, (size_t)1 << 40, 0, NULL, 0 }; doprintf(&o, f, ap); b[o.pos] = 0; return o.cnt; }
int vfprintf(FILE *s, const char *f, va_list ap) { Out o = { 0, 0, 0, (MF*)s, 0 }; return doprintf(&o, f, ap); }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vsprintf(b, f, ap); va_end(ap); return r; }
int fprintf(FILE *s, const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vfprintf(s, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { int r; va_list ap; va_start(ap, f); r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vasprintf(char **p, const char *f, va_list ap)
{
    int n; va_list b;
    va_copy(b, ap); n = vsnprintf(NULL, 0, f, b); va_end(b);
    if (!(*p = malloc(n + 1))) return -1;
    vsnprintf(*p, n + 1, f, ap);
    return n;
}
int asprintf(char **p, const char *f, ...) { int n; va_list ap; va_start(ap, f); n = vasprintf(p, f, ap); va_end(ap); return n; }
char *strsep(char **s, const char *d) { char *r = *s; size_t n; if (!r) return NULL; n = strcspn(r, d); if (r[n]) { r[n] = 0; *s = r + n + 1; } else *s = NULL; return r; }
void *memccpy(void *d, const void *s, int c, size_t n) { char *p = d; const char *q = s; while (n--) if ((*p++ = *q++) == (char)c) return p; return NULL; }

/* ---------------------------------------------------------------- capture */
void vp_capture(FILE **slot) { MF *f = (MF*)*slot; f->len = 0; }
const char *vp_captured(FILE **slot, size_t *len) { MF *f = (MF*)*slot; if (f->len < f->cap) f->buf[f->len] = 0; if (len) *len = f->len; return f->buf; }
void vp_capture_reset(FILE **slot) { ((MF*)*slot)->len = 0; }

/* program entry: harness() after library-model start-up */
void harness(void);
int vp_main(void) { vp_mlibc_init(); harness(); return 0; }
