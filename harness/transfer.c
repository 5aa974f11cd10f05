/* pr_readwrite / pr_filter: every byte goes in once and in order, every byte of the output comes back. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include "procmodel.h"
#include <sys/select.h>
#include <sys/time.h>
#ifndef BUF
#define BUF 16
#endif
static unsigned char inb[BUF], produced[BUF], gotIn[BUF]; static int chunkIn, chunkOut; static int inLen, nprod, nin, nout, again, early, maxOut;
static int fin, fout, rdR, rdW, faults, waited, exitCode, eofSeen, sel, selIn, selOut;
static int fill;
static int B = ID_PIPE, pid = 1001;                /* the pipes and the process of this transfer */
static int openEnd(int id) { int i; for (i = 0; i < NFD; i++) if (T[i] == id) return 1; return 0; }
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    int i, c = 0, slow = 0;
    vp_assert(nin < inLen || !openEnd(B + 1), "the filter sees the end of its input before anyone waits for it"); vp_assert(!eofSeen, "no waiting after the end of the output");
    if (again > 0) { int k = vp_choice(3, "idle"); if (k) { again--; slow = 1; } if (k == 2) { errno = EINTR; return -1; } }      /* nothing yet, or a signal caught */
    if (faults == 3 && vp_choice(2, "enomem")) { faults = 9; errno = ENOMEM; return -1; }
    for (i = 0; i < NFD && (i < n || i < FD_SETSIZE); i++) {
        int x = i < n;
        if (r && FD_ISSET(i, r)) { vp_assert(isopen(i), "select on open descriptors"); if (!x || slow || T[i] != B + 2) FD_CLR(i, r); else c++; }
        if (w && FD_ISSET(i, w)) { vp_assert(isopen(i), "select on open descriptors"); if (!x || slow || T[i] != B + 1) FD_CLR(i, w); else c++; }
        if (e && FD_ISSET(i, e)) { vp_assert(isopen(i), "select on open descriptors"); FD_CLR(i, e); }
    }
    if (!slow) vp_assert(c > 0, "waits only while nothing can be moved");
    (void)t; sel = 1; selIn = selOut = !slow; return c;
}
ssize_t vp_write(int fd, const void *b, size_t n)
{
    int k;
    if (!isopen(fd)) { errno = EBADF; return -1; }
    vp_assert(T[fd] == B + 1, "input goes to the filter"); vp_assert(n > 0 && n <= (size_t)(inLen - nin), "nothing but the input is written");
    vp_assert((fl[fd] & O_NONBLOCK) || selIn, "writing does not block");
    selIn = 0;
    if (again > 0 && vp_choice(2, "wagain")) { again--; errno = EAGAIN; return -1; }
    if (faults == 1 && vp_choice(2, "epipe")) { faults = 9; errno = EPIPE; return -1; }
    if (chunkIn) k = (int)n < chunkIn ? (int)n : chunkIn; else
    k = 1 + vp_choice(n, "wn");
    memcpy(gotIn + nin, b, k); nin += k; return k;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
    int k, left = nprod - nout;
    if (!isopen(fd)) { errno = EBADF; return -1; }
    vp_assert(T[fd] == B + 2, "output comes from the filter"); vp_assert(!eofSeen, "no reading after the end"); vp_assert(n > 0, "there is room for what is read");
    vp_assert((fl[fd] & O_NONBLOCK) || selOut, "reading does not block");
    selOut = 0;
    if (faults == 2 && vp_choice(2, "eio")) { faults = 9; errno = EIO; return -1; }
    if (left > 0) {
        if (again > 0 && vp_choice(2, "ragain")) { again--; errno = EAGAIN; return -1; }
        if (chunkOut) { k = left < (int)n ? left : (int)n; if (k > chunkOut) k = chunkOut; } else
        k = 1 + vp_choice(left < (int)n ? left : (int)n, "rn");
        memcpy(b, produced + nout, k); nout += k; return k;
    }
    if (!openEnd(B + 1) || (early && vp_choice(2, "early"))) { eofSeen = 1; return 0; }
    errno = EAGAIN; return -1;
}
pid_t vp_waitpid(pid_t p, int *st, int opt) { vp_assert(p == pid && !waited, "the filter is waited for once"); vp_assert(eofSeen, "after the end of its output"); waited++; if (st) *st = exitCode << 8; (void)opt; return p; }
static int transfer(int round)
{
    int i, isize = round ? 1 : vp_param("in", 2), osize = round ? 1 : vp_param("out", 2), room, same = 1; char *ob, *ibuf; volatile int r = -5; volatile int ended = 0;
    if (round) { B += 2 * 2; pid++; nin = nout = waited = eofSeen = fin = fout = 0; }
#if BUF > 16                            /* much data, in pieces of one of some sizes */
    { static const int len[] = { 0, 1, 127, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000 }, piece[] = { 100000, 4096, 30011 }; int k = sizeof len / sizeof *len;
      int a = vp_choice(k, "inlen"), b = vp_choice(2, "outlen"); static const int o[] = { 0, 5 };
      inLen = len[a]; nprod = len[(a + o[b]) % k]; chunkIn = piece[vp_choice(3, "inpiece")]; chunkOut = piece[vp_choice(3, "outpiece")];
      room = nprod + vp_choice(3, "room") - 1; if (room < 0) room = 0; }
#else
    inLen = vp_choice(isize + 1, "inlen"); nprod = vp_choice(osize + 1, "outlen"); room = vp_choice(osize + 2, "room");
#endif
    exitCode = vp_sym(8, "code");
    again = vp_param("again", 1); early = vp_param("early", 0); faults = vp_param("fault", 0);
    ibuf = xmalloc(inLen ? inLen : 1); ob = xmalloc(room ? room : 1);
#if BUF > 16
    for (i = 0; i < inLen; i++) ibuf[i] = inb[i] = i * 7 + i / 256; for (i = 0; i < nprod; i++) produced[i] = i * 11 + i / 128;
#else
    vp_bytes(ibuf, inLen, "i"); memcpy(inb, ibuf, inLen); vp_bytes(produced, nprod, "p");
#endif
    if (!room) ob[0] = 0x5a;
    if (vp_param("filter", 0)) { if (VP_CATCH) { r = pr_filter("flt", ibuf, inLen, ob, room); VP_END_CATCH; } else ended = vp_end_kind; }
    else {
        pr_open("flt", PR_CREATE_STDIN | PR_CREATE_STDOUT, &fin, &fout, NULL);
        if (VP_CATCH) { r = pr_readwrite(fin, fout, ibuf, inLen, ob, room); VP_END_CATCH; } else ended = vp_end_kind;
    }
    #if BUF > 16
    same &= !memcmp(gotIn, inb, nin);
#else
    for (i = 0; i < nin; i++) same &= gotIn[i] == inb[i];
#endif
    vp_assert(same, "the filter reads the input in order");
#if NFD > FD_SETSIZE
    if (fill + 2 >= FD_SETSIZE) { vp_reach("high"); if (ended && !nin && !nout) { vp_assert(ended == 1 && vp_end_code == 1, "descriptors that cannot be handled end the program"); return 0; } }
#endif
    if (faults == 9) { vp_assert(ended == 1 && vp_end_code == 1, "a failing transfer ends the program"); vp_reach("fault"); return 0; }
    if (early && eofSeen && nin < inLen) { vp_assert(ended == 1 && vp_end_code == 1, "input that is not read is an error"); vp_reach("early"); return 0; }
    if (nprod > room) { vp_assert(ended == 1 && vp_end_code == 1, "output that does not fit is an error"); if (!room) vp_assert(ob[0] == 0x5a, "nothing is written"); vp_reach("overflow"); return 0; }
    vp_assert(!ended, "the transfer completes");
    vp_assert(r == nprod, "length of the output"); 
#if BUF > 16
    same &= !memcmp(ob, produced, nprod);
#else
    for (i = 0; i < nprod; i++) same &= (unsigned char)ob[i] == produced[i];
#endif
    vp_assert(same, "the output in order"); vp_assert(nin == inLen, "all input delivered"); vp_assert(waited == 1 && eofSeen, "the filter was waited for");
    for (i = 3; i < NFD; i++) vp_assert(T[i] == (i < fill ? ID_USER : 0), "both pipes are closed");
    if (!early && !vp_param("fault", 0)) vp_reach("end");
    xfree(ibuf); xfree(ob);
    return 1;
}
void harness(void)
{
    int r;
    model_init();
    /* so many descriptors of the user that the pipes get high ones */
    if (vp_param("fill", 0)) { fill = vp_param("fill", 0) + vp_choice(7, "fill"); for (r = 3; r < fill; r++) put(r, ID_USER, 0); }
    vp_capture(&stderr); trace();
    for (r = 0; r < vp_param("rounds", 1); r++) if (!transfer(r)) break;
}
