/* Object pools hand out distinct, full-size blocks and reuse freed ones. */
#include "maa.h"
#include "vp.h"
#include "few.h"
#include <string.h>
#ifndef MAXN
#define MAXN 48
#endif
static unsigned char *obj[MAXN]; static unsigned char tag[MAXN]; static int inuse[MAXN], no;
void harness(void)
{
    int i, j, k, ops = vp_param("ops", 4), pre = vp_param("prefill", 0);
    static const int sizes[] = { 1, 8, 13, 24, 2, 4, 16, 31, 64, 100, 1000, 4064, 4096, 5000, 70000 };
    int wide = vp_param("wide", 0), size = sizes[wide ? 4 + vp_choice(11, "size") : vp_choice(4, "size")], used = 0, got = 0;
    long live0 = vp_live(), live1;
    mem_Object m = mem_create_objects(size), m2 = mem_create_objects(8);
    mem_ObjectStats st;
    unsigned char *o2 = mem_get_object(m2);
    memset(o2, 0x77, 8);
    if (vp_param("churn", 0)) {              /* a long life before */
        unsigned char *q[4] = { 0 }; int total;
        for (i = 0; i < vp_param("churn", 0); i++) { k = i * 3 % 4; if (q[k]) { for (j = 0; j < size; j++) vp_assert(q[k][j] == k + 1, "contents are kept until the object is freed"); mem_free_object(m, q[k]); used--; q[k] = NULL; } if (i % 7) { q[k] = i & 1 ? mem_get_object(m) : mem_get_empty_object(m); if (!(i & 1)) for (j = 0; j < size; j++) vp_assert(q[k][j] == 0, "empty object is all zero"); memset(q[k], k + 1, size); used++; got++; } }
        for (k = 0; k < 4; k++) if (q[k]) { mem_free_object(m, q[k]); used--; }
        st = mem_get_object_stats(m); total = st->total; vp_assert(st->used == 0 && total <= 4 && st->reused == got - total, "freed objects are reused before new ones are allocated"); xfree(st);
        if (vp_param("long", 0)) return;
    }
    for (i = 0; i < ops + pre; i++) {
        int op = i < pre ? 0 : vp_choice(3, "op");
        if (op < 2) {
            unsigned char *p = op ? mem_get_empty_object(m) : mem_get_object(m);
            vp_assert(p != NULL, "an object");
            if (op) for (j = 0; j < size; j++) { if (wide && j > 40 && j + 40 < size && j % 13) continue; vp_assert(p[j] == 0, "empty object is all zero"); }
            for (j = 0; j < no; j++) if (inuse[j]) vp_assert(obj[j] + size <= p || p + size <= obj[j], "objects in use do not overlap");
            tag[no] = i < pre ? i + 1 : (unsigned char)vp_sym(8, "fill");
            memset(p, tag[no], size);
            obj[no] = p; inuse[no++] = 1; used++; got++;
        } else {
            if (!used) continue;
            k = few(used, "which");
            for (j = 0; ; j++) if (inuse[j] && k-- == 0) break;
            mem_free_object(m, obj[j]); inuse[j] = 0; used--;
        }
        if (i + 1 < pre) continue;
        for (j = 0; j < no; j++) if (inuse[j]) for (k = 0; k < size; k += wide ? (size + 98) / 97 : 1) vp_assert(obj[j][k] == tag[j], "contents are kept until the object is freed");
        st = mem_get_object_stats(m);
        vp_assert(st->used == used && st->total + st->reused == got && st->total >= used && st->size == size, "statistics");
        xfree(st);
    }
    /* freed objects are reused before new memory is taken */
    st = mem_get_object_stats(m);
    for (j = st->total - st->used; j > 0; j--) mem_get_object(m);
    { mem_ObjectStats s2 = mem_get_object_stats(m); vp_assert(s2->total == st->total, "freed objects are reused before new ones are allocated"); xfree(s2); }
    xfree(st);
    for (k = 0; k < 8; k++) vp_assert(o2[k] == 0x77, "pools are independent");
    vp_reach("end");
    mem_destroy_objects(m);
    for (k = 0; k < 8; k++) vp_assert(o2[k] == 0x77, "pools are independent after destroy");
    mem_destroy_objects(m2);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
