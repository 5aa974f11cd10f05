/* Read-only tables and sets refuse modification and stay as they are. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#define K 5
struct key { int cls; };
static struct key keys[K]; static unsigned long hv[K]; static int data[K], present[K];
static unsigned long h(const void *k) { return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { return ((const struct key*)a)->cls != ((const struct key*)b)->cls; }
static const void *order[2][K]; static int no[2];
static int w;
static int collect(const void *k, const void *d) { (void)d; order[w][no[w]++] = k; return 0; }
static int collectS(const void *k) { order[w][no[w]++] = k; return 0; }
static set_Set S; static int inOp, inKey, depth;
static volatile int fatal;
static int innerKind;
static int nothing(const void *k, const void *d) { (void)k; (void)d; return 0; }
static int nothingS(const void *k) { (void)k; return 0; }
static void innerS(void)
{
    set_Position p; void *e; set_Set o;
    if (innerKind == 1) SET_ITERATE(S, p, e) (void)set_member(S, e);
    else if (innerKind == 2) set_iterate(S, nothingS);
    else if (innerKind == 3) set_equal(S, S);
    else if (innerKind == 4) { o = set_diff(S, S); set_destroy(o); }
}
static void innerH(hsh_HashTable t)
{
    hsh_Position p; void *k, *d;
    if (innerKind == 1) HSH_ITERATE(t, p, k, d) (void)hsh_retrieve(t, k);
    else if (innerKind == 2) hsh_iterate(t, nothing);
    else if (innerKind == 3) HSH_ITERATE_KEYS(t, p, k) (void)hsh_retrieve(t, k);
}
static int mutateS(const void *k)
{
    (void)k;
    innerS();
    vp_end_kind = 0;
    if (inOp == 0) set_insert(S, &keys[inKey]);
    else if (inOp == 1) set_delete(S, &keys[inKey]);
    else set_destroy(S);
    vp_fail("modification of a set from inside set_iterate is refused");
    return 0;
}
static int mutateSA(const void *k, void *a) { (void)a; return mutateS(k); }
static int stopS(const void *k) { (void)k; return ++depth == inKey; }
static int stopSA(const void *k, void *a) { (void)a; return stopS(k); }

static int arg0, arg1; /* survive longjmp */
void harness(void)
{
    int i, which = vp_param("which", 0), scen = vp_param("scen", 0), nk = vp_param("keys", 3);
    volatile int flag;
    hsh_HashTable volatile t = NULL;
    vp_capture(&stderr);
    for (i = 0; i < nk; i++) { keys[i].cls = i; hv[i] = vp_param("base", 0) + vp_sym(vp_param("bits", 5), "hash"); }
    if (which == 0) t = hsh_create(h, cmp); else S = set_create(h, cmp);
    for (i = 0; i < nk; i++) {
        present[i] = vp_choice(2, "present");
        if (present[i]) { if (which == 0) hsh_insert(t, &keys[i], &data[i]); else set_insert(S, &keys[i]); }
    }
    if (scen == 0) {                 /* flag values, refusal, nothing changes */
        int op = vp_choice(3, "op"), k = vp_choice(nk, "key"), via = vp_choice(2, "via");
        flag = 1;
        if (via && which == 0) {
            if (!hsh_init_position(t)) { vp_assert(hsh_readonly(t, 1) == 0, "empty table: no protection by iteration"); }
        } else if (via) {
            if (!set_init_position(S)) { vp_assert(set_readonly(S, 1) == 0, "empty set: no protection by iteration"); }
        } else {
            vp_assert((which ? set_readonly(S, 1) : hsh_readonly(t, 1)) == 0, "previous flag is 0");
        }
        vp_assert((which ? set_readonly(S, 1) : hsh_readonly(t, 1)) == 1, "previous flag is 1");
        w = 0; if (which == 0) hsh_iterate(t, collect); else set_iterate(S, collectS);
        for (i = 0; i < nk; i++) {
            if (which == 0) vp_assert(hsh_retrieve(t, &keys[i]) == (present[i] ? &data[i] : NULL), "lookup still works");
            else vp_assert(set_member(S, &keys[i]) == present[i], "membership still works");
        }
        if (VP_CATCH) {
            if (which == 0) { if (op == 0) hsh_insert(t, &keys[k], &data[k]); else if (op == 1) hsh_delete(t, &keys[k]); else hsh_destroy(t); }
            else { if (op == 0) set_insert(S, &keys[k]); else if (op == 1) set_delete(S, &keys[k]); else set_destroy(S); }
            VP_END_CATCH;
            vp_fail("modification of a read-only table is refused");
        }
        vp_assert(vp_end_kind == 2, "refused by an internal error (abort)");
        w = 1; if (which == 0) hsh_iterate(t, collect); else set_iterate(S, collectS);
        vp_assert(no[0] == no[1], "contents unchanged");
        for (i = 0; i < no[0]; i++) vp_assert(order[0][i] == order[1][i], "order unchanged while read-only");
        vp_assert((which ? set_readonly(S, 0) : hsh_readonly(t, 0)) == 1, "still read-only");
        vp_assert((which ? set_readonly(S, 0) : hsh_readonly(t, 0)) == 0, "writable again");
        for (i = 0; i < nk; i++) {
            if (which == 0) { vp_assert(hsh_retrieve(t, &keys[i]) == (present[i] ? &data[i] : NULL), "contents"); vp_assert(hsh_insert(t, &keys[i], &data[i]) == present[i], "insert allowed again"); vp_assert(hsh_delete(t, &keys[i]) == 0, "delete allowed again"); }
            else { vp_assert(set_member(S, &keys[i]) == present[i], "contents"); vp_assert(set_insert(S, &keys[i]) == present[i], "insert allowed again"); vp_assert(set_delete(S, &keys[i]) == 0, "delete allowed again"); }
        }
        vp_reach("flag");
        if (which == 0) hsh_destroy(t); else set_destroy(S);
    } else if (scen == 1) {          /* set_iterate protects, and restores the flag it found */
        int f0 = vp_choice(2, "flag"), form = vp_choice(2, "form");
        inOp = vp_choice(3, "op"); inKey = vp_choice(nk + 1, "stop"); depth = 0;
        set_readonly(S, f0); if (vp_param("nest", 0)) innerKind = vp_choice(5, "inner");
        if (form) set_iterate_arg(S, stopSA, &i); else set_iterate(S, stopS);
        vp_assert(set_readonly(S, f0) == f0, "set_iterate restores the flag");
        if (set_count(S) > 0) {
            inKey %= nk;
            if (VP_CATCH) { if (form) set_iterate_arg(S, mutateSA, &i); else set_iterate(S, mutateS); VP_END_CATCH; vp_fail("not reached"); }
            vp_assert(vp_end_kind == 2, "refused by an internal error (abort)");
            for (i = 0; i < nk; i++) vp_assert(set_member(S, &keys[i]) == present[i], "set unchanged");
        }
        vp_reach("iterate");
    } else if (scen == 3) {          /* protections inside one another: a mark set by hand, traversals by position, and what ends inside them */
        int f0 = vp_choice(2, "flag"), depth = vp_choice(3, "depth"), op = vp_choice(3, "op"), k = vp_choice(nk, "key"), closed, n = 0; void *pos[2] = { NULL, NULL };
        volatile int prot;
        for (i = 0; i < nk; i++) n += present[i];
        vp_assert((which ? set_readonly(S, f0) : hsh_readonly(t, f0)) == 0, "writable at first");
        for (i = 0; i < depth; i++) { pos[i] = which ? set_init_position(S) : hsh_init_position(t); vp_assert((pos[i] != NULL) == (n > 0), "a position, unless empty"); }
        innerKind = vp_choice(5, "inner"); if (which) innerS(); else innerH(t);
        closed = vp_choice(depth + 1, "closed");        /* so many of them reach their ends */
        for (i = 0; i < closed; i++) while (pos[i]) pos[i] = which ? set_next_position(S, pos[i]) : hsh_next_position(t, pos[i]);
        prot = f0 || (depth > closed && n);
        vp_note(prot);
        if (prot) {
            if (VP_CATCH) {
                if (which == 0) { if (op == 0) hsh_insert(t, &keys[k], &data[k]); else if (op == 1) hsh_delete(t, &keys[k]); else hsh_destroy(t); }
                else { if (op == 0) set_insert(S, &keys[k]); else if (op == 1) set_delete(S, &keys[k]); else set_destroy(S); }
                VP_END_CATCH;
                vp_fail("modification of a protected table is refused");
            }
            vp_assert(vp_end_kind == 2, "refused by an internal error (abort)");
        }
        for (i = 0; i < nk; i++) {
            if (which == 0) vp_assert(hsh_retrieve(t, &keys[i]) == (present[i] ? &data[i] : NULL), "contents");
            else vp_assert(set_member(S, &keys[i]) == present[i], "contents");
        }
        vp_assert((which ? set_readonly(S, 0) : hsh_readonly(t, 0)) == prot, "the mark is what the protections still there make it");
        vp_assert((which ? set_readonly(S, 0) : hsh_readonly(t, 0)) == 0, "writable again");
        if (which == 0) hsh_destroy(t); else set_destroy(S);
        vp_reach("nested");
    } else {                         /* the operations that protect their second operand restore its flag */
        set_Set B = set_create(h, cmp), R = NULL; int f1 = vp_choice(2, "flag"), f2 = vp_choice(2, "flag"), op = vp_choice(4, "op");
        for (i = 0; i < nk; i++) if (vp_choice(2, "inB")) set_insert(B, &keys[i]);
        set_readonly(S, f1); set_readonly(B, f2);
        if (op == 0) R = set_union(S, B); else if (op == 1) R = set_inter(S, B); else if (op == 2) R = set_diff(S, B); else set_equal(S, B);
        vp_assert(set_readonly(S, 0) == f1, "first operand's flag kept");
        vp_assert(set_readonly(B, 0) == f2, "second operand's flag kept");
        if (R) { vp_assert(set_readonly(R, 0) == 0, "result is writable"); set_destroy(R); }
        set_destroy(S); set_destroy(B);
        vp_reach("operands");
    }
}
