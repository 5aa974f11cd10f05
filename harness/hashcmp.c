/* Default hash and comparison functions: equal keys hash alike, comparison is exact. */
#include "maa.h"
#include "vp.h"
#include <string.h>
void harness(void)
{
    int mode = vp_param("mode", 0), n = vp_param("len", 4), i;
    long live0 = vp_live();
    if (mode == 0) {                 /* strings, buffers with arbitrary bytes behind the terminator */
        unsigned char a[16], b[16], same = 1;
        int la = vp_choice(n + 1, "la"), lb = vp_choice(n + 1, "lb"), eq;
        vp_bytes(a, n + 1, "a"); vp_bytes(b, n + 1, "b");
        for (i = 0; i < la; i++) vp_assume(a[i] != 0);
        for (i = 0; i < lb; i++) vp_assume(b[i] != 0);
        a[la] = b[lb] = 0;
        eq = la == lb;
        if (eq) { for (i = 0; i < la; i++) same &= a[i] == b[i]; }
        else same = 0;
        vp_assert((hsh_string_compare(a, b) == 0) == (same != 0), "string comparison is 0 exactly for equal strings");
        vp_assert(hsh_string_compare(a, a) == 0, "a string equals itself");
        if (eq) vp_reach("equal length"); else vp_reach("different length");
    } else if (mode == 4) {          /* equal strings in different buffers, other bytes behind the terminator */
        unsigned char *a = xmalloc(n + 9), *b = xmalloc(n + 40); unsigned long h1;
        int la = vp_choice(n + 1, "la");
        vp_bytes(a, n + 9, "a"); vp_bytes(b, n + 40, "b");
        for (i = 0; i < la; i++) { vp_assume(a[i] != 0); b[i] = a[i]; }
        a[la] = b[la] = 0;
        h1 = hsh_string_hash(a);
        vp_assert(h1 == hsh_string_hash(b), "equal strings have equal hash values");
        vp_assert(hsh_string_compare(a, b) == 0, "equal strings compare equal");
        if (la) { a[la - 1] = vp_sym(8, "last"); vp_assume(a[la - 1] != 0); b[la - 1] = a[la - 1]; }
        vp_assert(hsh_string_hash(a) == hsh_string_hash(b), "equal strings have equal hash values, after a change too");
        { char *c = xmalloc(la + 1), *d = xmalloc(la + 1); memcpy(c, a, la + 1); memcpy(d, a, la + 1);    /* the content counts, not the place */
          vp_assert(hsh_string_hash(c) == hsh_string_hash(a) && hsh_string_hash(d) == hsh_string_hash(b), "equal strings in new places have equal hash values"); vp_assert(hsh_string_compare(c, a) == 0 && hsh_string_compare(b, d) == 0, "and compare equal");
          if (la) { a[0] ^= 1; if (a[0]) { vp_assert(hsh_string_compare(a, b) != 0 && hsh_string_compare(b, a) != 0 && hsh_string_compare(c, a) != 0, "a change of one string makes them differ"); d[0] ^= 1; vp_assert(hsh_string_hash(d) == hsh_string_hash(a) && hsh_string_compare(d, a) == 0, "until the other is changed as well"); } }
          xfree(c); xfree(d); }
        xfree(a); xfree(b);
        vp_reach("equal");
    } else if (mode == 5) {          /* long strings that differ in one byte or in length */
        static const int lens[] = { 31, 64, 127, 255, 256, 600, 1024, 1025, 3000 };
        int l = lens[vp_choice(9, "len")], pos = (int[]){ 0, l / 2, l - 1 }[vp_choice(3, "pos")], ext = vp_choice(2, "longer"); char *a = xmalloc(l + 1), *b = xmalloc(l + 2); unsigned char x = vp_sym(8, "x"), y = vp_sym(8, "y"); int eq;
        vp_assume(x != 0); vp_assume(y != 0);
        for (i = 0; i < l; i++) a[i] = b[i] = 'a' + i % 23;
        a[pos] = x; b[pos] = y; a[l] = 0; b[l] = ext ? 'z' : 0; b[l + 1] = 0; eq = (x == y) & !ext;
        vp_assert((hsh_string_compare(a, b) == 0) == eq, "long strings are compared in full"); vp_assert((hsh_string_compare(b, a) == 0) == eq, "long strings are compared in full");
        vp_assert((!eq | (hsh_string_hash(a) == hsh_string_hash(b))), "equal long strings have equal hash values");
        xfree(a); xfree(b); vp_reach("long");
    } else if (mode == 1) {          /* pointers */
        uint64_t x = vp_sym(64, "x"), y = vp_sym(64, "y");
        int c = hsh_pointer_compare((void*)x, (void*)y);
        vp_assert((c == 0) == (x == y), "pointer comparison is 0 exactly for the same pointer");
        vp_assert((c < 0) == (hsh_pointer_compare((void*)y, (void*)x) > 0), "pointer comparison is antisymmetric");
        { unsigned long h1 = hsh_pointer_hash((void*)x), h2; hsh_pointer_hash((void*)y); h2 = hsh_pointer_hash((void*)x); vp_assert(h1 == h2, "the hash value is stable"); }
        if (x == y) vp_reach("same"); else vp_reach("other");
    } else if (mode == 2) {          /* a default table finds a string by content, from another buffer */
        char a[8], b[8], c[8]; int same = 1, d1, d2, ac = 1;
        hsh_HashTable t = hsh_create(NULL, NULL);
        if (vp_param("alpha", 0)) for (i = 0; i < n; i++) { a[i] = "a\xffq\x80"[vp_choice(4, "a")]; b[i] = "a\xffq\x80"[vp_choice(4, "b")]; }
        else { vp_bytes(a, n, "a"); vp_bytes(b, n, "b"); }
        a[n] = b[n] = 0;
        for (i = 0; i < n; i++) { vp_assume(a[i] != 0); vp_assume(b[i] != 0); }
        strcpy(c, "q"); ac = n == 1 && a[0] == 'q';
        for (i = 0; i < n; i++) same &= a[i] == b[i];
        vp_assume(!ac);
        vp_assert(hsh_insert(t, c, &d2) == 0, "insert of a new string");
        vp_assert(hsh_insert(t, a, &d1) == 0, "insert of another new string");
        { const void *r = hsh_retrieve(t, b);
          int isq = n == 1 && b[0] == 'q';
          vp_assert(r == (same ? (void*)&d1 : isq ? (void*)&d2 : NULL), "lookup by content"); }
        vp_assert(hsh_retrieve(t, c) == &d2, "the other string is still there");
        if (same) vp_reach("found"); else vp_reach("absent");
        hsh_destroy(t);
    } else {                         /* a default set, and a table of pointers */
        uint64_t x = vp_sym(vp_param("bits", 8), "x"), y = vp_sym(vp_param("bits", 8), "y"); int d;
        hsh_HashTable t = hsh_create(hsh_pointer_hash, hsh_pointer_compare);
        set_Set s = set_create(hsh_pointer_hash, hsh_pointer_compare);
        vp_assert(hsh_insert(t, (void*)x, &d) == 0, "insert");
        vp_assert(set_insert(s, (void*)x) == 0, "insert");
        if (x == y) { vp_assert(hsh_retrieve(t, (void*)y) == &d, "the same pointer is found"); vp_assert(set_member(s, (void*)y), "the same pointer is a member"); vp_reach("found"); }
        else { vp_assert(hsh_retrieve(t, (void*)y) == NULL, "another pointer is not found"); vp_assert(!set_member(s, (void*)y), "another pointer is no member"); vp_reach("absent"); }
        hsh_destroy(t); set_destroy(s);
    }
    vp_assert(vp_live() == live0, "nothing leaks");
}
