/* Statistics: what the library says about an object is what happened to it. */
#include "maa.h"
#include "vp.h"
#include <string.h>
extern void _lst_shutdown(void);
#ifndef MAXK
#define MAXK 80
#endif
struct key { int cls; };
static struct key keys[MAXK]; static unsigned long hv[MAXK]; static int present[MAXK], n; static int data[MAXK];
static unsigned long h(const void *k) { return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { return ((const struct key*)a)->cls != ((const struct key*)b)->cls; }
static void printed(int set, FILE **slot, void *obj, hsh_Stats s)
{
    char w[600], *p = w; size_t l; const char *t;
    p += sprintf(p, "Statistics for %s at %p:\n", set ? "set" : "hash table", obj);
    p += sprintf(p, "   %lu resizings to %lu total\n   %lu entries (%lu buckets used, %lu without overflow)\n   maximum list length is %lu", s->resizings, s->size, s->entries, s->buckets_used, s->singletons, s->maximum_length);
    p += s->buckets_used ? sprintf(p, " (optimal is %.1f)\n", (double)s->entries / (double)s->buckets_used) : sprintf(p, "\n");
    p += sprintf(p, "   %lu retrievals (%lu from top, %lu failed)\n", s->retrievals, s->hits, s->misses);
    vp_capture_reset(slot);
    if (set) set_print_stats(obj, slot == &stdout ? NULL : stderr); else hsh_print_stats(obj, slot == &stdout ? NULL : stderr);
    t = vp_captured(slot, &l);
    vp_assert(l == (size_t)(p - w) && !memcmp(t, w, l), "the printed figures");
}
/* what must hold between the figures of any table */
static hsh_Stats figures(int set, void *t, unsigned long lookups, unsigned long failed)
{
    hsh_Stats s = set ? (hsh_Stats)set_get_stats(t) : hsh_get_stats(t); unsigned long more = s->entries - s->singletons, big = s->buckets_used - s->singletons;
    vp_assert(s->entries == (unsigned long)n, "entries");
    vp_assert(s->retrievals == lookups, "retrievals"); vp_assert(s->misses == failed, "failed retrievals"); vp_assert(s->hits <= lookups - failed, "retrievals from top");
    vp_assert(s->singletons <= s->buckets_used && s->buckets_used <= s->entries && s->buckets_used <= s->size, "buckets");
    vp_assert(2 * big <= more && more <= s->maximum_length * big, "entries in longer lists");
    vp_assert(big ? s->maximum_length >= 2 && s->maximum_length <= more - 2 * (big - 1) : s->maximum_length == (n != 0), "longest list");
    vp_assert(2 * s->entries <= s->size + 2, "the table is never much more than half full");
    return s;
}
void harness(void)
{
    int mode = vp_param("mode", 0), pre = vp_param("prefill", 0), m = vp_param("keys", 2), ops = vp_param("ops", 3), i, set = mode == 1; long live0;
    unsigned long lookups = 0, failed = 0, hits, size, resz; hsh_Stats s;
    vp_capture(&stdout); vp_capture(&stderr); live0 = vp_live();
    if (mode <= 1) {
        void *t = set ? set_create(h, cmp) : hsh_create(h, cmp);
        for (i = 0; i < pre + m; i++) { keys[i].cls = i; hv[i] = i < pre ? (unsigned long)i * vp_param("spread", 7) + 3 : vp_param("base", 0) + vp_sym(vp_param("bits", 4), "hash"); }
        s = figures(set, t, 0, 0); size = s->size; resz = s->resizings; vp_assert(resz == 0, "no resizing yet"); xfree(s);
        for (i = 0; i < pre + ops; i++) {
            int op = i < pre ? 0 : vp_choice(3, "op"), k = i < pre ? i : pre + vp_choice(m, "key");
            if (op == 0) { if (set) set_insert(t, &keys[k]); else hsh_insert(t, &keys[k], &data[k]); if (!present[k]) present[k] = 1, n++; }
            else if (op == 1) { if (set) set_delete(t, &keys[k]); else hsh_delete(t, &keys[k]); if (present[k]) present[k] = 0, n--; }
            else {
                int found = set ? set_member(t, &keys[k]) : hsh_retrieve(t, &keys[k]) != NULL;
                lookups++; failed += !present[k]; vp_assert(found == present[k], "lookup");
                s = figures(set, t, lookups, failed); hits = s->hits; xfree(s);
                found = set ? set_member(t, &keys[k]) : hsh_retrieve(t, &keys[k]) != NULL; lookups++; failed += !found;
                s = figures(set, t, lookups, failed); vp_assert(s->hits == hits + (found != 0), "what was just found is on top"); hits = s->hits; xfree(s);
                if (vp_choice(2, "ro")) {       /* nothing is rearranged while read-only, and what is looked up is still counted */
                    int k2 = pre + vp_choice(m, "key2"), was = set ? set_readonly(t, 1) : hsh_readonly(t, 1); unsigned long a, b; vp_assert(!was, "not read-only before");
                    found = set ? set_member(t, &keys[k]) : hsh_retrieve(t, &keys[k]) != NULL; lookups++; failed += !found;
                    s = figures(set, t, lookups, failed); vp_assert(s->hits == hits + (found != 0), "what was just found is on top"); hits = s->hits; xfree(s);
                    found = set ? set_member(t, &keys[k2]) : hsh_retrieve(t, &keys[k2]) != NULL; lookups++; failed += !found; vp_assert(found == present[k2], "lookup");
                    s = figures(set, t, lookups, failed); a = s->hits - hits; hits = s->hits; xfree(s);
                    found = set ? set_member(t, &keys[k2]) : hsh_retrieve(t, &keys[k2]) != NULL; lookups++; failed += !found;
                    s = figures(set, t, lookups, failed); b = s->hits - hits; hits = s->hits; xfree(s); vp_assert(a == b && a <= (unsigned long)present[k2], "the same lookup counts the same while read-only");
                    was = set ? set_readonly(t, 0) : hsh_readonly(t, 0); vp_assert(was, "read-only before");
                }
            }
            s = figures(set, t, lookups, failed);
            vp_assert(s->resizings == resz + (s->size != size), "resizings"); vp_assert(s->size >= size, "a table does not shrink"); resz = s->resizings; size = s->size;
            if (i >= pre && n >= 2) { int a, b, same = 0; for (a = 0; a < pre + m; a++) for (b = 0; b < a; b++) if (present[a] && present[b] && a >= pre && hv[a] == hv[b]) same = 1; if (same) vp_assert(s->maximum_length >= 2 && s->buckets_used < (unsigned long)n, "equal hash values share a list"); }
            xfree(s);
        }
        s = figures(set, t, lookups, failed);
        printed(set, &stdout, t, s); printed(set, &stderr, t, s); xfree(s);
        if (set) set_destroy(t); else hsh_destroy(t);
        vp_reach("table");
    } else if (mode == 2) {                  /* string pools, the global one too */
        int g = vp_choice(2, "global"), count = 0, bytes = 0, known[3] = { 0 }; str_Pool p = g ? NULL : str_pool_create(); static const char *const w[3] = { "", "a", "bcd" }; str_Stats st; char t[400]; const char *c; size_t l;
        if (g) { st = str_get_stats(); vp_assert(!st->count && !st->bytes && !st->retrievals && !st->hits && !st->misses, "nothing yet"); xfree(st); }
        for (i = 0; i < ops; i++) {
            int op = vp_choice(4, "op"), k = vp_choice(3, "k"), L = strlen(w[k]);
            switch (op) {
            case 0: if (g) str_find(w[k]); else str_pool_find(p, w[k]); lookups++; if (!known[k]) known[k] = 1, failed++, count++, bytes += L + 1; break;
            case 1: vp_assert((g ? str_exists(w[k]) : str_pool_exists(p, w[k])) == known[k], "exists"); lookups++; failed += !known[k]; break;
            case 2: if (g) str_copy(w[k]); else str_pool_copy(p, w[k]); count++; bytes += L + 1; break;
            case 3: if (g) str_copyn("bcdef", 2); else str_pool_copyn(p, "bcdef", 2); count++; bytes += 3; break;
            }
            st = g ? str_get_stats() : str_pool_get_stats(p);
            vp_assert(st->count == count && st->bytes == bytes, "strings and bytes"); vp_assert(st->retrievals == (int)lookups && st->misses == (int)failed && st->hits <= (int)(lookups - failed), "lookups"); xfree(st);
        }
        st = g ? str_get_stats() : str_pool_get_stats(p);
        vp_capture_reset(&stdout); if (g) str_print_stats(NULL); else str_pool_print_stats(p, stdout);
        c = vp_captured(&stdout, &l); 
        { const char *nl = strchr(c, '\n'); vp_assert(nl != NULL && !strncmp(c, g ? "Statistics for global string pool at " : "Statistics for string pool at ", g ? 37 : 30), "heading");
          sprintf(t, "   %d strings using %d bytes\n   %d retrievals (%d from top, %d failed)\n", st->count, st->bytes, st->retrievals, st->hits, st->misses);
          vp_assert(!strcmp(nl + 1, t), "the printed figures"); }
        xfree(st);
        if (g) str_destroy(); else str_pool_destroy(p);
        vp_reach("pool");
    } else if (mode == 3) {                  /* sources */
        int lines = 0, tokens = 0, bytes = 0; src_Stats st; char t[400]; size_t l; const char *c;
        st = src_get_stats(); vp_assert(!st->lines_used && !st->lines_bytes && !st->tokens_total, "nothing yet"); xfree(st);
        for (i = 0; i < pre; i++) { src_line("0123\n", 5); lines++; bytes += 6; }
        for (i = 0; i < ops; i++) {
            if (!lines || vp_choice(2, "op")) { int L = vp_choice(3, "len") + 1; src_line("abc\n", L); lines++; bytes += L + 1; } else { src_get(1); tokens++; }
            st = src_get_stats();
            vp_assert(st->lines_used == lines && st->lines_allocated >= lines, "lines"); vp_assert(st->tokens_total == tokens && st->tokens_reused == 0, "tokens"); vp_assert(st->lines_bytes == bytes, "bytes"); xfree(st);
        }
        st = src_get_stats();
        sprintf(t, "Statistics for source manager:\n   %d lines using %d bytes (%d allocated)\n   %d tokens using %d bytes (%d reused)\n", lines, bytes, st->lines_allocated, tokens, tokens * st->tokens_size, 0);
        vp_capture_reset(&stdout); src_print_stats(vp_choice(2, "null") ? NULL : stdout); c = vp_captured(&stdout, &l); vp_assert(!strcmp(c, t), "the printed figures"); xfree(st);
        src_destroy(); str_destroy();
        vp_reach("source");
    } else if (mode == 5) {                  /* lists: the dump shows the elements in order; memory ever taken for lists only grows with what was added */
        long c0 = lst_total_allocated(), c1; lst_List l = lst_create(), l2; long a0 = lst_total_allocated(), per; void *el[8]; char w[300], *p = w; const char *c; size_t len; int cnt = 0;
        vp_assert(a0 - c0 >= (long)(2 * sizeof(void *)), "a list takes memory"); l2 = lst_create(); c1 = lst_total_allocated(); vp_assert(c1 - a0 == a0 - c0, "each as much as the first"); lst_destroy(l2); vp_assert(lst_total_allocated() == c1, "taken so far"); a0 = c1;
        lst_push(l, NULL); per = lst_total_allocated() - a0; vp_assert(per >= (long)(2 * sizeof(void *)), "an element takes memory"); lst_pop(l); a0 = lst_total_allocated();
        for (i = 0; i < ops; i++) {
            void *d = (void *)(uintptr_t)(vp_choice(3, "d") ? 0x1234567890abcdUL : 1 + i); int j;
            switch (vp_choice(4, "op")) {
            case 0: lst_append(l, d); el[cnt++] = d; a0 += per; break;
            case 1: lst_push(l, d); for (j = cnt++; j > 0; j--) el[j] = el[j - 1]; el[0] = d; a0 += per; break;
            case 2: lst_pop(l); if (cnt) { for (j = 1; j < cnt; j++) el[j - 1] = el[j]; cnt--; } break;
            case 3: j = vp_choice(cnt + 1, "cut"); lst_truncate(l, j); cnt = j; break;
            }
            vp_assert(lst_total_allocated() == a0, "memory taken for lists so far");
        }
        for (i = 0; i < cnt; i++) p += sprintf(p, " 0x%p\n", el[i]);
        vp_capture_reset(&stdout); lst_dump(l); c = vp_captured(&stdout, &len); vp_assert(len == (size_t)(p - w) && !memcmp(c, w, len), "the dump shows the elements in order");
        lst_destroy(l); _lst_shutdown();
        vp_reach("lists");
    } else {                                 /* object and string memory, key listing */
        int total = 0, used = 0, reused = 0, cnt = 0, bytes = 0; void *ob[8]; mem_Object o = mem_create_objects(vp_choice(3, "size") * 20 + 1); mem_String ms = mem_create_strings(); mem_ObjectStats st; mem_StringStats sst; char t[400]; const char *c, *nl; size_t l; hsh_HashTable kt;
        for (i = 0; i < ops; i++) switch (vp_choice(7, "op")) {
            case 5: mem_strncpy(ms, "a\0b\0\0", 5); cnt++; bytes += 6; break;
            case 6: mem_grow(ms, "\0b", 2); mem_grow(ms, "", 0); mem_grow(ms, "\0", 1); mem_finish(ms); cnt++; bytes += 4; break;
            case 0: case 1: ob[used] = mem_get_object(o); if (total - used > 0) reused++; else total++; used++; break;
            case 2: if (used) { mem_free_object(o, ob[--used]); } break;
            case 3: mem_strcpy(ms, "xyz"); cnt++; bytes += 4; break;
            case 4: mem_grow(ms, "ab", 2); mem_grow(ms, "c", 1); mem_finish(ms); cnt++; bytes += 4; break;
        }
        st = mem_get_object_stats(o); vp_assert(st->total == total && st->used == used && st->reused == reused, "objects"); vp_assert(st->size % 20 == 1, "size"); xfree(st);
        sst = mem_get_string_stats(ms); vp_assert(sst->count == cnt && sst->bytes == bytes, "strings"); xfree(sst);
        vp_capture_reset(&stdout); mem_print_object_stats(o, NULL); c = vp_captured(&stdout, &l); nl = strchr(c, '\n');
        sprintf(t, "   %d objects allocated, of which %d are in use\n   %d objects have been reused\n", total, used, reused); vp_assert(nl && !strncmp(c, "Statistics for object memory manager at ", 40) && !strcmp(nl + 1, t), "the printed figures");
        vp_capture_reset(&stderr); mem_print_string_stats(ms, stderr); c = vp_captured(&stderr, &l); nl = strchr(c, '\n');
        sprintf(t, "   %d strings, using %d bytes\n", cnt, bytes); vp_assert(nl && !strncmp(c, "Statistics for string memory manager at ", 40) && !strcmp(nl + 1, t), "the printed figures");
        mem_destroy_objects(o); mem_destroy_strings(ms);
        kt = hsh_create(NULL, NULL); hsh_insert(kt, "one", ""); hsh_insert(kt, "two", ""); if (vp_choice(2, "third")) { hsh_insert(kt, "three", ""); i = 1; } else i = 0;
        vp_capture_reset(&stdout); hsh_key_strings(kt); c = vp_captured(&stdout, &l);
        vp_assert(strstr(c, "one  ") && strstr(c, "two  ") && (strstr(c, "three  ") != NULL) == i && l == (size_t)(11 + 7 * i), "every key is listed once, in one line"); hsh_destroy(kt);
        vp_reach("memory");
    }
    vp_assert(vp_live() == live0, "nothing leaks");
}
