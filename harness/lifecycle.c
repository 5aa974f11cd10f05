/* maa_init .. maa_shutdown: nothing is left behind, and it can be done again. */
#include "maa.h"
#include "vp.h"
#include <string.h>
static int D[4]; static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; } static const dbg_Type DS[4] = { 1, 0x40000002, 0x80000001, 1 }; static const flg_Type FS[4] = { 2, 0x40000001, 0x80000004, 0xc0000002 };
static const void *kf(const void *d) { return d; }
void harness(void)
{
    int r, rounds = vp_param("rounds", 2), i, ops = vp_param("ops", 2); long live0; lst_List l; sl_List k; int set = vp_choice(4, "set");
    for (i = 0; i < 4; i++) D[i] = i;
    vp_capture(&stderr); live0 = vp_live();
    for (r = 0; r < rounds; r++) {
        int u = 0, x;
        maa_init(r ? "second" : "/bin/first"); vp_assert(!strcmp(err_program_name(), r ? "second" : "first"), "program name");
        for (i = 0; i < 2; i++) vp_assert(!dbg_test(1u << i), "flags start clear");
        vp_assert(!dbg_test(MAA_TIME) && !dbg_test(MAA_MEMORY), "flags start clear");
        for (i = 0; i < ops; i++) switch (x = vp_choice(11, "op")) {
        case 0: vp_assert(str_exists("word") == ((u >> 0) & 1), "the string pool starts empty"); vp_assert(!strcmp(str_find("word"), "word"), "pool"); u |= 1; break;
        case 1: l = lst_create(); lst_append(l, &D[0]); lst_append(l, &D[1]); vp_assert(lst_length(l) == 2 && lst_pop(l) == &D[0], "list"); lst_destroy(l); break;
        case 2: k = sl_create(cmp, kf, NULL); sl_insert(k, &D[2]); sl_insert(k, &D[0]); vp_assert(sl_find(k, &D[2]) == &D[2], "skip list"); sl_destroy(k); break;
        case 3: vp_assert((prs_concrete("T_P") != NULL) == ((u >> 3) & 1), "the symbol table starts empty"); prs_register_concrete("T_P", "+"); vp_assert(!strcmp(prs_concrete("T_P"), "+"), "symbol"); u |= 1 << 3; break;
        case 4: if (!(u & 1 << 4)) { dbg_Type F = DS[set]; dbg_register(F, "dd"); vp_assert(!dbg_test(F), "clear"); dbg_set("dd"); vp_assert(dbg_test(F), "set"); u |= 1 << 4; } break;
        case 5: if (!(u & 1 << 5)) { flg_Type F = FS[set]; flg_register(F, "ff"); vp_assert(!flg_test(F), "clear"); flg_set("+ff"); vp_assert(flg_test(F), "set"); u |= 1 << 5; } break;
        case 6: tim_start("mine"); tim_stop("mine"); vp_assert(tim_get_real("mine") == 0.0 && tim_get_real("total") == 0.0, "timer"); break;
        case 7: src_new_file("f"); vp_assert(!strcmp(src_line("a\tb", 3), "a b"), "line"); vp_assert(src_linenumber(src_get(1)) == 1, "first line"); src_destroy(); break;
        case 8: dbg_set_flag(MAA_TIME); break;
        case 9: dbg_set(".memory"); break;
        case 10: { char b[8]; strcpy(b, str_unique("u")); str_find(b); vp_assert(strcmp(b, str_unique("u")), "unique"); u |= 1 << 10; } break;
        }
        maa_shutdown();
        vp_assert(vp_live() == live0, "shutdown releases everything");
        vp_assert(prs_concrete("T_P") == NULL, "no symbol survives"); for (i = 0; i < 4; i++) vp_assert((i == 3 || !dbg_test(DS[i])) && !flg_test(FS[i]), "no flag survives"); vp_assert(!dbg_test(MAA_TIME) && !dbg_test(MAA_MEMORY), "no flag survives");
    }
    vp_reach("end");
}
