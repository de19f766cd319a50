/* the C side: inline functions and macros as C sees them */
#include <dnmx/mixin_info.h>
#include <dnmx/mixin_info_util.h>
#include <dnmx/mixin_common_funcs.h>
#include <dnmx/feature_id.h>
#include <dnmx/feature_info.h>
#include <dnmx/mixin_index.h>

void c_set_size(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a) { dnmx_set_mixin_info_size_and_alignment(i, s, a); }
bool c_order(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dnmx_mixin_canonical_order(a, b); }
dnmx_mixin_info c_make(void) { return dnmx_make_mixin_info(); }
dnmx_feature_info c_make_f(void) { return dnmx_make_feature_info(); }
void c_move_copy(const dnmx_mixin_info* i, void* p, void* s) { dnmx_mixin_common_move_func_copy(i, p, s); }
dnmx_error_return_t c_noop_init(const dnmx_mixin_info* i, void* p) { return dnmx_mixin_noop_init_func(i, p); }
dnmx_error_return_t c_noop_copy(const dnmx_mixin_info* i, void* p, const void* s) { return dnmx_mixin_noop_copy_func(i, p, s); }
void c_noop_move(const dnmx_mixin_info* i, void* p, void* s) { dnmx_mixin_noop_move_func(i, p, s); }
int c_noop_cmp(const dnmx_mixin_info* i, const void* a, const void* b) { return dnmx_mixin_noop_cmp_func(i, a, b); }

typedef struct one { char c; } one;
typedef struct eleven { char c[11]; } eleven;
typedef struct mixed_up { char c; double d; short s; } mixed_up;
typedef struct wide { _Alignas(32) char c[33]; } wide;
typedef struct shorts { short s[5]; } shorts;

/* kind of function: 0 none, 1 common, 2 noop, 3 another */
static int kinds(const dnmx_mixin_info* i, int* k) {
    k[0] = !i->init ? 0 : i->init == dnmx_mixin_common_init_func ? 1 : i->init == dnmx_mixin_noop_init_func ? 2 : 3;
    k[1] = !i->copy_init ? 0 : i->copy_init == dnmx_mixin_common_copy_func ? 1 : i->copy_init == dnmx_mixin_noop_copy_func ? 2 : 3;
    k[2] = !i->copy_asgn ? 0 : i->copy_asgn == dnmx_mixin_common_copy_func ? 1 : i->copy_asgn == dnmx_mixin_noop_copy_func ? 2 : 3;
    k[3] = !i->move_init ? 0 : i->move_init == dnmx_mixin_common_move_func ? 1 : i->move_init == dnmx_mixin_noop_move_func ? 2 : 3;
    k[4] = !i->move_asgn ? 0 : i->move_asgn == dnmx_mixin_common_move_func ? 1 : i->move_asgn == dnmx_mixin_noop_move_func ? 2 : 3;
    k[5] = !i->destroy ? 0 : 3;
    k[6] = !i->equals ? 0 : i->equals == dnmx_mixin_common_eq_func ? 1 : 3;
    k[7] = !i->compare ? 0 : i->compare == dnmx_mixin_common_cmp_func ? 1 : i->compare == dnmx_mixin_noop_cmp_func ? 2 : 3;
    return 0;
}
int c_kinds(const dnmx_mixin_info* i, int* k) { return kinds(i, k); }
/* the n-th info made with the macros; 0: there is none. Dirty before, so that whatever is not set shows */
int c_macro(int n, dnmx_mixin_info* out, dnmx_byte_size_t* size, dnmx_byte_size_t* align) {
    dnmx_mixin_info m;
    memset(&m, 0x5a, sizeof(m));
    *size = *align = 0;
    switch (n) {
#define T(k, type) case k: DNMX_COMMON_INIT_MI(m, type); *size = sizeof(type); *align = _Alignof(type); break
    T(0, one); T(1, eleven); T(2, mixed_up); T(3, wide); T(4, shorts);
    case 5: DNMX_COMMON_INIT_EMPTY_MI(m, "nothing at all"); break;
    case 6: if (n) DNMX_COMMON_INIT_EMPTY_MI(m, ""); else DNMX_COMMON_INIT_MI(m, one); break;
    default: return 0;
    }
    *out = m;
    return 1;
}
const char* c_macro_names[] = { "one", "eleven", "mixed_up", "wide", "shorts", "nothing at all", "" };
unsigned c_invalid(int k) { return k ? dnmx_invalid_mixin_index : dnmx_invalid_id; }
