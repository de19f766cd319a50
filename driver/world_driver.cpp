// Runs scripts of operations (see spec/World.tla) on the real library and reports after each
// what it did and everything that can be observed. Usage: world_driver UNIVERSES SCRIPTS > OUT
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <sstream>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to_ops.hpp>
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/msg_traits.hpp>
#include <dynamix/msg/msg_caller.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dnmx/domain.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/object.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>

#include "json.hpp"

#include <algorithm>
#include <cstring>
#include <deque>
extern "C" size_t __sanitizer_get_current_allocated_bytes(); // of ASan
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <set>
#if DYNAMIX_HAS_PMR
#include <memory_resource>
using MemRes = std::pmr::memory_resource;
#else
using MemRes = dynamix::compat::pmr::memory_resource;
#endif

namespace dmx = dynamix;
using dmx::mixin_info;
using dmx::feature_info;
using std::string;
using std::vector;

// ---------------------------------------------------------------------- monitors
static vector<string> g_bad;
static void bad(const string& s) { if (g_bad.size() < 8) g_bad.push_back(s); }

struct user_exc : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------------- memory
struct Block { size_t size, align; int res; };
static std::map<char*, Block> g_blocks; // all blocks of all tracked resources
static bool g_armed = false;            // count allocations ...
static int g_armedRes = -1;             // ... of this object resource (and of mixin allocators)
static int g_failAt = -1;
static int g_retryRes = -1;           // the resource of a domain which fails, together with the default one, until the operation succeeds

static void countAlloc() {
    if (!g_armed) return;
    if (g_failAt-- == 0) throw std::bad_alloc();
}
static void* rawAlloc(size_t size, size_t align, int res) {
    if (align == 0 || (align & (align - 1))) { bad("allocation with alignment " + std::to_string(align)); align = 64; }
    auto p = static_cast<char*>(::operator new(size ? size : 1, std::align_val_t(align)));
    memset(p, 0xCC, size);
    g_blocks[p] = {size, align, res};
    return p;
}
static void rawFree(void* vp, size_t size, size_t align, int res, bool sized) {
    auto p = static_cast<char*>(vp);
    auto f = g_blocks.find(p);
    if (f == g_blocks.end()) { bad("deallocation of a block which is not allocated"); return; }
    auto b = f->second;
    if (b.res != res) bad("deallocation in another allocator: from " + std::to_string(b.res) + " to " + std::to_string(res));
    if (sized && (b.size != size || b.align != align)) bad("deallocation with another size or alignment");
    memset(p, 0xDD, b.size);
    g_blocks.erase(f);
    ::operator delete(p, std::align_val_t(b.align));
}
static const Block* blockOf(const void* vp, size_t before, size_t after, char** begin = nullptr) {
    auto p = static_cast<char*>(const_cast<void*>(vp));
    auto it = g_blocks.upper_bound(p);
    if (it == g_blocks.begin()) return nullptr;
    --it;
    if (size_t(p - it->first) < before || p + after > it->first + it->second.size) return nullptr;
    if (begin) *begin = it->first;
    return &it->second;
}

// resources: 0 default, 1..3 for objects, 10 + d for domains; mixin allocators report as 20 + k
struct Res : public MemRes {
    int id;
    explicit Res(int i) : id(i) {}
    void* do_allocate(size_t s, size_t a) override {
        if (g_armed && (id == g_armedRes || (g_retryRes >= 0 && id == 0))) countAlloc();
        return rawAlloc(s, a, id);
    }
    void do_deallocate(void* p, size_t s, size_t a) override { rawFree(p, s, a, id, true); }
    bool do_is_equal(const MemRes& o) const noexcept override { return this == &o; }
};
static Res g_res[4] = {Res(0), Res(1), Res(2), Res(3)};
static dmx::allocator mkAlloc(Res& r) { return dmx::allocator(&r); }
#if DYNAMIX_HAS_PMR
static dmx::allocator objAlloc(int i) { return mkAlloc(g_res[i]); }
#else
// the default resource is the library's own, on top of these
static dmx::allocator objAlloc(int i) { return i ? mkAlloc(g_res[i]) : dmx::allocator(); }
extern "C" void __real_free(void*);
extern "C" void* __wrap_aligned_alloc(size_t align, size_t size) {
    if (align && size % align) bad("aligned_alloc of a size which is no multiple of the alignment");
    try {
        if (g_armed && (g_armedRes == 0 || g_retryRes >= 0)) countAlloc();
        return rawAlloc(size, align, 0);
    }
    catch (std::bad_alloc&) { return nullptr; }
}
extern "C" void __wrap_free(void* p) {
    if (g_blocks.count(static_cast<char*>(p))) rawFree(p, 0, 0, 0, false);
    else __real_free(p);
}
#endif

static void* mixAlloc(const mixin_info& info, int k) {
    if (g_retryRes < 0) countAlloc();
    return rawAlloc(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset ? info.obj_buf_alignment_and_mixin_offset : 1, 20 + k);
}
struct MixAlloc final : dmx::mixin_allocator {
    int k = 0;
    dmx::byte_t* alloc_mixin_buf(const mixin_info& info) override { return static_cast<dmx::byte_t*>(mixAlloc(info, k)); }
    void dealloc_mixin_buf(dmx::byte_t* p, const mixin_info& info) noexcept override {
        rawFree(p, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, 20 + k, true);
    }
};
static MixAlloc g_ma1; // allocator 1: C++
static dnmx_mixin_allocator_handle g_ma2; // allocator 2: through C

// ---------------------------------------------------------------------- universe
static constexpr int MaxM = 64, MaxF = 6, MaxR = 8, MaxT = 5, MaxD = 3;
static const J* g_u;  // current universe
static mixin_info M[MaxM + 1];
static vector<dnmx_feature_for_mixin> g_mf[MaxM + 1];
static feature_info* F[MaxF + 1];
static dnmx_mutation_rule_info RI[MaxR + 1];
static dnmx_type_class TC[MaxT + 1];
static int g_nm, g_nf, g_nr, g_nt, g_nd, g_nn;
static string g_nameBuf;
static vector<dnmx_sv> g_names;
static vector<string> g_nameCopies;

static int mixIx(const mixin_info* i) {
    if (!i) return 0;
    for (int m = 1; m <= g_nm; ++m) if (i == M + m) return m;
    bad("unknown mixin info");
    return -99;
}
static int featIx(const feature_info* i) {
    if (!i) return 0;
    for (int f = 1; f <= g_nf; ++f) if (i == F[f]) return f;
    bad("unknown feature info");
    return -99;
}

// ---------------------------------------------------------------------- domains and objects
alignas(dmx::domain) static unsigned char g_domBuf[MaxD * sizeof(dmx::domain)];
static Res* g_domRes[MaxD];
static dmx::domain& D(int d) { return reinterpret_cast<dmx::domain*>(g_domBuf)[d - 1]; }
static dnmx_domain_handle DH(int d) { return D(d).to_c_hanlde(); }

static vector<dmx::object*> g_ob; // 1-based
static vector<int> g_obAl;
static int resOf(const dmx::allocator& a) {
    for (int i = 0; i < 4; ++i) if (a == objAlloc(i)) return i;
    return -1;
}

// ---------------------------------------------------------------------- mixins
struct Live { int m; };
static std::map<const void*, Live> g_live;
struct Ev { const char* k; int a, b, c, d; int n; };
static vector<Ev> g_ev;
static void ev(const char* k, int a, int b) { g_ev.push_back({k, a, b, 0, 0, 2}); }
static void ev(const char* k, int a, int b, int c) { g_ev.push_back({k, a, b, c, 0, 3}); }
static void ev(const char* k, int a, int b, int c, int d) { g_ev.push_back({k, a, b, c, d, 4}); }
struct Claim { const void* p; const dmx::object* o; bool isNew; };
static vector<Claim> g_claims; // who mixins thought they belonged to during the operation
static void claim(const void* p, bool isNew) { g_claims.push_back({p, dmx::object_of(p), isNew}); }

static void fill(int m, void* p, int v) {
    auto b = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < M[m].size; ++i) b[i] = (unsigned char)(v + i * 3);
}
static int val(int m, const void* p) {
    if (M[m].size == 0) return 0;
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < M[m].size; ++i)
        if (b[i] != (unsigned char)(b[0] + i * 3)) { bad("the bytes of a mixin were changed"); return -77; }
    return b[0];
}
static void checkPlace(int m, const void* p) {
    auto& x = M[m];
    if (x.alignment && reinterpret_cast<uintptr_t>(p) % x.alignment) bad("misaligned mixin");
    if (reinterpret_cast<uintptr_t>(p) % sizeof(void*)) bad("misaligned owner reference");
    if (!blockOf(p, sizeof(void*), x.size)) bad("mixin outside of allocated memory");
}
static int ofInfo(const mixin_info* i) { return mixIx(i); }
static void born(int m, void* p, int v, bool isNew) {
    checkPlace(m, p);
    auto f = g_live.find(p);
    if (f != g_live.end() && M[f->second.m].destroy) bad("construction over a living mixin");
    g_live[p] = {m};
    fill(m, p, v);
    claim(p, isNew);
}
static void needLive(int m, const void* p, const char* what) {
    auto f = g_live.find(p);
    if (f == g_live.end() || f->second.m != m) bad(string("not a living mixin: ") + what);
}

struct Fault { string k; int m; bool thr; bool on = false; };
static Fault g_fault;
static bool faulty(const char* k, int m) { return g_fault.on && g_fault.m == m && g_fault.k == k; }
static int failNow() { if (g_fault.thr) throw user_exc("user"); return 7; }

static dnmx_error_return_t cbInit(const mixin_info* i, void* p) {
    int m = ofInfo(i);
    if (faulty("i", m)) return failNow();
    born(m, p, 0, true);
    ev("i", m, 0);
    return 0;
}
static dnmx_error_return_t cbCopyInit(const mixin_info* i, void* p, const void* s) {
    int m = ofInfo(i);
    needLive(m, s, "copy source");
    if (faulty("ci", m)) return failNow();
    int v = val(m, s);
    born(m, p, v, true);
    ev("ci", m, v);
    return 0;
}
static dnmx_error_return_t cbCopyAsgn(const mixin_info* i, void* p, const void* s) {
    int m = ofInfo(i);
    needLive(m, p, "copy target"); needLive(m, s, "copy source");
    claim(p, false);
    if (faulty("ca", m)) return failNow();
    int v = val(m, s);
    fill(m, p, v);
    ev("ca", m, v);
    return 0;
}
static void cbMoveInit(const mixin_info* i, void* p, void* s) noexcept {
    int m = ofInfo(i);
    needLive(m, s, "move source");
    int v = val(m, s);
    born(m, p, v, true);
    fill(m, s, 0);
    claim(s, false);
    ev("mi", m, v);
}
static void cbMoveAsgn(const mixin_info* i, void* p, void* s) noexcept {
    int m = ofInfo(i);
    needLive(m, p, "move target"); needLive(m, s, "move source");
    int v = val(m, s);
    fill(m, s, 0);
    fill(m, p, v);
    claim(p, false);
    ev("ma", m, v);
}
static void cbDestroy(const mixin_info* i, void* p) noexcept {
    int m = ofInfo(i);
    needLive(m, p, "destroyed");
    int v = val(m, p);
    claim(p, false);
    g_live.erase(p);
    memset(p, 0xEE, M[m].size);
    ev("d", m, v);
}
static bool cbEq(const mixin_info* i, const void* a, const void* b) noexcept {
    int m = ofInfo(i);
    needLive(m, a, "compared"); needLive(m, b, "compared");
    return val(m, a) == val(m, b);
}
static int cbCmp(const mixin_info* i, const void* a, const void* b) noexcept {
    int m = ofInfo(i);
    needLive(m, a, "compared"); needLive(m, b, "compared");
    return 3 * (val(m, a) - val(m, b));
}

// ---------------------------------------------------------------------- rules
static dnmx_error_return_t applyRule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& mut = *dmx::type_mutation::from_c_handle(h);
    auto& r = (*g_u)["rules"][ud - 1];
    auto& k = r["k"].s;
    auto inf = [&](const char* x) -> const mixin_info& { return M[r[x].num()]; };
    if (k == "addif") {
        if (mut.has(inf("a"))) {
            dnmx_type_mutation_add_if_lacking(h, &inf("b"));
            if (g_armed && mut.lacks(inf("b"))) throw std::bad_alloc();
        }
    }
    else if (k == "add") mut.add_if_lacking(inf("a"));
    else if (k == "rem") mut.remove(inf("a"));
    else if (k == "back") { if (mut.has(inf("a"))) mut.to_back(inf("a")); }
    else if (k == "mutex") {
        const mixin_info* last = nullptr;
        for (auto m : mut.mixins) if (m == &inf("a") || m == &inf("b")) last = m;
        size_t seen = 0, total = 0;
        for (auto m : mut.mixins) if (m == &inf("a") || m == &inf("b")) ++total;
        (void)last;
        vector<const mixin_info*> nv;
        for (auto m : mut.mixins) {
            if (m == &inf("a") || m == &inf("b")) { if (++seen == total) nv.push_back(m); }
            else nv.push_back(m);
        }
        if (!dnmx_type_mutation_set_mixins(h, nv.data(), dmx::mixin_index_t(nv.size()))) throw std::bad_alloc();
    }
    else if (k == "sub") { for (auto& m : mut.mixins) if (m == &inf("a")) m = &inf("b"); }
    else if (k == "tog") { if (!mut.remove(inf("a"))) mut.add(inf("a")); }
    else if (k == "app") mut.add(inf("a"));
    else if (k == "err") { if (mut.has(inf("a"))) return 5; }
    else if (k == "thr") { if (mut.has(inf("a"))) throw user_exc("rule"); }
    return 0;
}
template <int R> static dnmx_error_return_t applyRuleN(dnmx_type_mutation_handle h, uintptr_t ud) {
    if (ud) bad("a rule without user data gets some");
    return applyRule(h, R);
}
static const decltype(RI[0].apply) applyOdd[] = {applyRuleN<1>, applyRuleN<3>, applyRuleN<5>, applyRuleN<7>, applyRuleN<9>, applyRuleN<11>};

// ---------------------------------------------------------------------- type classes
template <int I> static bool tcMatch(dnmx_type_handle h) noexcept {
    auto& t = *dmx::type::from_c_handle(h);
    auto& c = (*g_u)["tcs"][I - 1];
    // (types must not be asked about the elements of other domains)
    int a = c["a"].num();
    if (c["k"].s == "has") return (!M[a].registered() || M[a].dom == t.dom.to_c_hanlde()) && t.has(M[a]);
    if (c["k"].s == "num") return int(t.num_mixins()) >= a;
    if (c["k"].s == "impl") return (F[a]->id.i == dnmx_invalid_id || t.dom.get_feature_info(F[a]->id) == F[a]) && t.implements_strong(*F[a]);
    return false;
}
static const dnmx_type_class_match_func tcMatches[] = {nullptr, tcMatch<1>, tcMatch<2>, tcMatch<3>, tcMatch<4>, tcMatch<5>};

template <int I> struct TCs { inline static dmx::type_class& m_dynamix_type_class = TC[I]; };
template <typename X> static bool ofTyped(const X& x, int k) {
    switch (k) {
    case 1: return x.template is_of<TCs<1>>();
    case 2: return x.template is_of<TCs<2>>();
    case 3: return x.template is_of<TCs<3>>();
    case 4: return x.template is_of<TCs<4>>();
    default: return x.template is_of<TCs<5>>();
    }
}

// ---------------------------------------------------------------------- static mixin types
template <int I> struct CM {
    explicit CM(int v) {
        if (v == -1) throw user_exc("ctor");
        born(I, this, v, true);
        ev("fi", I, -1, v);
    }
    // kept trivial, as the real size is that of the info
};
static int g_curM; // the mixin CM<0> stands for
template <int I> const mixin_info& _dynamix_get_mixin_info(const CM<I>*) { return M[I ? I : g_curM]; }

// ---------------------------------------------------------------------- messages
// an argument which shows when it was moved from
struct A {
    int v;
    explicit A(int x) : v(x) {}
    A(const A& o) : v(o.v) {}
    A(A&& o) noexcept : v(o.v) { o.v = -777; }
    A& operator=(const A&) = default;
};
DYNAMIX_DECLARE_SIMPLE_MSG(Msg1, int(dmx::object&, A, int));
DYNAMIX_DECLARE_SIMPLE_MSG(Msg2, int(dmx::object&, A, int));
DYNAMIX_DECLARE_SIMPLE_MSG(Msg3, int(const dmx::object&, A, int));
DYNAMIX_DECLARE_SIMPLE_MSG(Msg4, int(const dmx::object&, A, int));
DYNAMIX_DECLARE_MSG(Msg5, call_msg_5, int, (dmx::object&, A, int));
DYNAMIX_DECLARE_MSG(Msg6, call_msg_6, int, (dmx::object&, A, int));
DYNAMIX_MAKE_FUNC_TRAITS(call_msg_5);
DYNAMIX_MAKE_FUNC_TRAITS(call_msg_6);

static int dfltRun(const dmx::object& o, A a, int b, int f);
template <int Fi> int dflt(dmx::object& o, A a, int b) { return dfltRun(o, std::move(a), b, Fi); }
template <int Fi> int dfltc(const dmx::object& o, A a, int b) { return dfltRun(o, std::move(a), b, Fi); }

DYNAMIX_DEFINE_SIMPLE_MSG(Msg1, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(Msg2, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(Msg3, unicast, true, &dfltc<3>);
DYNAMIX_DEFINE_SIMPLE_MSG(Msg4, multicast);
DYNAMIX_DEFINE_MSG_EX(Msg5, unicast, false, &dflt<5>, call_msg_5, int, (dmx::object&, A, int));
DYNAMIX_DEFINE_MSG(Msg6, multicast, call_msg_6, int, (dmx::object&, A, int));

template <int> struct MsgT;
template <> struct MsgT<1> { using t = Msg1; };
template <> struct MsgT<2> { using t = Msg2; };
template <> struct MsgT<3> { using t = Msg3; };
template <> struct MsgT<4> { using t = Msg4; };
template <> struct MsgT<5> { using t = Msg5; };
template <> struct MsgT<6> { using t = Msg6; };

// the forms of the C++ API with types as template arguments: fn gets a mixin type or a feature type by value
using CM0 = CM<0>;
template <typename Fn> static auto asMixin(int m, Fn fn) { g_curM = m; return fn(); }
template <typename Fn> static auto asMsg(int f, Fn fn) {
    switch (f) {
    case 1: return fn(static_cast<Msg1*>(nullptr));
    case 2: return fn(static_cast<Msg2*>(nullptr));
    case 3: return fn(static_cast<Msg3*>(nullptr));
    case 4: return fn(static_cast<Msg4*>(nullptr));
    case 5: return fn(static_cast<Msg5*>(nullptr));
    default: return fn(static_cast<Msg6*>(nullptr));
    }
}
template <typename X> static bool typedImpl(const X& t, int f) { return asMsg(f, [&](auto* p) { return t.template implements<std::remove_pointer_t<decltype(p)>>(); }); }
template <typename X> static bool typedStrong(const X& t, int f) { return asMsg(f, [&](auto* p) { return t.template implements_strong<std::remove_pointer_t<decltype(p)>>(); }); }

static const J* g_call; // the call being made
static dmx::object* g_callOb;
static int behOf(int m, const string** k) { *k = &(*g_call)["beh"][m - 1].s; return 0; }

static int dfltRun(const dmx::object& o, A a, int b, int f) {
    if (&o != g_callOb) bad("default implementation got another object");
    if (b != a.v + 40) bad("arguments do not belong together");
    if (f != (*g_call)["f"].num()) bad("default implementation of another message");
    ev("dp", 0, 0, a.v);
    return 900 + a.v;
}

template <int Fi, int I, typename V>
int runAs(V* vm, const string& k, A& a, int b, int m) {
    using Msg = typename MsgT<Fi>::t;
    using MT = std::conditional_t<std::is_const_v<V>, const CM<I>, CM<I>>;
    auto self = static_cast<MT*>(vm);
    auto answer = [&] { return (a.v * 100 + m) % 1000; };
    bool q = k.size() > 1 && k.back() == 'q';
    auto kk = q ? k.substr(0, k.size() - 1) : k;
    A na(a.v + 1);
    int nb = b + 1;
    if (kk == "next") {
        if (q && !dmx::has_next_impl_msg<Msg>(self)) return answer();
        return dmx::call_next_impl_msg<Msg>(self, std::move(na), std::move(nb));
    }
    if (kk == "set") {
        if (q && !dmx::has_next_bidder_set<Msg>(self)) return answer();
        return dmx::call_next_bidder_set<Msg>(self, std::move(na), std::move(nb));
    }
    if (kk == "top") {
        if (q && !dmx::has_next_bidder_set<Msg>(self)) return answer();
        return dmx::call_next_bidder_top<Msg>(self, std::move(na), std::move(nb));
    }
    return answer();
}

// implementation K of message Fi, whoever's it is
template <int Fi, int K, typename V>
int impl(V* vm, A a, int b) {
    auto f = g_live.find(vm);
    if (f == g_live.end()) { bad("message to something which is not a living mixin"); return -1; }
    int m = f->second.m;
    if (dmx::object_of(vm) != g_callOb) bad("message to a mixin of another object");
    auto& fs = (*g_u)["mixs"][m - 1]["fs"];
    if (size_t(K) > fs.size() || fs[K - 1]["f"].num() != Fi) bad("message to a mixin which does not implement it");
    if (b != a.v + 40) bad("arguments do not belong together");
    ev("p", m, K, a.v);
    const string* k;
    behOf(m, &k);
    if (*k == "thr") throw user_exc("payload");
    switch (m) {
    case 1: return runAs<Fi, 1>(vm, *k, a, b, m);
    case 2: return runAs<Fi, 2>(vm, *k, a, b, m);
    case 3: return runAs<Fi, 3>(vm, *k, a, b, m);
    case 4: return runAs<Fi, 4>(vm, *k, a, b, m);
    case 5: return runAs<Fi, 5>(vm, *k, a, b, m);
    case 6: return runAs<Fi, 6>(vm, *k, a, b, m);
    case 7: return runAs<Fi, 7>(vm, *k, a, b, m);
    case 8: return runAs<Fi, 8>(vm, *k, a, b, m);
    }
    g_curM = m;
    return runAs<Fi, 0>(vm, *k, a, b, m);
}
template <int Fi, typename V> dnmx_feature_payload payloadK(int k) {
    int (*fns[])(V*, A, int) = {impl<Fi, 1, V>, impl<Fi, 2, V>, impl<Fi, 3, V>, impl<Fi, 4, V>};
    return dmx::fwd_any(reinterpret_cast<dmx::feature_payload>(fns[k - 1])).get();
}
static dnmx_feature_payload payload(int f, int k) {
    switch (f) {
    case 1: return payloadK<1, void>(k);
    case 2: return payloadK<2, void>(k);
    case 3: return payloadK<3, const void>(k);
    case 4: return payloadK<4, const void>(k);
    case 5: return payloadK<5, void>(k);
    default: return payloadK<6, void>(k);
    }
}
template <typename Fn> static dnmx_feature_payload asPl(Fn* f) { return reinterpret_cast<dnmx_feature_payload>(f); }
static dnmx_feature_payload dfltPayload(int f) {
    switch (f) {
    case 1: return asPl(&dflt<1>);
    case 2: return asPl(&dflt<2>);
    case 3: return asPl(&dfltc<3>);
    case 4: return asPl(&dfltc<4>);
    case 5: return asPl(&dflt<5>);
    default: return asPl(&dflt<6>);
    }
}
struct Comb {
    int wants;
    vector<int> got;
    void set_num_results(size_t n) { got.push_back(int(n)); }
    bool add_result(int r) { got.push_back(r); return int(got.size()) - 1 < wants; }
};
template <int Fi, typename O> int callMsg(dmx::object& o, int arg, Comb* cb) {
    using Msg = typename MsgT<Fi>::t;
    O& ob = o;
    int b = arg + 40;
    if (cb) {
        Msg::traits::caller::call_with_v1_combinator(Msg::info, *cb, ob, A(arg), std::move(b));
        return 0;
    }
    if constexpr (Fi == 5) return (arg % 2) ? call_msg_5(ob, A(arg), b) : Msg::call(ob, A(arg), b);
    else if constexpr (Fi == 6) return (arg % 2) ? call_msg_6(ob, A(arg), b) : Msg::call(ob, A(arg), b);
    else return Msg::call(ob, A(arg), b);
}

// ---------------------------------------------------------------------- universe setup
static dnmx_sv nameSv(int n) { return g_names[n]; }
static std::string_view lookupName(int n) { return g_nameCopies[n]; }

static void setupUniverse(const J& u) {
    g_u = &u;
    g_nm = int(u["mixs"].size()); g_nf = int(u["feats"].size()); g_nr = int(u["rules"].size());
    g_nt = int(u["tcs"].size()); g_nd = int(u["canon"].size()); g_nn = u["names"].num();
    // names: those which are prefixes of others share their buffer
    vector<string> strs;
    for (auto& s : u["strs"].a) { string x; for (auto& c : s.a) x += char(c.num()); strs.push_back(x); }
    g_nameCopies = strs;
    g_nameBuf.clear();
    g_nameBuf.reserve(4096);
    g_names.assign(strs.size(), dnmx_sv{nullptr, nullptr});
    vector<size_t> order(strs.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return strs[a].size() > strs[b].size(); });
    for (auto i : order) {
        auto& s = strs[i];
        if (s.empty()) continue;
        auto at = g_nameBuf.find(s);
        if (at == string::npos) { at = g_nameBuf.size(); g_nameBuf += s; }
        g_names[i] = dnmx_make_sv_len(g_nameBuf.data() + at, s.size());
    }

    F[1] = const_cast<dmx::common_feature_info*>(&Msg1::get_info_safe());
    F[2] = const_cast<dmx::common_feature_info*>(&Msg2::get_info_safe());
    F[3] = const_cast<dmx::common_feature_info*>(&Msg3::get_info_safe());
    F[4] = const_cast<dmx::common_feature_info*>(&Msg4::get_info_safe());
    F[5] = const_cast<dmx::common_feature_info*>(&Msg5::get_info_safe());
    F[6] = const_cast<dmx::common_feature_info*>(&Msg6::get_info_safe());
    for (int f = 1; f <= g_nf; ++f) {
        auto& x = u["feats"][f - 1];
        *F[f] = dnmx_make_feature_info();
        F[f]->name = nameSv(x["n"].num());
        F[f]->allow_clashes = x["cl"].b();
        F[f]->default_payload = x["df"].b() ? dfltPayload(f) : nullptr;
    }
    dnmx_destroy_domain(dnmx_create_domain(dnmx_make_sv_lit("x"), {}, 0, nullptr)); // (what exists once is there)
    {   // what is created through C and destroyed is gone
        const size_t bytes = __sanitizer_get_current_allocated_bytes();
        dnmx_destroy_mixin_allocator(dnmx_create_mixin_allocator([](const mixin_info*) -> void* { return nullptr; }, [](void*, const mixin_info*) {}));
        auto h = dnmx_create_domain(dnmx_make_sv_lit("x"), {}, 0, nullptr);
        dnmx_destroy_unused_type_mutation(dnmx_create_type_mutation_empty(h));
        dnmx_destroy_object(dnmx_create_object_empty(h));
        auto m = dnmx_create_type_mutation_empty(h);
        dnmx_get_type(h, &m);
        dnmx_destroy_domain(h);
        if (__sanitizer_get_current_allocated_bytes() != bytes) bad("creating and destroying leaves memory behind");
    }
    g_ma1.k = 1;
    if (!g_ma2) g_ma2 = dnmx_create_mixin_allocator(
        [](const mixin_info* i) -> void* { try { return mixAlloc(*i, 2); } catch (std::bad_alloc&) { return nullptr; } },
        [](void* p, const mixin_info* i) { rawFree(p, i->obj_buf_size, i->obj_buf_alignment_and_mixin_offset, 22, true); });
    for (int m = 1; m <= g_nm; ++m) {
        auto& x = u["mixs"][m - 1];
        auto& i = M[m];
        i = dnmx_make_mixin_info();
        i.name = nameSv(x["n"].num());
        i.set_size_alignment(x["sz"].num(), x["ag"].num());
        auto lacks = [&](const char* k) { for (auto& n : x["no"].a) if (n.s == k) return true; return false; };
        if (!lacks("i")) i.init = cbInit;
        if (!lacks("ci")) i.copy_init = cbCopyInit;
        if (!lacks("ca")) i.copy_asgn = cbCopyAsgn;
        if (!lacks("mi")) i.move_init = cbMoveInit;
        if (!lacks("ma")) i.move_asgn = cbMoveAsgn;
        if (!lacks("d")) i.destroy = cbDestroy;
        if (!lacks("eq")) i.equals = cbEq;
        if (!lacks("cm")) i.compare = cbCmp;
        i.force_external = x["fe"].b();
        i.dependency = x["dep"].b();
        i.order_priority = x["p"].num();
        if (x["al"].num() == 1) i.allocator = g_ma1.to_c_hanlde();
        if (x["al"].num() == 2) i.allocator = g_ma2;
        i.user_data = m;
        g_mf[m].clear();
        int k = 0;
        for (auto& f : x["fs"].a) {
            ++k;
            g_mf[m].push_back({F[f["f"].num()], payload(f["f"].num(), k), f["b"].num(), f["p"].num()});
        }
        i.set_features(g_mf[m]);
    }
    for (int r = 1; r <= g_nr; ++r) {
        auto& x = u["rules"][r - 1];
        // (odd ones have no user data)
        RI[r] = {nameSv(x["n"].num()), x["k"].s == "null" ? nullptr : r % 2 ? applyOdd[r / 2] : applyRule, uintptr_t(r % 2 ? 0 : r), x["p"].num()};
    }
    for (int t = 1; t <= g_nt; ++t) {
        auto& x = u["tcs"][t - 1];
        TC[t] = {nameSv(x["n"].num()), x["k"].s == "null" ? nullptr : tcMatches[t]};
    }
    for (int d = 1; d <= g_nd; ++d) {
        g_domRes[d - 1] = new Res(9 + d);
        dmx::domain_settings s{};
        s.canonicalize_types = u["canon"][d - 1].b();
        s.allow_duplicate_mixin_names = u["dupM"][d - 1].b();
        s.allow_duplicate_feature_names = u["dupF"][d - 1].b();
        static const char* const names[] = {"dom1", "", "dom3"}; // domains do not copy their names
        for (int k = 0; k < 40; ++k) { // without memory there is no domain
            const size_t blocks = g_blocks.size();
            bool made = false;
            g_retryRes = g_armedRes = 9 + d; g_failAt = k / 2; g_armed = true;
            if (k % 2) {
                auto h = dnmx_create_domain(dnmx_sv::from_std(names[d - 1]), s, 1, nullptr);
                g_armed = false;
                if (h) { made = true; dnmx_destroy_domain(h); }
            }
            else {
                try {
                    auto x = new dmx::domain(names[d - 1], s, 1, nullptr, mkAlloc(*g_domRes[d - 1]));
                    g_armed = false;
                    made = true;
                    delete x;
                }
                catch (std::bad_alloc&) {}
            }
            g_armed = false; g_retryRes = -1;
            if (g_failAt >= 0 && !made) bad("a domain can't be created");
            if (g_blocks.size() != blocks) bad("a domain which could not be created, or was destroyed, leaves memory behind");
            if (g_failAt >= 0 && k % 2) break;
        }
        new (&D(d)) dmx::domain(names[d - 1], s, uintptr_t(100 + d), g_domRes + d, mkAlloc(*g_domRes[d - 1]));
        if (D(d).name() != names[d - 1] || D(d).user_data != uintptr_t(100 + d) || D(d).context != g_domRes + d
            || dnmx_get_domain_user_data(DH(d)) != uintptr_t(100 + d) || dnmx_get_domain_context(DH(d)) != g_domRes + d
            || dnmx_sv_cmp(dnmx_get_domain_name(DH(d)), dnmx_sv::from_std(D(d).name())) != 0)
            bad("a domain does not have the name or data it was created with");
        dnmx_set_domain_user_data(DH(d), uintptr_t(500 + d));
        if (D(d).user_data != uintptr_t(500 + d) || dnmx_get_domain_context(DH(d)) != g_domRes + d) bad("setting the user data of a domain");
        dnmx_set_domain_context(DH(d), (void*)&g_domBuf);
        if (dnmx_get_domain_context(DH(d)) != (void*)&g_domBuf || dnmx_get_domain_user_data(DH(d)) != uintptr_t(500 + d)) bad("setting the context of a domain");
    }
}

// ---------------------------------------------------------------------- tokens of types and addresses
static std::map<const dmx::type*, int> g_ty[MaxD];
static int g_tyNext[MaxD];
static std::map<const void*, int> g_ad;
static int g_adNext;

static void scanTypes() {
    for (int d = 1; d <= g_nd; ++d) {
        vector<const dmx::type*> now;
        dmx::domain_traverse(D(d)).traverse_types([&](const dmx::type& t) { if (t.num_mixins()) now.push_back(&t); });
        auto& ty = g_ty[d - 1];
        for (auto i = ty.begin(); i != ty.end();) {
            if (std::find(now.begin(), now.end(), i->first) == now.end()) i = ty.erase(i); else ++i;
        }
        int fresh = 0;
        for (auto t : now) if (!ty.count(t)) { ty[t] = ++g_tyNext[d - 1]; ++fresh; }
        if (fresh > 1) bad("an operation created more than one type");
    }
}
static int tokOf(int d, const dmx::type& t) {
    if (&t.dom != &D(d)) { bad("type of another domain"); return -2; }
    if (&t == &D(d).get_empty_type()) return 0;
    auto f = g_ty[d - 1].find(&t);
    if (f == g_ty[d - 1].end()) return -3;
    return f->second;
}
static const dmx::type* typeAt(int d, int tok) {
    if (tok == 0) return &D(d).get_empty_type();
    for (auto& p : g_ty[d - 1]) if (p.second == tok) return p.first;
    return nullptr;
}
static int domOf(const dmx::domain* p) {
    for (int d = 1; d <= g_nd; ++d) if (p == &D(d)) return d;
    return 0;
}

// ---------------------------------------------------------------------- observation
struct PerOb { vector<int> vs, as; };
static void trimZeros(vector<int>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); }

static void obsDomain(JOut& j, int d) {
    auto& dom = D(d);
    vector<int> ms, fs;
    for (uint32_t i = 0; i < uint32_t(g_nm) + 3; ++i) {
        auto x = dom.get_mixin_info(dmx::mixin_id{i});
        ms.push_back(mixIx(x));
        if (x != dnmx_get_mixin_info_by_id(DH(d), {i})) bad("C and C++ lookups of mixins differ");
    }
    for (uint32_t i = 0; i < uint32_t(g_nf) + 3; ++i) {
        auto x = dom.get_feature_info(dmx::feature_id{i});
        fs.push_back(featIx(x));
        if (x != dnmx_get_feature_info_by_id(DH(d), {i})) bad("C and C++ lookups of features differ");
    }
    if (dom.get_mixin_info(dmx::mixin_id{dnmx_invalid_id}) || dom.get_feature_info(dmx::feature_id{dnmx_invalid_id})) bad("something has the invalid id");
    // the traversals have to find the same as the lookups
    {
        dmx::domain_traverse tr(dom);
        vector<int> a, b;
        tr.traverse_mixins([&](const mixin_info& x) { a.push_back(mixIx(&x)); });
        tr.traverse_features([&](const feature_info& x) { b.push_back(featIx(&x)); });
        auto same = [](vector<int> x, vector<int> y) {
            y.erase(std::remove(y.begin(), y.end(), 0), y.end());
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            return x == y;
        };
        if (!same(a, ms)) bad("traversed mixins differ from the ones found by id");
        if (!same(b, fs)) bad("traversed features differ from the ones found by id");
    }
    trimZeros(ms); trimZeros(fs);
    j.open('{').key("ms").arr(ms).key("fs").arr(fs);
    vector<int> mn, fn, tn;
    for (int n = 0; n < g_nn; ++n) {
        auto s = lookupName(n);
        auto sv = dnmx_sv::from_std(s);
        auto m = dom.get_mixin_info(s); mn.push_back(mixIx(m));
        if (m != dnmx_get_mixin_info_by_name(DH(d), sv)) bad("C and C++ lookups of mixins differ");
        auto f = dom.get_feature_info(s); fn.push_back(featIx(f));
        if (f != dnmx_get_feature_info_by_name(DH(d), sv)) bad("C and C++ lookups of features differ");
        auto t = dom.get_type_class(s); tn.push_back(t ? int(t - TC) : 0);
        if (t != dnmx_get_type_class_by_name(DH(d), sv)) bad("C and C++ lookups of type classes differ");
    }
    j.key("mn").arr(mn).key("fn").arr(fn).key("tn").arr(tn);
    vector<int> ts;
    struct Rc { int r; unsigned c; };
    vector<Rc> rs;
    {
        dmx::domain_traverse tr(dom);
        tr.traverse_type_classes([&](const dmx::type_class& t) { ts.push_back(int(&t - TC)); });
        tr.traverse_mutation_rules([&](const dmx::mutation_rule_info& r, uint32_t c) {
            if (&r > RI && &r <= RI + MaxR) rs.push_back({int(&r - RI), c});
        });
        tr.traverse_type_queries([&](auto, const dmx::type& t) { if (tokOf(d, t) < 0) bad("remembered answer is not a type of the domain"); });
    }
    std::sort(ts.begin(), ts.end());
    j.key("ts").arr(ts);
    j.key("rs").open('[');
    for (auto& r : rs) j.open('[').n(r.r).n(r.c).close(']');
    j.close(']');
    j.key("ty").open('[');
    vector<std::pair<int, const dmx::type*>> ty;
    for (auto& p : g_ty[d - 1]) ty.push_back({p.second, p.first});
    std::sort(ty.begin(), ty.end());
    for (auto& p : ty) {
        vector<int> tms;
        for (auto m : p.second->mixins) tms.push_back(mixIx(m));
        j.open('[').n(p.first).arr(tms).n(p.second->num_objects()).close(']');
        if (dnmx_type_num_objects(p.second) != p.second->num_objects()) bad("C and C++ object counts differ");
    }
    j.close(']').close('}');
    if (&dom.get_empty_type() != dnmx_get_empty_type(DH(d)) || dom.get_empty_type().num_mixins()) bad("bad empty type");
    if (dom.num_types() != dnmx_get_num_types(DH(d))) bad("C and C++ type counts differ");
    if (dom.num_types() != ty.size()) bad("type count " + std::to_string(dom.num_types()) + " is not that of the types");
}

static size_t g_expectBlocks[24];

// recorded places of what belongs to an object, for spec/Layout.tla to judge
static std::set<string> g_layouts;   // all seen by this process
static vector<string> g_newLayouts;  // the ones first seen in the present script
static void recordLayout(const dmx::object& ob) {
    int n = int(ob.num_mixins());
    if (!n) return;
    auto& t = ob.get_type();
    vector<std::pair<char*, const Block*>> bl;
    auto place = [&](const void* p, int& k, long long& at) {
        char* b = nullptr;
        auto x = blockOf(p, 0, 0, &b);
        if (!x) return false;
        for (k = 0; k < int(bl.size()) && bl[k].first != b;) ++k;
        if (k == int(bl.size())) bl.emplace_back(b, x);
        at = static_cast<const char*>(p) - b;
        return true;
    };
    JOut j;
    int k; long long at;
    const auto base = reinterpret_cast<const dnmx_basic_object*>(ob.to_c_hanlde());
    if (!place(base->m_mixin_data, k, at)) return;
    j.open('{').key("hdr").open('[').n(k + 1).n(at).n((long long)(n * sizeof(dnmx_object_mixin_data))).close(']');
    j.key("mx").open('[');
    for (int i = 0; i < n; ++i) {
        auto& info = *t.mixins[i];
        auto p = ob.get_at(i);
        if (!p || !place(p, k, at)) return;
        j.open('[').n(info.size).n(info.alignment).n(info.force_external || info.allocator || !info.move_init).n(k + 1).n(at).close(']');
    }
    j.close(']').key("bl").open('[');
    for (auto& b : bl) j.open('[').n((long long)b.second->size).n((long long)b.second->align).close(']');
    j.close(']').close('}');
    if (g_layouts.insert(j.s).second) g_newLayouts.push_back(j.s);
}

static void scanObject(int o, PerOb& out, std::set<const void*>& seen) {
    auto& ob = *g_ob[o];
    const auto& cob = ob;
    auto h = ob.to_c_hanlde();
    auto& t = ob.get_type();
    int n = int(ob.num_mixins());
    if (n != int(t.num_mixins()) || n != int(dnmx_object_num_mixins(h))) bad("number of mixins of an object is not that of its type");
    if (ob.empty() != (n == 0) || dnmx_object_is_empty(h) != ob.empty()) bad("emptiness of an object");
    if (dnmx_object_is_sealed(h) != ob.sealed()) bad("C and C++ sealed differ");
    if (dnmx_object_get_type(h) != &t || dnmx_object_get_domain(h) != ob.get_domain().to_c_hanlde() || &ob.get_domain() != &t.dom) bad("type or domain of an object");
    if (ob.get_at(n) || cob.get_at(n) || dnmx_object_get_at(h, n) || dnmx_object_get_mut_at(h, n)) bad("access after the last mixin");
    if (ob.get_at(dmx::invalid_mixin_index)) bad("access at the invalid index");
    char* bufBegin = nullptr;
    const Block* buf = nullptr;
    struct Iv { const char* b; const char* e; };
    vector<Iv> ivs;
    if (n) {
        const auto base = reinterpret_cast<const dnmx_basic_object*>(dnmx_const_object_handle(h));
        buf = blockOf(base->m_mixin_data, 0, n * sizeof(dnmx_object_mixin_data), &bufBegin);
        if (!buf) bad("object buffer outside of allocated memory");
        ivs.push_back({reinterpret_cast<const char*>(base->m_mixin_data), reinterpret_cast<const char*>(base->m_mixin_data + n)});
        int r = resOf(ob.get_allocator());
        if (buf && buf->res != r) bad("object buffer from another allocator");
        ++g_expectBlocks[r < 0 ? 0 : r];
    }
    for (int i = 0; i < n; ++i) {
        auto& info = *t.mixins[i];
        int m = mixIx(&info);
        void* p = ob.get_at(i);
        if (!p) { bad("missing mixin"); continue; }
        if (p != ob.unchecked_get_at(i) || p != cob.unchecked_get_at(i) || p != cob.get_at(i) || p != ob.get(info) || p != cob.get(info)
            || p != ob.get(info.id) || p != cob.get(info.id)
            || p != dnmx_object_get_at(h, i) || p != dnmx_object_get_mut_at(h, i) || p != dnmx_object_get(h, &info) || p != dnmx_object_get_mut(h, &info)
            || p != dnmx_object_unchecked_get_at(h, i))
            bad("accessors disagree about the place of a mixin");
        g_curM = m;
        if (ob.get<CM0>() != p || cob.get<CM0>() != p || !ob.has<CM0>() || !t.has<CM0>() || t.lacks<CM0>()) bad("access by mixin type");
        auto nm = info.name.to_std();
        int same = 0;
        for (auto x : t.mixins) if (x->name == info.name) ++same;
        string nmc(nm);
        if (same == 1 && (p != ob.get(nmc) || p != cob.get(nmc) || p != dnmx_object_get_by_name(h, dnmx_sv::from_std(nmc)) || p != dnmx_object_get_mut_by_name(h, dnmx_sv::from_std(nmc))))
            bad("access by name");
        if (!ob.has(info) || !ob.has(info.id) || !ob.has(nmc) || !dnmx_object_has(h, &info) || !dnmx_object_has_by_name(h, dnmx_sv::from_std(nmc))) bad("object does not have its mixin");
        checkPlace(m, p);
        needLive(m, p, "in an object");
        if (!seen.insert(p).second) bad("two mixins at one place");
        if (dmx::object_of(p) != &ob) bad("a mixin does not know its object");
        char* mb = nullptr;
        auto blk = blockOf(p, sizeof(void*), info.size, &mb);
        const bool ext = info.force_external || info.allocator || !info.move_init;
        if (ext) {
            if (mb == bufBegin) bad("external mixin in the object buffer");
            int r = info.allocator ? 20 + (*g_u)["mixs"][m - 1]["al"].num() : resOf(ob.get_allocator());
            if (blk && blk->res != r) bad("mixin buffer from another allocator");
            ++g_expectBlocks[r < 0 ? 0 : r];
        }
        else if (mb != bufBegin) bad("internal mixin outside of the object buffer");
        ivs.push_back({static_cast<const char*>(p) - sizeof(void*), static_cast<const char*>(p) + info.size});
        out.vs.push_back(val(m, p));
        auto f = g_ad.find(p);
        int tok;
        if (f == g_ad.end()) { tok = g_adNext++; g_ad[p] = tok; } else tok = f->second;
        out.as.push_back(tok);
    }
    std::sort(ivs.begin(), ivs.end(), [](const Iv& a, const Iv& b) { return a.b < b.b; });
    for (size_t i = 1; i < ivs.size(); ++i) if (ivs[i].b < ivs[i - 1].e) bad("storage of mixins overlaps");
    recordLayout(ob);
    // what is not there is not found
    int d = domOf(&ob.get_domain());
    for (int m = 1; m <= g_nm; ++m) {
        if (M[m].registered() && M[m].dom != DH(d)) continue;
        bool there = false;
        for (auto x : t.mixins) if (x == M + m) there = true;
        if (there) continue;
        g_curM = m;
        if (ob.has<CM0>() || ob.get<CM0>() || cob.get<CM0>() || t.has<CM0>() || !t.lacks<CM0>()) bad("mixin type which is not there");
        if (ob.has(M[m]) || ob.get(M[m]) || cob.get(M[m]) || dnmx_object_has(h, M + m) || dnmx_object_get(h, M + m) || dnmx_object_get_mut(h, M + m) || ob.get(M[m].id)) bad("object has a mixin which its type has not");
    }
    for (int k = 0; k < g_nn; ++k) {
        bool there = false;
        for (auto x : t.mixins) if (x->name == lookupName(k)) there = true;
        auto sv = dnmx_sv::from_std(lookupName(k));
        if (ob.has(lookupName(k)) != there || !!ob.get(lookupName(k)) != there || dnmx_object_has_by_name(h, sv) != there
            || !!dnmx_object_get_by_name(h, sv) != there || dnmx_type_has_by_name(&t, sv) != there)
            bad("object and its type disagree about a name");
    }
}

static void obsObjects(JOut& j, const vector<PerOb>& per) {
    j.open('[');
    for (size_t o = 1; o < g_ob.size(); ++o) {
        j.open('[');
        if (g_ob[o]) {
            auto& ob = *g_ob[o];
            int d = domOf(&ob.get_domain());
            j.n(d).n(tokOf(d, ob.get_type())).n(resOf(ob.get_allocator())).n(ob.sealed()).arr(per[o].vs).arr(per[o].as);
        }
        j.close(']');
    }
    j.close(']');
}
static void observe(JOut& j) {
    scanTypes();
    memset(g_expectBlocks, 0, sizeof(g_expectBlocks));
    vector<PerOb> per(g_ob.size());
    std::set<const void*> seen;
    for (size_t o = 1; o < g_ob.size(); ++o) if (g_ob[o]) scanObject(int(o), per[o], seen);
    for (auto i = g_ad.begin(); i != g_ad.end();) if (seen.count(i->first)) ++i; else i = g_ad.erase(i);
    for (auto i = g_live.begin(); i != g_live.end();) {
        if (seen.count(i->first)) { ++i; continue; }
        if (M[i->second.m].destroy) bad("a mixin which belongs to no object was not destroyed");
        i = g_live.erase(i);
    }
    size_t have[24] = {};
    for (auto& b : g_blocks) ++have[b.second.res];
    for (int r : {1, 2, 3, 21, 22}) if (have[r] != g_expectBlocks[r])
        bad("allocator " + std::to_string(r) + " has " + std::to_string(have[r]) + " blocks in use instead of " + std::to_string(g_expectBlocks[r]));
    if (have[0] != g_expectBlocks[0]) bad("the default allocator has " + std::to_string(have[0]) + " blocks in use instead of " + std::to_string(g_expectBlocks[0]));
    j.key("obs").open('{').key("dm").open('[');
    for (int d = 1; d <= g_nd; ++d) obsDomain(j, d);
    j.close(']');
    j.key("fr").open('[');
    for (int f = 1; f <= g_nf; ++f) j.n(F[f]->id.i == dnmx_invalid_id ? -1 : (long long)F[f]->id.i);
    j.close(']').key("mr").open('[');
    for (int m = 1; m <= g_nm; ++m) j.open('[').n(M[m].dom ? domOf(dmx::domain::from_c_handle(M[m].dom)) : 0).n(M[m].registered() ? (long long)M[m].iid() : -1).close(']');
    j.close(']').key("ob");
    obsObjects(j, per);
    j.close('}');
}

// ---------------------------------------------------------------------- type facets
static void typeInfo(JOut& j, int d, const dmx::type& t) {
    auto near = [&](const mixin_info& m) { return !m.registered() || m.dom == DH(d); };
    auto regF = [&](int f) { return D(d).get_feature_info(F[f]->id) == F[f]; };
    auto nearF = [&](int f) { return F[f]->id.i == dnmx_invalid_id || regF(f); };
    auto h = dnmx_type_handle(&t);
    j.open('{').key("ms").open('[');
    for (auto m : t.mixins) j.n(mixIx(m));
    j.close(']');
    if (dnmx_type_num_mixins(h) != t.num_mixins() || t.mixins.size() != t.num_mixins()) bad("number of mixins of a type");
    j.key("ft").open('[');
    vector<int> tc;
    for (int f = 1; f <= g_nf; ++f) {
        j.open('[');
        int top = 0;
        if (regF(f)) {
            auto e = t.ftable_at(F[f]->id);
            auto e2 = dnmx_ftable_at(&t, F[f]->id);
            if (e.begin != e2.begin || e.end != e2.end || e.top_bid_back != e2.top_bid_back) bad("C and C++ feature tables differ");
            if (e) {
                top = int(e.top_bid_back - e.begin) + 1;
                if (e.size() != uint32_t(e.end - e.begin) || e.begin == e.end) bad("size of a feature table entry");
                for (auto p = e.begin; p != e.end; ++p) {
                    int m = p->mixin_index < t.num_mixins() ? mixIx(t.mixins[p->mixin_index]) : -1;
                    j.open('[').n(p->mixin_index).n(m).n(p->data->bid).n(p->data->priority).close(']');
                    if (p->data->info != F[f] || p->payload != p->data->payload) bad("payload in the feature table is not that of the feature");
                    bool own = false;
                    if (m > 0) for (auto& x : g_mf[m]) if (&x == p->data) own = true;
                    if (!own) bad("feature table entry is not of its mixin");
                }
            }
        }
        else if (F[f]->id.i == dnmx_invalid_id && t.ftable_at(F[f]->id)) bad("an unregistered feature is implemented");
        j.close(']');
        tc.push_back(top);
    }
    j.close(']').key("tc").arr(tc);
    vector<int> is, im, isn;
    for (int f = 1; f <= g_nf; ++f) {
        bool s = nearF(f) && t.implements_strong(*F[f]), i = nearF(f) && t.implements(*F[f]);
        is.push_back(s); im.push_back(i);
        if (nearF(f) && (typedImpl(t, f) != i || typedStrong(t, f) != s)) bad("implementing a message type");
        if (nearF(f) && (dnmx_type_implements_strong(h, F[f]) != s || dnmx_type_implements(h, F[f]) != i || t.implements_strong(F[f]->id) != s)) bad("C and C++ implements differ");
    }
    for (int n = 0; n < g_nn; ++n) {
        isn.push_back(t.implements_strong(lookupName(n)));
        if (dnmx_type_implements_strong_by_name(h, dnmx_sv::from_std(lookupName(n))) != !!isn.back()) bad("C and C++ implements differ");
    }
    j.key("is").arr(is).key("im").arr(im).key("isn").arr(isn);
    auto callable = [&](int f) {
        for (auto m : t.mixins) {
            int c = 0;
            for (auto& x : g_mf[mixIx(m)]) if (x.info == F[f]) ++c;
            if (c > 1) return false;
        }
        return true;
    };
    j.key("nx").open('[');
    for (int f = 1; f <= g_nf; ++f) {
        j.open('[');
        if (regF(f) && callable(f)) for (int m = 1; m <= g_nm; ++m) {
            auto p = near(M[m]) ? t.find_next_implementer(*F[f], M[m]) : nullptr;
            j.n(p ? mixIx(t.mixins[p->mixin_index]) : 0);
        }
        j.close(']');
    }
    j.close(']').key("ns").open('[');
    for (int f = 1; f <= g_nf; ++f) {
        j.open('[');
        if (regF(f) && callable(f)) for (int m = 1; m <= g_nm; ++m) {
            j.open('[');
            if (near(M[m])) for (auto& p : t.find_next_bidder_set(*F[f], M[m])) j.n(mixIx(t.mixins[p.mixin_index]));
            j.close(']');
        }
        j.close(']');
    }
    j.close(']').key("ix").open('[');
    for (int m = 1; m <= g_nm; ++m) {
        if (!near(M[m])) { j.n(-1); continue; }
        auto i = t.index_of(M[m].id);
        auto c = dnmx_type_index_of(h, M + m);
        if (i != c || t.has(M[m]) != (i != dmx::invalid_mixin_index) || t.has(M[m].id) != t.has(M[m]) || t.lacks(M[m]) == t.has(M[m])
            || t.lacks(M[m].id) == t.has(M[m]) || dnmx_type_has(h, M + m) != t.has(M[m])) bad("has and index_of of a type disagree");
        j.n(i == dmx::invalid_mixin_index ? -1 : (long long)i);
    }
    j.close(']').key("ixn").open('[');
    for (int n = 0; n < g_nn; ++n) {
        auto s = lookupName(n);
        auto i = t.index_of(s);
        if (i != dnmx_type_index_of_name(h, dnmx_sv::from_std(s)) || t.has(s) != (i != dmx::invalid_mixin_index) || t.lacks(s) == t.has(s)
            || dnmx_type_has_by_name(h, dnmx_sv::from_std(s)) != t.has(s)) bad("has and index_of by name disagree");
        j.n(i == dmx::invalid_mixin_index ? -1 : (long long)i);
    }
    j.close(']');
    vector<int> tr{t.default_constructible(), t.copy_constructible(), t.copy_assignable(), t.equality_comparable(), t.comparable()};
    if (dnmx_type_is_default_constructible(h) != !!tr[0] || dnmx_type_is_copy_constructible(h) != !!tr[1] || dnmx_type_is_copy_assignable(h) != !!tr[2]
        || dnmx_type_is_equality_comparable(h) != !!tr[3] || dnmx_type_is_comparable(h) != !!tr[4]
        || t.copyable() != (tr[1] && tr[2]) || dnmx_type_is_copyable(h) != t.copyable()) bad("C and C++ type traits differ");
    j.key("tr").arr(tr);
    j.key("of").open('[');
    for (int k = 1; k <= g_nt; ++k) {
        if (!TC[k].matches) { j.n(-1); continue; }
        bool x = t.is_of(TC[k]);
        if (dnmx_type_is_of(h, TC + k) != x) bad("C and C++ is_of differ");
        if (ofTyped(t, k) != x) bad("is_of of a type class type");
        j.n(x);
    }
    j.close(']').key("ofn").open('[');
    for (int n = 0; n < g_nn; ++n) {
        int x;
        try { x = t.is_of(lookupName(n)); } catch (dmx::type_error&) { x = -1; } catch (std::exception&) { x = -9; }
        if (dnmx_type_is_of_name(h, dnmx_sv::from_std(lookupName(n))) != (x == 1)) bad("C and C++ is_of by name differ");
        j.n(x);
    }
    j.close(']').close('}');
    // objects of the type answer alike
    for (size_t o = 1; o < g_ob.size(); ++o) if (g_ob[o] && &g_ob[o]->get_type() == &t) {
        for (int k = 1; k <= g_nt; ++k) if (TC[k].matches && (g_ob[o]->is_of(TC[k]) != t.is_of(TC[k]) || ofTyped(*g_ob[o], k) != t.is_of(TC[k]))) bad("object is not of the classes of its type");
        for (int n = 0; n < g_nn; ++n) {
            int a, b;
            try { a = t.is_of(lookupName(n)); } catch (std::exception&) { a = -1; }
            try { b = g_ob[o]->is_of(lookupName(n)); } catch (std::exception&) { b = -1; }
            if (a != b) bad("object is not of the named classes of its type");
        }
        for (int f = 1; f <= g_nf; ++f) if (nearF(f) && dnmx_object_implements_strong(g_ob[o]->to_c_hanlde(), F[f]) != t.implements_strong(*F[f])) bad("object does not implement what its type does");
        for (int n = 0; n < g_nn; ++n) if (dnmx_object_implements_strong_by_name(g_ob[o]->to_c_hanlde(), dnmx_sv::from_std(lookupName(n))) != t.implements_strong(lookupName(n))) bad("object does not implement what its type does");
    }
}

// ---------------------------------------------------------------------- operations
struct Result { string r = "ok"; bool hasX = false; JOut x; };

template <typename Fn> static void guarded(Result& res, Fn fn) {
    try { fn(); }
    catch (dmx::domain_error&) { res.r = "domain"; }
    catch (dmx::type_error&) { res.r = "type"; }
    catch (dmx::object_error&) { res.r = "object"; }
    catch (dmx::feature_error&) { res.r = "feature"; }
    catch (user_exc&) { res.r = "user"; }
    catch (std::bad_alloc&) { res.r = "alloc"; }
    catch (std::exception& e) { res.r = string("other:") + e.what(); }
    catch (...) { res.r = "unknown"; }
}

// a mutation operation chosen at run time
struct IOp {
    virtual ~IOp() = default;
    virtual void apply(dmx::type_mutation&) = 0;
    virtual dmx::object_mutate_op* to(dmx::object&) = 0;
};
template <typename Op> struct Holder final : IOp {
    Op op;
    template <typename Fn> explicit Holder(Fn f) : op(f()) {}
    void apply(dmx::type_mutation& m) override {
        if constexpr (has_apply<Op>(0)) op.apply_to_type_mutation(m); else (void)m;
    }
    dmx::object_mutate_op* to(dmx::object& o) override { return op.to_obj_mutate(o); }
    template <typename O> static constexpr auto has_apply(int) -> decltype(std::declval<O&>().apply_to_type_mutation(std::declval<dmx::type_mutation&>()), true) { return true; }
    template <typename O> static constexpr bool has_apply(long) { return false; }
};
template <typename Fn> std::unique_ptr<IOp> hold(Fn f) { return std::make_unique<Holder<decltype(f())>>(f); }
struct RtOp {
    std::unique_ptr<IOp> i;
    void apply_to_type_mutation(dmx::type_mutation& m) { i->apply(m); }
    dmx::object_mutate_op* to_obj_mutate(dmx::object& o) { return i->to(o); }
};
static const dmx::object* g_target; // the object being mutated
static void checkArgs(const dmx::init_new_args& a) {
    if (a.target_index >= a.target_type.num_mixins() || a.target_type.mixins[a.target_index] != &a.info) bad("arguments of a mixin function do not describe it");
    if (a.info.alignment && reinterpret_cast<uintptr_t>(a.mixin_buf) % a.info.alignment) bad("misaligned buffer in the arguments");
    if (dmx::object_of(a.mixin_buf) != g_target) bad("the buffer in the arguments is not of the object");
}
static int clip(int m, int v) { return M[m].size ? v : 0; }
struct InitFn {
    int v;
    void operator()(dmx::init_new_args a) const {
        checkArgs(a);
        if (v == -1) throw user_exc("init fn");
        int m = mixIx(&a.info);
        born(m, a.mixin_buf, clip(m, v), true);
        ev("fi", m, a.target_index, clip(m, v));
    }
};
struct UpdateFn {
    int v;
    void operator()(dmx::update_common_args a) const {
        checkArgs(a);
        if (a.source_index >= a.source_type.num_mixins() || a.source_type.mixins[a.source_index] != &a.info) bad("source in the arguments of an update");
        if (&a.source_type != &g_target->get_type()) bad("source type in the arguments of an update");
        int m = mixIx(&a.info);
        needLive(m, a.mixin_buf, "updated");
        if (a.mixin_buf != g_target->get(a.info)) bad("update does not get the mixin of the object");
        if (v == -1) throw user_exc("update fn");
        if (v == -2) return;
        fill(m, a.mixin_buf, clip(m, v));
        ev("fu", m, a.target_index, a.source_index, clip(m, v));
    }
};
template <int I> std::unique_ptr<IOp> holdArgs(bool add, int v) {
    if (add) return hold([&] { return dmx::mutate_ops::add<CM<I>>(v + 0); });
    return hold([&] { return dmx::mutate_to_ops::construct<CM<I>>(v + 0); });
}
// what a user of the library may add: an operation of her own
struct OwnOp final : public dmx::common_mixin_init<CM0> {
    int v; bool over;
    OwnOp(int v, bool over) : v(v), over(over) {}
    bool overrides_init() const noexcept override { return over; }
    void do_init(dmx::init_new_args a) override {
        if (!over) bad("an operation which does not initialize was asked to");
        InitFn{v}(a);
    }
};
struct OwnInit final : public dmx::common_mixin_init<CM0> {
    int v;
    explicit OwnInit(int v) : v(v) {}
    void do_init(dmx::init_new_args a) override { InitFn{v}(a); }
};
static RtOp rtOp(const J& s, size_t no) {
    auto& k = s["k"].s;
    int m = s["m"].num(), n = s["n"].num(), iv = s["iv"].num();
    const bool ty = (no + m) % 2; // the typed form where there is nothing to construct with
    g_curM = m;
    bool tp = s["tp"].b();
    if (k == "add" || k == "con") {
        bool add = k == "add";
        if (tp && iv != -9) switch (m) {
        case 1: return {holdArgs<1>(add, iv)};
        case 2: return {holdArgs<2>(add, iv)};
        case 3: return {holdArgs<3>(add, iv)};
        case 4: return {holdArgs<4>(add, iv)};
        case 5: return {holdArgs<5>(add, iv)};
        case 6: return {holdArgs<6>(add, iv)};
        case 7: return {holdArgs<7>(add, iv)};
        default: return {holdArgs<8>(add, iv)};
        }
        if (n < 0 && (no + m + iv) % 3 == 1 && (add || iv != -9)) {
            if (iv != -9 && iv % 2) return {hold([&] { return OwnInit(iv); })};
            return {hold([&] { return OwnOp(iv, iv != -9); })};
        }
        if (iv == -9) {
            if (n >= 0) return {hold([&] { return dmx::mutate_ops::add(lookupName(n)); })};
            if (ty) return {hold([&] { return dmx::mutate_ops::add<CM0>(); })};
            return {hold([&] { return dmx::mutate_ops::add(M[m]); })};
        }
        if (add) {
            if (n >= 0) return {hold([&] { return dmx::mutate_ops::add(lookupName(n), InitFn{iv}); })};
            return {hold([&] { return dmx::mutate_ops::add(M[m], InitFn{iv}); })};
        }
        if (n >= 0) return {hold([&] { return dmx::mutate_to_ops::construct(lookupName(n), InitFn{iv}); })};
        return {hold([&] { return dmx::mutate_to_ops::construct(M[m], InitFn{iv}); })};
    }
    if (k == "rem") {
        if (n >= 0) return {hold([&] { return dmx::mutate_ops::remove(lookupName(n)); })};
        if (ty) return {hold([&] { return dmx::mutate_ops::remove<CM0>(); })};
        return {hold([&] { return dmx::mutate_ops::remove(M[m]); })};
    }
    if (n >= 0) return {hold([&] { return dmx::mutate_ops::to_back(lookupName(n)); })};
    if (ty) return {hold([&] { return dmx::mutate_ops::to_back<CM0>(); })};
    return {hold([&] { return dmx::mutate_ops::to_back(M[m]); })};
}

// operations are kept, so that they are used again for other objects
static std::map<string, vector<RtOp>> g_ops;
static vector<RtOp>& rtOps(const string& kind, const J& ops) {
    string key = kind;
    for (auto& s : ops.a) key += ";" + s["k"].s + "," + std::to_string(s["m"].num()) + "," + std::to_string(s["n"].num()) + "," + std::to_string(s["iv"].num()) + "," + std::to_string(s["tp"].num());
    auto f = g_ops.find(key);
    if (f != g_ops.end()) return f->second;
    auto& v = g_ops[key];
    for (auto& s : ops.a) v.push_back(rtOp(s, v.size()));
    return v;
}

struct CUser { int iv, uv; };
static dnmx_error_return_t cInit(dnmx_mutate_func_args a) {
    auto u = reinterpret_cast<CUser*>(a.user_data);
    checkArgs({*a.info, static_cast<dmx::byte_t*>(a.mixin_buf), *dmx::type::from_c_handle(a.target_type), a.target_index});
    if (u->iv == -3) return -5;
    int m = mixIx(a.info);
    born(m, a.mixin_buf, clip(m, u->iv), true);
    ev("fi", m, a.target_index, clip(m, u->iv));
    return 0;
}
static dnmx_error_return_t cUpdate(dnmx_mutate_func_args a) {
    auto u = reinterpret_cast<CUser*>(a.user_data);
    checkArgs({*a.info, static_cast<dmx::byte_t*>(a.mixin_buf), *dmx::type::from_c_handle(a.target_type), a.target_index});
    if (a.source_type != &g_target->get_type() || g_target->get_type().mixins[a.source_index] != a.info) bad("source in the arguments of an update");
    if (u->uv == -3) return -5;
    if (u->uv == -2) return 0;
    int m = mixIx(a.info);
    needLive(m, a.mixin_buf, "updated");
    fill(m, a.mixin_buf, clip(m, u->uv));
    ev("fu", m, a.target_index, a.source_index, clip(m, u->uv));
    return 0;
}

struct Unwinder { // performs something during stack unwinding
    std::function<void()> f;
    ~Unwinder() { f(); }
};
template <typename Fn> static void maybeUnwinding(bool unw, Fn fn) {
    if (!unw) { fn(); return; }
    std::exception_ptr ep;
    try {
        Unwinder u{[&] { try { fn(); } catch (...) { ep = std::current_exception(); } }};
        throw 1;
    }
    catch (int) {}
    if (ep) std::rethrow_exception(ep);
}

static void doTm(const J& op, Result& res, bool c) {
    int d = op["d"].num();
    auto& base = *typeAt(d, op["t"].num());
    JOut xs;
    xs.open('[');
    vector<int> ms;
    const dmx::type* got = nullptr;
    auto tail = [&](const vector<const mixin_info*>& v) { for (auto m : v) ms.push_back(mixIx(m)); };
    // performs something with the allocator of the domain failing first
    const bool rt = op.has("rt");
    auto retry = [&](auto failed, auto fn) {
        if (!rt) { fn(); return; }
        g_retryRes = g_armedRes = 9 + d; g_failAt = 0; g_armed = true;
        bool thrown = false;
        try { fn(); }
        catch (std::bad_alloc&) { thrown = true; }
        catch (...) { g_armed = false; g_retryRes = -1; throw; }
        g_armed = false; g_retryRes = -1;
        if (g_failAt >= 0) return; // nothing failed
        if (!thrown && !failed()) return; // survived
        fn();
    };
    if (!c) {
        std::optional<dmx::type_mutation> mut;
        retry([] { return false; }, [&] { if (op["t"].num() == 0 && op["alt"].b()) mut.emplace(D(d)); else mut.emplace(base); });
        if (&mut->dom != &D(d)) bad("domain of a type mutation");
        int stepNo = 0;
        for (auto& s : op["ops"].a) {
            auto& k = s["k"].s;
            int m = s["m"].num(), n = s["n"].num(), x = 0;
            auto N = n >= 0 ? lookupName(n) : std::string_view{};
            bool bn = n >= 0;
            const vector<const mixin_info*> was(mut->mixins.begin(), mut->mixins.end());
            bool again = false;
            const bool ty = ((++stepNo) + m) % 2; // the typed form
            g_curM = m;
            try { retry([] { return false; }, [&] {
                if (again && !std::equal(was.begin(), was.end(), mut->mixins.begin(), mut->mixins.end())) bad("an edit failed but changed the list");
                again = true;
                if (k == "add") { if (bn) x = mixIx(&mut->add(N)); else if (ty) x = &mut->add<CM0>() == M + m; else { mut->add(M[m]); x = 1; } }
                else if (k == "sadd") { if (bn) x = mixIx(mut->safe_add(N)); else { mut->add(M[m]); x = 1; } }
                else if (k == "addl") { if (bn) x = mixIx(mut->add_if_lacking(N)); else if (ty) x = mut->add_if_lacking<CM0>(); else x = mut->add_if_lacking(M[m]); }
                else if (k == "saddl") { if (bn) x = mixIx(mut->safe_add_if_lacking(N)); else x = mut->add_if_lacking(M[m]); }
                else if (k == "rem") { if (bn) x = mixIx(mut->remove(N)); else if (ty) x = mut->remove<CM0>(); else x = mut->remove(M[m]); }
                else if (k == "back") { if (bn) x = mixIx(&mut->to_back(N)); else if (ty) { mut->to_back<CM0>(); x = 1; } else { mut->to_back(M[m]); x = 1; } }
                else if (k == "dedup") { mut->dedup(); x = 1; }
                else if (k == "has") {
                    if (bn) x = mixIx(mut->has(N)); else x = mut->has(M[m]);
                    if ((bn ? mut->lacks(N) : mut->lacks(M[m])) == !!x) bad("has and lacks");
                    if (!bn && (mut->has<CM0>() != !!x || mut->lacks<CM0>() == !!x)) bad("has and lacks of a mixin type");
                }
                else if (k == "impl") x = ty ? typedImpl(*mut, m) : mut->implements(*F[m]);
                else if (k == "imps") x = ty ? typedStrong(*mut, m) : mut->implements_strong(*F[m]);
                else if (k == "impn") x = featIx(mut->implements_strong(N));
            }); }
            catch (dmx::type_error&) { x = -1; }
            xs.n(x);
        }
        tail({mut->mixins.begin(), mut->mixins.end()});
        if (op["fin"].b()) guarded(res, [&] { got = &D(d).get_type(std::move(*mut)); });
    }
    else {
        dnmx_type_mutation_handle h = nullptr;
        retry([&] { return !h; }, [&] { h = op["t"].num() == 0 && op["alt"].b() ? dnmx_create_type_mutation_empty(DH(d)) : dnmx_create_type_mutation_from_type(&base); });
        auto list = [&] {
            dnmx_mixin_index_t num = 0;
            auto p = dnmx_type_mutation_get_mixins(h, &num);
            return vector<const mixin_info*>(p, p + num);
        };
        if (dnmx_type_mutation_get_domain(h) != DH(d)) bad("domain of a type mutation");
        for (auto& s : op["ops"].a) {
            auto& k = s["k"].s;
            int m = s["m"].num(), n = s["n"].num(), x = 0;
            auto N = n >= 0 ? dnmx_sv::from_std(lookupName(n)) : dnmx_sv{};
            bool bn = n >= 0;
            const auto was = list();
            bool again = false;
            retry([&] { return !x; }, [&] {
            if (again && list() != was) bad("an edit failed but changed the list");
            again = true;
            if (k == "add") x = dnmx_type_mutation_add(h, M + m);
            else if (k == "addl") x = dnmx_type_mutation_add_if_lacking(h, M + m);
            else if (k == "rem") x = bn ? mixIx(dnmx_type_mutation_remove_by_name(h, N)) : dnmx_type_mutation_remove(h, M + m);
            else if (k == "back") x = bn ? mixIx(dnmx_type_mutation_to_back_by_name(h, N)) : dnmx_type_mutation_to_back(h, M + m);
            else if (k == "dedup") { dnmx_type_mutation_dedup(h); x = 1; }
            else if (k == "has") x = bn ? mixIx(dnmx_type_mutation_has_by_name(h, N)) : dnmx_type_mutation_has(h, M + m);
            else if (k == "impl") x = dnmx_type_mutation_implements(h, F[m]);
            else if (k == "imps") x = dnmx_type_mutation_implements_strong(h, F[m]);
            else if (k == "impn") x = featIx(dnmx_type_mutation_implements_strong_by_name(h, N));
            else if (bn) x = 0;
            });
            xs.n(x);
        }
        dnmx_mixin_index_t num = 0;
        auto p = dnmx_type_mutation_get_mixins(h, &num);
        tail({p, p + num});
        if (op["fin"].b()) {
            got = dmx::type::from_c_handle(dnmx_get_type(DH(d), &h));
            if (h) bad("type mutation was not consumed");
            if (!got) res.r = "err";
        }
        else {
            vector<const mixin_info*> cp(p, p + num);
            std::reverse(cp.begin(), cp.end());
            if (rt) { // a longer list may need memory; what fails changes nothing
                const auto was = list();
                vector<const mixin_info*> more;
                for (int i = 0; i < 40; ++i) more.push_back(M + 1 + i % g_nm);
                g_retryRes = g_armedRes = 9 + d; g_failAt = 0; g_armed = true;
                bool ok = dnmx_type_mutation_set_mixins(h, more.data(), dmx::mixin_index_t(more.size()));
                g_armed = false; g_retryRes = -1;
                if (ok ? list() != more : list() != was) bad("set_mixins without memory");
                if (ok && g_failAt < 0) bad("set_mixins reports success without memory");
            }
            if (!dnmx_type_mutation_set_mixins(h, cp.data(), num)) bad("set_mixins");
            p = dnmx_type_mutation_get_mixins(h, &num);
            if (vector<const mixin_info*>(p, p + num) != cp) bad("set_mixins did not set the mixins");
            dnmx_destroy_unused_type_mutation(h);
        }
    }
    xs.close(']');
    scanTypes();
    res.hasX = true;
    res.x.open('{').key("xs");
    res.x.s += xs.s; res.x.first = false;
    res.x.key("ms").arr(ms).key("t");
    if (got) res.x.n(tokOf(d, *got)); else res.x.open('[').close(']');
    res.x.close('}');
}

static void doOp(const J& op, Result& res) {
    auto& o = op["o"].s;
    bool c = op["via"].s == "c";
    auto cres = [&](dnmx_error_return_t e) { if (e) { res.r = "err"; if (e > 0) bad("error value is not negative"); } };
    auto X = [&](long long v) { res.hasX = true; res.x.n(v); };
    auto I = [&](const char* k) { return op[k].num(); };

    if (o == "regF") {
        if (c) cres(dnmx_register_feature(DH(I("d")), F[I("f")]));
        else guarded(res, [&] { D(I("d")).register_feature(*F[I("f")]); });
    }
    else if (o == "unregF") {
        if (c) dnmx_unregister_feature(DH(I("d")), F[I("f")]);
        else guarded(res, [&] { D(I("d")).unregister_feature(*F[I("f")]); });
    }
    else if (o == "regM") {
        if (c) cres(dnmx_register_mixin(DH(I("d")), &M[I("m")]));
        else guarded(res, [&] { D(I("d")).register_mixin(M[I("m")]); });
    }
    else if (o == "unregM") {
        const bool was = M[I("m")].registered() && M[I("m")].dom == DH(I("d"));
        if (c) dnmx_unregister_mixin(DH(I("d")), &M[I("m")]);
        else guarded(res, [&] { D(I("d")).unregister_mixin(M[I("m")]); });
        if (was && res.r == "ok") // the info may be gone after this
            dmx::domain_traverse(D(I("d"))).traverse_type_queries([&](itlib::span<const mixin_info* const> q, const dmx::type& t) {
                for (auto m : q) if (m == M + I("m")) bad("a remembered request refers to a mixin which was unregistered");
                for (auto m : t.mixins) if (m == M + I("m")) bad("a remembered answer refers to a mixin which was unregistered");
            });
    }
    else if (o == "regT") {
        if (c) cres(dnmx_register_type_class(DH(I("d")), &TC[I("t")]));
        else guarded(res, [&] { D(I("d")).register_type_class(TC[I("t")]); });
    }
    else if (o == "unregT") {
        if (c) dnmx_unregister_type_class(DH(I("d")), &TC[I("t")]);
        else guarded(res, [&] { D(I("d")).unregister_type_class(TC[I("t")]); });
    }
    else if (o == "addR") {
        if (c) cres(dnmx_add_mutation_rule(DH(I("d")), &RI[I("r")]));
        else guarded(res, [&] { D(I("d")).add_mutation_rule(RI[I("r")]); });
    }
    else if (o == "remR") {
        if (c) dnmx_remove_mutation_rule(DH(I("d")), &RI[I("r")]);
        else guarded(res, [&] { D(I("d")).remove_mutation_rule(RI[I("r")]); });
    }
    else if (o == "gc") {
        if (c) dnmx_garbage_collect_types(DH(I("d")));
        else guarded(res, [&] { D(I("d")).garbage_collect_types(); });
    }
    else if (o == "getT") {
        vector<const mixin_info*> ms;
        for (auto& m : op["ms"].a) ms.push_back(M + m.num());
        auto& dom = D(I("d"));
        const dmx::type* t = nullptr;
        if (op["kind"].s == "i") {
            if (c) t = dmx::type::from_c_handle(dnmx_get_type_from_infos(DH(I("d")), ms.data(), uint32_t(ms.size())));
            else guarded(res, [&] { t = &dom.get_type(itlib::span<const mixin_info* const>(ms.data(), ms.size())); });
        }
        else {
            if (c) {
                auto h = dnmx_create_type_mutation_empty(DH(I("md")));
                for (auto m : ms) if (!dnmx_type_mutation_add(h, m)) { if (!g_armed || g_failAt >= 0 || !dnmx_type_mutation_add(h, m)) bad("adding to a type mutation fails"); }
                t = dmx::type::from_c_handle(dnmx_get_type(DH(I("d")), &h));
                if (h) bad("type mutation was not consumed");
            }
            else guarded(res, [&] {
                dmx::type_mutation mut(D(I("md")));
                for (auto m : ms) mut.add(*m);
                t = &dom.get_type(std::move(mut));
            });
        }
        if (c && !t) res.r = "err";
        scanTypes();
        if (t) X(tokOf(I("d"), *t));
    }
    else if (o == "tinfo") {
        auto t = typeAt(I("d"), I("t"));
        res.hasX = true;
        if (t) typeInfo(res.x, I("d"), *t); else res.x.n(-1);
    }
    else if (o == "dump") {
        std::ostringstream out;
        const auto fl = uint32_t(op["fl"].num());
        const int k = I("k");
        auto& what = op["what"].s;
        // flags 0: the default ones (everything there is to say about what is not a domain)
        if (what == "dom") { if (fl) dmx::util::dbg_dmp(out, D(I("d")), fl); else dmx::util::dbg_dmp(out, D(I("d"))); }
        else if (what == "type") { if (auto t = typeAt(I("d"), I("t"))) { if (fl) dmx::util::dbg_dmp(out, *t, fl); else dmx::util::dbg_dmp(out, *t); } }
        else if (what == "mix") { if (fl) dmx::util::dbg_dmp(out, M[k], fl); else dmx::util::dbg_dmp(out, M[k]); }
        else if (what == "feat") { if (fl) dmx::util::dbg_dmp(out, *F[k], fl); else dmx::util::dbg_dmp(out, *F[k]); }
        else if (what == "rule") { if (fl) dmx::util::dbg_dmp(out, RI[k], fl); else dmx::util::dbg_dmp(out, RI[k]); }
        else { if (fl) dmx::util::dbg_dmp(out, TC[k], fl); else dmx::util::dbg_dmp(out, TC[k]); }
        if (!out) bad("the dump fails");
        res.hasX = true;
        res.x.str(out.str());
    }
    else if (o == "tcmp") {
        vector<const dmx::type*> all;
        for (int d = 1; d <= g_nd; ++d) {
            all.push_back(&D(d).get_empty_type());
            vector<std::pair<int, const dmx::type*>> v;
            for (auto& p : g_ty[d - 1]) v.push_back({p.second, p.first});
            std::sort(v.begin(), v.end());
            for (auto& p : v) all.push_back(p.second);
        }
        res.hasX = true;
        res.x.open('[');
        for (auto a : all) {
            res.x.open('[');
            for (auto b : all) {
                int r = a->compare(*b);
                res.x.n(r < 0 ? -1 : r > 0);
                if ((*a == *b) != (r == 0) || (*a != *b) == (r == 0)) bad("comparison and equality of types disagree");
            }
            res.x.close(']');
        }
        res.x.close(']');
    }
    else if (o == "tm") doTm(op, res, c);
    else {
        int ob = I("ob");
        auto obj = [&]() -> dmx::object& { return *g_ob[ob]; };
        auto src = [&]() -> dmx::object& { return *g_ob[I("src")]; };
        auto& ft = op["ft"];
        g_target = g_ob[ob];
        g_fault = {ft["k"].s, ft["m"].num(), ft["h"].s == "thr", false};
        g_fault.on = !g_fault.k.empty() && g_fault.k != "al";
        bool alFault = g_fault.k == "al";
        auto arm = [&](int res) { if (alFault) { g_armedRes = res; g_failAt = ft["m"].num(); g_armed = true; } };
        auto sgn = [](int x) { return x < 0 ? -1 : x > 0; };
        if (o == "newE") {
            if (c) g_ob[ob] = dmx::object::from_c_handle(dnmx_create_object_empty(DH(I("d"))));
            else guarded(res, [&] { g_ob[ob] = new dmx::object(D(I("d")), objAlloc(I("al"))); });
        }
        else if (o == "newT") {
            auto t = typeAt(I("d"), I("t"));
            arm(I("al"));
            if (c) { g_ob[ob] = dmx::object::from_c_handle(dnmx_create_object_default(t)); if (!g_ob[ob]) res.r = "err"; }
            else guarded(res, [&] {
                if (I("al") == 0 && !op["seal"].b()) g_ob[ob] = new dmx::object(*t);
                else g_ob[ob] = new dmx::object(*t, objAlloc(I("al")), op["seal"].b());
            });
        }
        else if (o == "del") {
            auto p = g_ob[ob];
            if (c) dnmx_destroy_object(p->to_c_hanlde()); else guarded(res, [&] { delete p; });
            g_ob[ob] = nullptr;
        }
        else if (o == "clear") {
            if (c) X(dnmx_object_clear(obj().to_c_hanlde()));
            else guarded(res, [&] { obj().clear(); });
        }
        else if (o == "seal") { if (c) dnmx_object_seal(obj().to_c_hanlde()); else obj().seal(); }
        else if (o == "mv") {
            if (c) g_ob[ob] = dmx::object::from_c_handle(dnmx_create_object_usurp(src().to_c_hanlde()));
            else guarded(res, [&] { g_ob[ob] = new dmx::object(std::move(src())); });
        }
        else if (o == "massign") guarded(res, [&] { auto& r = obj() = std::move(src()); if (&r != &obj()) bad("move assignment returns something else"); });
        else if (o == "copy") {
            arm(I("al"));
            if (c) { g_ob[ob] = dmx::object::from_c_handle(dnmx_create_object_copy(src().to_c_hanlde())); if (!g_ob[ob]) res.r = "err"; }
            else guarded(res, [&] { g_ob[ob] = new dmx::object(src().copy(objAlloc(I("al")))); });
        }
        else if (o == "copyFrom") {
            arm(resOf(obj().get_allocator()));
            if (c) cres(dnmx_object_copy_from(obj().to_c_hanlde(), src().to_c_hanlde()));
            else guarded(res, [&] { obj().copy_from(src()); });
        }
        else if (o == "copyMatch") guarded(res, [&] { obj().copy_matching_from(src()); });
        else if (o == "moveMatch") guarded(res, [&] { if (op["fb"].b()) obj().move_matching_from(src(), true); else obj().move_matching_from(src()); });
        else if (o == "equals") {
            bool a = obj().equals(src());
            if (a != dnmx_object_equals(obj().to_c_hanlde(), src().to_c_hanlde())) bad("C and C++ equality differ");
            X(a);
        }
        else if (o == "compare") {
            if (c) {
                auto r = dnmx_object_compare(obj().to_c_hanlde(), src().to_c_hanlde());
                if (r.error) res.r = "err"; else X(sgn(r.result));
            }
            else guarded(res, [&] { X(sgn(obj().compare(src()))); });
        }
        else if (o == "reset") {
            auto t = typeAt(I("d"), I("t"));
            arm(resOf(obj().get_allocator()));
            if (c) cres(dnmx_object_reset_type(obj().to_c_hanlde(), t == &obj().get_domain().get_empty_type() ? nullptr : dnmx_type_handle(t)));
            else guarded(res, [&] {
                if (t == &obj().get_domain().get_empty_type() && ob % 2) obj().reset_type(); else obj().reset_type(*t);
            });
        }
        else if (o == "set") {
            auto& t = obj().get_type();
            int m = mixIx(t.mixins[I("i")]);
            fill(m, obj().get_at(I("i")), clip(m, I("v")));
        }
        else if (o == "mutate") {
            arm(resOf(obj().get_allocator()));
            auto& ops = op["ops"];
            if (!c) {
                auto& v = rtOps("mutate", ops);
                guarded(res, [&] {
                    maybeUnwinding(op["unw"].b(), [&] {
                        switch (v.size()) {
                        case 1: dmx::mutate(obj(), v[0]); break;
                        case 2: dmx::mutate(obj(), v[0], v[1]); break;
                        case 3: dmx::mutate(obj(), v[0], v[1], v[2]); break;
                        case 4: dmx::mutate(obj(), v[0], v[1], v[2], v[3]); break;
                        default: dmx::mutate(obj(), v[0], v[1], v[2], v[3], v[4]); break;
                        }
                    });
                });
            }
            else {
                std::deque<CUser> us;
                vector<dnmx_mutate_op> cops;
                for (auto& s : ops.a) {
                    us.push_back({s["iv"].num(), -2});
                    auto& k = s["k"].s;
                    dnmx_mutate_op x{};
                    x.op_type = k == "add" ? dnmx_mutate_op_add : k == "rem" ? dnmx_mutate_op_remove : k == "back" ? dnmx_mutate_op_to_back : s["m"].num() % 2 ? 3 : -1;
                    if (s["n"].num() >= 0) x.mixin_name = dnmx_sv::from_std(lookupName(s["n"].num()));
                    else x.mixin = M + s["m"].num();
                    x.init_override = s["iv"].num() == -9 ? nullptr : cInit;
                    x.user_data = reinterpret_cast<uintptr_t>(&us.back());
                    cops.push_back(x);
                }
                cres(dnmx_mutate(obj().to_c_hanlde(), cops.data(), uint32_t(cops.size())));
            }
        }
        else if (o == "mutateTo") {
            auto& t = *typeAt(I("d"), I("t"));
            arm(resOf(obj().get_allocator()));
            auto& ops = op["ops"];
            if (!c) {
                auto& v = rtOps("to", ops);
                guarded(res, [&] {
                    maybeUnwinding(op["unw"].b(), [&] {
                        switch (v.size()) {
                        case 0: dmx::mutate_to(obj(), t); break;
                        case 1: dmx::mutate_to(obj(), t, v[0]); break;
                        case 2: dmx::mutate_to(obj(), t, v[0], v[1]); break;
                        case 3: dmx::mutate_to(obj(), t, v[0], v[1], v[2]); break;
                        case 4: dmx::mutate_to(obj(), t, v[0], v[1], v[2], v[3]); break;
                        default: dmx::mutate_to(obj(), t, v[0], v[1], v[2], v[3], v[4]); break;
                        }
                    });
                });
            }
            else {
                std::deque<CUser> us;
                vector<dnmx_mutate_to_override> cops;
                for (auto& s : ops.a) {
                    us.push_back({s["iv"].num(), s["uv"].num()});
                    dnmx_mutate_to_override x{};
                    if (s["n"].num() >= 0) x.mixin_name = dnmx_sv::from_std(lookupName(s["n"].num()));
                    else x.mixin = M + s["m"].num();
                    x.init_new = s["iv"].num() == -9 ? nullptr : cInit;
                    x.update_common = s["uv"].num() == -9 ? nullptr : cUpdate;
                    x.user_data = reinterpret_cast<uintptr_t>(&us.back());
                    cops.push_back(x);
                }
                cres(dnmx_mutate_to(obj().to_c_hanlde(), &t, cops.data(), uint32_t(cops.size())));
            }
        }
        else if (o == "gradual") {
            arm(resOf(obj().get_allocator()));
            auto& end = op["end"].s;
            std::exception_ptr caught; // what was caught where the deferred mutation lives on
            guarded(res, [&] {
                maybeUnwinding(op["unw"].b(), [&] {
                    auto g = dmx::mutate(obj());
                    int stepNo = 0;
                    for (auto& s : op["ops"].a) {
                        auto& k = s["k"].s;
                        int m = s["m"].num(), n = s["n"].num();
                        const bool ty = ((++stepNo) + m) % 2; // the typed form
                        g_curM = m;
                        dmx::gradual_mutation* r;
                        if (k == "add") { if (n >= 0) r = &g.add(lookupName(n)); else if (ty) r = &g.add<CM0>(); else r = &g.add(M[m]); }
                        else if (k == "addl") { if (n >= 0) r = &g.add_if_lacking(lookupName(n)); else if (ty) r = &g.add_if_lacking<CM0>(); else r = &g.add_if_lacking(M[m]); }
                        else if (k == "rem") { if (n >= 0) r = &g.remove(lookupName(n)); else if (ty) r = &g.remove<CM0>(); else r = &g.remove(M[m]); }
                        else { if (n >= 0) r = &g.to_back(lookupName(n)); else if (ty) r = &g.to_back<CM0>(); else r = &g.to_back(M[m]); }
                        if (r != &g) bad("a step of a gradual mutation returns something else");
                    }
                    if (end == "apply" && (op["ops"].size() + ob) % 2) {
                        try { g.apply(); }
                        catch (...) { caught = std::current_exception(); }
                    }
                    else if (end == "apply" || end == "applythrow") g.apply();
                    if (end == "cancel") g.cancel();
                    if (end == "throw" || end == "applythrow") throw user_exc("scope");
                });
                if (caught) std::rethrow_exception(caught);
            });
        }
        else if (o == "piece") {
            auto& t = *typeAt(I("d"), I("t"));
            arm(resOf(obj().get_allocator()));
            vector<int> completes;
            guarded(res, [&] {
                maybeUnwinding(op["unw"].b(), [&] {
                    dmx::object_mutation mut(obj(), t);
                    for (auto& s : op["ss"].a) {
                        auto& k = s["k"].s;
                        InitFn in{s["nv"].num()};
                        UpdateFn up{s["uv"].num()};
                        auto i = dmx::mixin_index_t(s["i"].num());
                        if (k == "at") mut.update_at(i, in, up);
                        else if (k == "next") mut.update_next_mixin(in, up);
                        else if (k == "each") mut.update_each_mixin(in, up, i);
                        else if (k == "def") mut.default_construct_each_new_mixin(i);
                        else if (k == "thr") throw user_exc("scope");
                        else if (k == "fin") mut.finalize();
                        else if (k == "rb") mut.rollback();
                        completes.push_back(mut.complete());
                    }
                });
            });
            if (res.r == "ok" && !completes.empty()) { res.hasX = true; res.x.arr(completes); }
        }
        else if (o == "call") {
            g_call = &op;
            g_callOb = &obj();
            int arg = I("arg");
            std::optional<Comb> cb;
            if (I("cb") > 0) cb.emplace(Comb{I("cb"), {}});
            auto pc = cb ? &*cb : nullptr;
            int x = 0;
            guarded(res, [&] {
                switch (I("f")) {
                case 1: x = callMsg<1, dmx::object>(obj(), arg, pc); break;
                case 2: x = callMsg<2, dmx::object>(obj(), arg, pc); break;
                case 3: x = callMsg<3, const dmx::object>(obj(), arg, pc); break;
                case 4: x = callMsg<4, const dmx::object>(obj(), arg, pc); break;
                case 5: x = callMsg<5, dmx::object>(obj(), arg, pc); break;
                case 6: x = callMsg<6, dmx::object>(obj(), arg, pc); break;
                }
            });
            if (res.r == "ok") { if (pc) { res.hasX = true; res.x.arr(pc->got); } else X(x); }
        }
        else { fprintf(stderr, "driver: unknown operation %s\n", o.c_str()); exit(3); }
        g_armed = false;
        g_fault.on = false;
        // who did the mixins think they belonged to?
        bool made = o == "newT" || o == "copy";
        if (!(made && res.r != "ok")) for (auto& cl : g_claims) {
            bool okc = cl.o == g_ob[ob] || cl.o == g_target || (o == "moveMatch" && cl.o == g_ob[I("src")]);
            if (o == "copy") okc = true; // may be made elsewhere and moved
            if (!okc) bad("a mixin took another object for its own during the operation");
        }
    }
}

// performs an operation again and again, each time with a later allocation of the domain failing, until it comes to its end.
// What fails for lack of memory is refused as such and leaves everything as it was
// (types may have come into being; features of a mixin which was not registered may have been registered)
static void doOpRetry(const J& op, Result& out) {
    auto& o = op["o"].s;
    const bool c = op["via"].s == "c";
    const bool onObject = op.has("ob");
    const bool list = o == "tm";
    if (!op.has("rt") || list) { doOp(op, out); return; }
    int d = onObject ? domOf(&g_ob[op["ob"].num()]->get_domain()) : op["d"].num();
    auto seen = [&] {
        JOut j;
        if (onObject || o == "getT" || o == "regM") {
            vector<PerOb> per(g_ob.size());
            std::set<const void*> places;
            scanTypes();
            for (size_t i = 1; i < g_ob.size(); ++i) if (g_ob[i]) scanObject(int(i), per[i], places);
            obsObjects(j, per);
            if (o == "regM") j.n(M[op["m"].num()].registered()).n(!!M[op["m"].num()].dom);
        }
        else observe(j);
        return j.s;
    };
    const string before = seen();
    for (int k = 0; k < 60; ++k) {
        Result res;
        g_ev.clear(); g_claims.clear();
        g_retryRes = 9 + d;
        g_armedRes = 9 + d; g_failAt = k; g_armed = true;
        doOp(op, res);
        g_armed = false; g_retryRes = -1;
        if (g_failAt >= 0 || res.r == "ok") { out = std::move(res); return; }
        if (res.r != (c ? "err" : "alloc")) bad("without memory the operation reports " + res.r);
        if (!g_ev.empty() && !(onObject && resOf(g_ob[op["ob"].num()]->get_allocator()) == 0)) bad("without memory for a type the operation called functions of mixins");
        if (seen() != before) bad("the operation failed for lack of memory but changed something");
        if (!g_bad.empty()) { out = std::move(res); return; }
    }
    bad("the operation never gets enough memory");
}

static string runScript(const J& univs, const J& sc) {
    g_ops.clear();
    g_bad.clear(); g_ev.clear(); g_claims.clear(); g_live.clear(); g_ad.clear();
    g_adNext = 1;
    for (int d = 0; d < MaxD; ++d) { g_ty[d].clear(); g_tyNext[d] = 0; }
    size_t blocks0 = g_blocks.size();
    setupUniverse(univs[sc["u"].num() - 1]);
    g_ob.assign(sc["nob"].num() + 1, nullptr);
    JOut j;
    j.open('[');
    int ix = 0;
    for (auto& op : sc["ops"].a) {
        ++ix;
        if (op.has("skip")) continue;
        g_ev.clear(); g_claims.clear();
        Result res;
        doOpRetry(op, res);
        j.open('{').key("k").n(ix).key("r").str(res.r).key("x");
        if (res.hasX && !res.x.s.empty()) { j.sep(); j.s += res.x.s; } else j.open('[').close(']');
        j.key("e").open('[');
        for (auto& e : g_ev) {
            j.open('[').str(e.k).n(e.a).n(e.b);
            if (e.n > 2) j.n(e.c);
            if (e.n > 3) j.n(e.d);
            j.close(']');
        }
        j.close(']');
        observe(j);
        j.key("bad").open('[');
        for (auto& b : g_bad) j.str(b);
        j.close(']').close('}');
        g_bad.clear();
    }
    // tear down
    for (auto& p : g_ob) { delete p; p = nullptr; }
    for (int d = 1; d <= g_nd; ++d) {
        dmx::domain_traverse tr(D(d));
        tr.traverse_types([&](const dmx::type& t) { if (t.num_objects()) bad("objects are counted after all are gone"); });
    }
    for (int m = 1; m <= g_nm; ++m) if (M[m].registered()) dmx::domain::from_c_handle(M[m].dom)->unregister_mixin(M[m]);
    for (int d = 1; d <= g_nd; ++d) { D(d).~domain(); }
    for (auto& l : g_live) if (M[l.second.m].destroy) { bad("a mixin was never destroyed"); break; }
    if (g_blocks.size() != blocks0) {
        for (auto& b : g_blocks) bad("allocator " + std::to_string(b.second.res) + " did not get back a block");
    }
    while (!g_blocks.empty()) { auto b = *g_blocks.begin(); g_blocks.erase(g_blocks.begin()); ::operator delete(b.first, std::align_val_t(b.second.align)); }
    for (int d = 1; d <= g_nd; ++d) { delete g_domRes[d - 1]; }
    j.open('{').key("k").n(0).key("bad").open('[');
    for (auto& b : g_bad) j.str(b);
    j.close(']').key("lay").open('[');
    for (auto& l : g_newLayouts) { j.sep(); j.s += l; }
    g_newLayouts.clear();
    j.close(']').close('}').close(']');
    return j.s;
}

int main(int argc, char** argv) {
    if (argc < 3) return 3;
#if DYNAMIX_HAS_PMR
    std::pmr::set_default_resource(&g_res[0]);
#endif
    J univs = parseJsonFile(argv[1]);
    std::ifstream f(argv[2]);
    string line;
    // one script per line: [number, script]
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        J s = parseJson(line);
        printf("{\"start\":%d}\n", s[0].num());
        fflush(stdout);
        auto r = runScript(univs, s[1]);
        printf("{\"script\":%d,\"out\":%s}\n", s[0].num(), r.c_str());
        fflush(stdout);
    }
}
