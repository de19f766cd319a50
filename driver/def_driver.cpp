// Observes definitions: builders, traits of types, settings, perks, and definitions in a domain.
// Input: a JSON case per line; output: a line of JSON each. --traits: lists the types and their traits.
#include "json.hpp"
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/exception.hpp>
#include <cstring>
#include <functional>
#include <list>
#include <memory>
#include <optional>
using std::string;
using namespace dynamix;
using namespace dynamix::util;
namespace bl = dynamix::util::builder_literals;

template <typename V, typename F>
string list(const V& v, F f) {
    string r = "[";
    bool first = true;
    for (auto& x : v) { if (!first) r += ","; first = false; r += f(x); }
    return r + "]";
}
static string S(long long x) { return std::to_string(x); }
static string bytes(std::string_view s) { return list(s, [](char c) { return S((unsigned char)c); }); }
static string str(const J& j) { string r; for (auto& b : j.a) r += char(b.num()); return r; }

// ---------------------------------------------------------------- the mixins and features which are defined
template <int K> struct M;
template <> struct M<1> { int32_t x; int f5(int a) { return 5001 + a; } int f6(int a) const { return 6001 + a; } };
template <> struct M<2> { int f5(int a) { return 5002 + a; } int f6(int a) const { return 6002 + a; } };
template <> struct M<3> { alignas(32) char c[33]; int f5(int a) { return 5003 + a; } int f6(int a) const { return 6003 + a; } };
template <> struct M<4> { double d; char c; int f5(int a) { return 5004 + a; } int f6(int a) const { return 6004 + a; } };
template <> struct M<5> { char c[11]; int f5(int a) { return 5005 + a; } int f6(int a) const { return 6005 + a; } };
template <int K> struct NumOf { };
template <typename T> int numberOf();
template <> int numberOf<M<1>>() { return 1; }
template <> int numberOf<M<2>>() { return 2; }
template <> int numberOf<M<3>>() { return 3; }
template <> int numberOf<M<4>>() { return 4; }
template <> int numberOf<M<5>>() { return 5; }
template <> int numberOf<void>() { return 6; }
constexpr int NM = 6;
static mixin_info_data* g_data[NM + 1];
namespace dynamix_case { }
const mixin_info& _dynamix_get_mixin_info(const M<1>*) { return g_data[1]->info; }
const mixin_info& _dynamix_get_mixin_info(const M<2>*) { return g_data[2]->info; }
const mixin_info& _dynamix_get_mixin_info(const M<3>*) { return g_data[3]->info; }
const mixin_info& _dynamix_get_mixin_info(const M<4>*) { return g_data[4]->info; }
const mixin_info& _dynamix_get_mixin_info(const M<5>*) { return g_data[5]->info; }

struct Tag {};
static domain* g_dom;
domain& _dynamix_get_domain(Tag*) { return *g_dom; }

template <int F>
struct Feat {
    struct traits {
        template <typename Mixin>
        static any make_payload_for(const allocator& a, Mixin*) { return make_any(a, 1000 * F + numberOf<Mixin>()); }
        static any make_payload_by(const allocator&, void*, int& pl) { return fwd_any(pl); }
        static any make_payload_by(const allocator& a, void*, const int& pl) { return make_any(a, int(pl)); }
        static any make_payload_with(const allocator& a, void*, int pl) { return make_any(a, std::move(pl)); }
    };
    static common_feature_info& mut() { static common_feature_info i(dnmx_make_sv_lit("feat")); return i; }
    static const common_feature_info& get_info_safe() { return mut(); }
};
DYNAMIX_MAKE_FUNC_TRAITS(f5);
DYNAMIX_MAKE_FUNC_TRAITS(f6);
DYNAMIX_DECLARE_MSG(msg5, f5, int, (object&, int));
DYNAMIX_DECLARE_MSG(msg6, f6, int, (const object&, int));
DYNAMIX_DEFINE_MSG(msg5, unicast, f5, int, (object&, int));
static int defaultOf6(const object&, int a) { return 60 + a; }
DYNAMIX_DEFINE_MSG_EX(msg6, multicast, false, defaultOf6, f6, int, (const object&, int));
constexpr int NF = 6;
static const common_feature_info& featInfo(int f) {
    switch (f) {
    case 1: return Feat<1>::get_info_safe(); case 2: return Feat<2>::get_info_safe(); case 3: return Feat<3>::get_info_safe();
    case 4: return Feat<4>::get_info_safe(); case 5: return msg5::get_info_safe(); default: return msg6::get_info_safe();
    }
}
static int g_cells[8];
static mutation_rule_info g_shared[4];

struct NumAlloc : mixin_allocator {
    int k = -1;
    long magic = 4711;
    byte_t* alloc_mixin_buf(const mixin_info& i) override { return (byte_t*)aligned_alloc(i.obj_buf_alignment_and_mixin_offset, (i.obj_buf_size + 63) / 64 * 64); }
    void dealloc_mixin_buf(byte_t* p, const mixin_info&) noexcept override { free(p); }
    ~NumAlloc() override { magic = 0; }
};
static NumAlloc g_allocs[4];

static error_return_t userRule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto mut = type_mutation::from_c_handle(h);
    if (!ud) return 0; // no user data: does nothing
    auto& x = g_data[ud / 16]->info;
    auto& y = g_data[ud % 16]->info;
    if (mut->has(x)) mut->add_if_lacking(y);
    return 0;
}

// ---------------------------------------------------------------- builder calls
static builder_perks perk(const J& k) {
    int b = k["b"].num(), p = k["p"].num();
    bool lit = k["lit"].b();
    builder_perks r;
    if (k["k"].s == "bid") r = lit ? bl::operator""_bid((unsigned long long)b) : bl::feature_bid(b);
    else if (k["k"].s == "prio") r = lit ? bl::operator""_prio((unsigned long long)p) : bl::order_priority(p);
    else if (k["k"].s == "both") r = bl::feature_bid_priority(b, p);
    return k["neg"].b() ? -r : r;
}
static std::list<string>* g_keep;
template <int F, typename B>
void featCall(B& b, const J& c, builder_perks p0, builder_perks p1) {
    string k = c["c"].s;
    auto& info = featInfo(F);
    int v = c["v"].num(), cell = c["cell"].num();
    if constexpr (F <= 4) {
        if (k == "fpayload") { if (cell) { g_cells[cell] = v; b.implements_with_payload(info, fwd_any(g_cells[cell]), p0, p1); } else b.implements_with_payload(info, make_any(b.get_allocator(), int(v)), p0, p1); return; }
        if (k == "fby") { g_cells[cell] = v; b.implements_by(info, g_cells[cell], p0, p1); return; }
        if (k == "fwith") { b.implements_with(info, int(v), p0, p1); return; }
        if (k == "tby") { g_cells[cell] = v; b.template implements_by<Feat<F>>(g_cells[cell], p0, p1); return; }
        if (k == "tbyc") { const int i = v; b.template implements_by<Feat<F>>(i, p0, p1); return; }
        if (k == "twith") { b.template implements_with<Feat<F>>(int(v), p0, p1); return; }
        if (k == "timpl") { b.template implements<Feat<F>>(p0, p1); return; }
    }
    exit(3);
}
template <typename Mixin, typename B>
void msgCall(B& b, const J& c, builder_perks p0, builder_perks p1) {
    string k = c["c"].s;
    int v = c["v"].num();
    if constexpr (!std::is_same_v<Mixin, void>) {
        if (c["f"].num() == 5) {
            if (k == "timpl") { b.template implements<msg5>(p0, p1); return; }
            if (k == "tby" && v == 51) { b.template implements_by<msg5>([](Mixin*, int a) { return 51 + a; }, p0, p1); return; }
            if (k == "tby" && v == 52) { b.template implements_by<msg5>([](auto*, int a) { return 52 + a; }, p0, p1); return; }
        }
        else {
            if (k == "timpl") { b.template implements<msg6>(p0, p1); return; }
            if (k == "tby" && v == 51) { b.template implements_by<msg6>([](const Mixin*, int a) { return 51 + a; }, p0, p1); return; }
            if (k == "tby" && v == 52) { auto l = [](auto*, int a) { return 52 + a; }; b.template implements_by<msg6>(l, p0, p1); return; }
        }
    }
    exit(3);
}
template <template <typename> class Which, int X, typename B>
void onMutation(B& b, builder_perks p, uintptr_t u) { b.on_mutation(Which<M<X>>{}, p, u); }
template <template <typename> class Which, typename B>
void onMutationX(B& b, int x, builder_perks p, uintptr_t u) {
    switch (x) {
    case 1: onMutation<Which, 1>(b, p, u); break; case 2: onMutation<Which, 2>(b, p, u); break; case 3: onMutation<Which, 3>(b, p, u); break;
    case 4: onMutation<Which, 4>(b, p, u); break; case 5: onMutation<Which, 5>(b, p, u); break;
    default: exit(3);
    }
}
template <typename Mixin>
void call(mixin_info_data_builder<Mixin>& b, const J& c) {
    string k = c["c"].s;
    builder_perks p0, p1;
    if (c.has("ks")) { auto& ks = c["ks"].a; if (ks.size() > 0) p0 = perk(ks[0]); if (ks.size() > 1) p1 = perk(ks[1]); }
    uintptr_t u = c.has("u") ? uintptr_t(c["u"].i) : 0;
    auto same = [&](mixin_info_data_builder<Mixin>& r) { if (&r != &b) { printf("{\"got\":\"a call gives another builder\"}\n"); fflush(stdout); _Exit(0); } };
    if (k == "name") { g_keep->push_back(str(c["n"])); same(b.name(g_keep->back())); }
    else if (k == "store") { auto s = std::make_unique<string>(str(c["n"])); same(b.store_name(*s)); }
    else if (k == "alloc") same(b.uses_allocator(g_allocs[c["k"].num()]));
    else if (k == "allocany") { auto a = std::make_shared<NumAlloc>(); a->k = c["k"].num(); same(b.uses_allocator(t_any<mixin_allocator>(a))); }
    else if (k == "allocown") same(b.template uses_allocator<NumAlloc>());
    else if (k == "ud") same(b.user_data(u));
    else if (k == "dep") { if (c["b"].b() && c["d"].b()) same(b.dependency()); else same(b.dependency(c["b"].b())); }
    else if (k == "noop") same(b.noop(5));
    else if (k == "adopt") { mixin_info_data_builder<Mixin> o(nullptr, b.get_data()); if (&o.get_data() != &b.get_data()) exit(3); }
    else if (k == "rinfo") same(b.adds_mutation_rule(g_shared[c["g"].num()]));
    else if (k == "rnamed") { compat::pmr::string s(str(c["n"])); if (!u && c["ks"].a.empty()) same(b.adds_mutation_rule(std::move(s), &userRule)); else same(b.adds_mutation_rule(std::move(s), &userRule, u, p0)); }
    else if (k == "rfunc") { if (!u && c["ks"].a.empty()) same(b.adds_mutation_rule(&userRule)); else same(b.adds_mutation_rule(&userRule, u, p0)); }
    else if (k == "attaches") { if constexpr (!std::is_same_v<Mixin, void>) onMutationX<bl::attaches_to>(b, c["x"].num(), p0, u); else exit(3); }
    else if (k == "alsoadds") { if constexpr (!std::is_same_v<Mixin, void>) onMutationX<bl::also_adds>(b, c["x"].num(), p0, u); else exit(3); }
    else switch (c["f"].num()) {
    case 1: featCall<1>(b, c, p0, p1); break; case 2: featCall<2>(b, c, p0, p1); break; case 3: featCall<3>(b, c, p0, p1); break; case 4: featCall<4>(b, c, p0, p1); break;
    default: msgCall<Mixin>(b, c, p0, p1);
    }
}
template <typename Mixin>
static string show(const mixin_info_data& d, int self) {
    auto& i = d.info;
    string r = "{\"n\":" + bytes(i.name.to_std());
    r += ",\"s\":{\"size\":" + S(i.size) + ",\"align\":" + S(i.alignment) + ",\"buf\":" + S(i.obj_buf_size) + ",\"off\":" + S(i.obj_buf_alignment_and_mixin_offset) + "}";
    int al = 0;
    if (i.allocator) {
        al = -9;
        auto a = static_cast<NumAlloc*>(mixin_allocator::from_c_handle(i.allocator));
        if (a->magic == 4711) al = a->k;
    }
    r += ",\"al\":" + S(al) + ",\"ud\":" + S((long long)i.user_data) + ",\"dep\":" + S(i.dependency);
    r += ",\"fs\":" + list(i.features_span(), [&](const feature_for_mixin& f) {
        int n = 0;
        for (int k = 1; k <= NF; ++k) if (f.info == &featInfo(k)) n = k;
        int cell = 0, v = 0;
        if (n == 5) { typename std::conditional_t<std::is_same_v<Mixin, void>, M<1>, Mixin> m{}; v = reinterpret_cast<int (*)(void*, int)>(f.payload)(&m, 7) - 7; }
        else if (n == 6) { const typename std::conditional_t<std::is_same_v<Mixin, void>, M<1>, Mixin> m{}; v = reinterpret_cast<int (*)(const void*, int)>(f.payload)(&m, 7) - 7; }
        else {
            v = *static_cast<int*>(f.payload);
            for (int k = 1; k < 8; ++k) if (f.payload == &g_cells[k]) cell = k;
        }
        return "{\"f\":" + S(n) + ",\"b\":" + S(f.bid) + ",\"p\":" + S(f.priority) + ",\"c\":" + S(cell) + ",\"v\":" + S(v) + "}";
    });
    r += ",\"rs\":" + list(d.mutation_rule_infos, [&](const mutation_rule_info* u) {
        for (int k = 1; k < 4; ++k) if (u == &g_shared[k]) return "{\"g\":" + S(k) + ",\"n\":[],\"ud\":0,\"p\":0}";
        return "{\"g\":0,\"n\":" + bytes(u->name.to_std()) + ",\"ud\":" + S((long long)u->user_data) + ",\"p\":" + S(u->order_priority) + "}";
    });
    // what no call sets
    bool rest = !i.registered() && !i.dom && !i.mixin_class && !i.type_info_class && !i.order_priority && !i.force_external && !i.destroy && !i.equals && (!i.compare || self == 6);
    bool ops = i.init && i.copy_init && i.copy_asgn && i.move_init && i.move_asgn;
    return r + ",\"rest\":" + S(rest && ops) + "}";
}
template <typename Mixin>
void define(const J& d, int self, string& out) {
    g_keep->push_back(str(d["n"]));
    auto& data = *g_data[self];
    std::optional<mixin_info_data_builder<Mixin>> b;
    if (d["sv"].b()) b.emplace(data, dnmx_sv::from_std(g_keep->back()));
    else b.emplace(data, std::string_view(g_keep->back()));
    out += "[";
    bool first = true;
    for (auto& c : d["cs"].a) {
        call<Mixin>(*b, c);
        if (!first) out += ",";
        first = false;
        out += show<Mixin>(data, self);
    }
    out += "]";
}
template <int K> using Inst = impl::mixin_info_data_instance<Tag, M<K>>;
template <int K> mixin_info_data& fresh() {
    auto& d = Inst<K>::the_data_safe();
    d.~mixin_info_data();
    return *new (&d) mixin_info_data;
}
struct Insts { std::optional<Inst<1>> i1; std::optional<Inst<2>> i2; std::optional<Inst<3>> i3; std::optional<Inst<4>> i4; std::optional<Inst<5>> i5; };
static string defsCase(const J& c) {
    std::list<string> keep;
    g_keep = &keep;
    mixin_info_data own6;
    g_data[1] = &fresh<1>(); g_data[2] = &fresh<2>(); g_data[3] = &fresh<3>(); g_data[4] = &fresh<4>(); g_data[5] = &fresh<5>(); g_data[6] = &own6;
    auto& sh = c["shared"].a;
    for (size_t i = 0; i < sh.size(); ++i) {
        keep.push_back(str(sh[i]["n"]));
        g_shared[i + 1] = mutation_rule_info{dnmx_sv::from_std(keep.back()), sh[i]["t"].s == "null" ? nullptr : &userRule, uintptr_t(sh[i]["ud"].i), sh[i]["p"].num()};
    }
    for (int f = 1; f <= NF; ++f) {
        auto& i = const_cast<common_feature_info&>(featInfo(f));
        keep.push_back(str(c["feats"][f - 1]["n"]));
        i.id.i = dnmx_invalid_id;
        i.name = dnmx_sv::from_std(keep.back());
        i.allow_clashes = c["feats"][f - 1]["cl"].b();
    }
    for (int k = 1; k < 4; ++k) g_allocs[k].k = k;
    string out = "{\"defs\":[";
    auto& ds = c["defs"].a;
    for (size_t i = 0; i < ds.size(); ++i) {
        if (i) out += ",";
        switch (i + 1) {
        case 1: define<M<1>>(ds[i], 1, out); break; case 2: define<M<2>>(ds[i], 2, out); break; case 3: define<M<3>>(ds[i], 3, out); break;
        case 4: define<M<4>>(ds[i], 4, out); break; case 5: define<M<5>>(ds[i], 5, out); break; default: define<void>(ds[i], 6, out);
        }
    }
    out += "],\"dom\":[";
    {
        auto& s = c["set"];
        domain dom("d", domain_settings_builder{}.canonicalize_types(s["canon"].b()).allow_duplicate_feature_names(s["dupF"].b()).allow_duplicate_mixin_names(s["dupM"].b()));
        g_dom = &dom;
        Insts in;
        bool reg[NM + 1] = {};
        bool first = true;
        for (auto& op : c["ops"].a) {
            string o = op["o"].s, r = "ok", x = "[]";
            try {
                int m = op.has("m") ? op["m"].num() : 0;
                if (o == "reg") {
                    if (op["i"].b() && m <= 5) switch (m) {
                        case 1: if (!in.i1) { in.i1.emplace(mixin_info_data_builder<M<1>>(nullptr, *g_data[1])); } else g_data[1]->register_in(dom); break;
                        case 2: if (!in.i2) { in.i2.emplace(mixin_info_data_builder<M<2>>(nullptr, *g_data[2])); } else g_data[2]->register_in(dom); break;
                        case 3: if (!in.i3) { in.i3.emplace(mixin_info_data_builder<M<3>>(nullptr, *g_data[3])); } else g_data[3]->register_in(dom); break;
                        case 4: if (!in.i4) { in.i4.emplace(mixin_info_data_builder<M<4>>(nullptr, *g_data[4])); } else g_data[4]->register_in(dom); break;
                        case 5: if (!in.i5) { in.i5.emplace(mixin_info_data_builder<M<5>>(nullptr, *g_data[5])); } else g_data[5]->register_in(dom); break;
                    }
                    else g_data[m]->register_in(dom);
                    reg[m] = true;
                }
                else if (o == "unreg") {
                    if (!reg[m]) r = "skip";
                    else {
                        reg[m] = false;
                        bool was = true;
                        switch (m) {
                        case 1: was = !!in.i1; in.i1.reset(); break; case 2: was = !!in.i2; in.i2.reset(); break; case 3: was = !!in.i3; in.i3.reset(); break;
                        case 4: was = !!in.i4; in.i4.reset(); break; case 5: was = !!in.i5; in.i5.reset(); break; default: was = false;
                        }
                        if (!was) g_data[m]->unregister_from(dom);
                    }
                }
                else {
                    std::vector<const mixin_info*> q;
                    for (auto& k : op["l"].a) q.push_back(&g_data[k.num()]->info);
                    auto& t = dom.get_type(q);
                    x = list(t.mixins, [&](const mixin_info* i) { for (int k = 1; k <= NM; ++k) if (i == &g_data[k]->info) return S(k); return string("-1"); });
                }
            }
            catch (domain_error&) { r = "domain"; }
            catch (type_error&) { r = "type"; }
            catch (std::exception& e) { r = string("exception"); }
            if (r != "skip" && o != "get") x = "[" + S(int32_t(g_data[op["m"].num()]->info.id.i)) + "," + S((long long)dom.num_mutation_rules()) + "]";
            out += string(first ? "" : ",") + "{\"r\":\"" + r + "\",\"x\":" + x + "}";
            first = false;
        }
    }
    out += "]}";
    return out;
}

// ---------------------------------------------------------------- types with all kinds of operations
static string g_ev;
#define DEF(T) T() = default
#define CC(T) T(const T&) = default
#define CA(T) T& operator=(const T&) = default
#define MC(T) T(T&&) = default
#define MA(T) T& operator=(T&&) = default
template <int> struct D_; template <int> struct CC_; template <int> struct CA_; template <int> struct MC_; template <int> struct MA_; template <int> struct X_;
template <> struct D_<0> {};
template <> struct D_<1> { D_() { g_ev += "d"; } CC(D_); CA(D_); MC(D_); MA(D_); };
template <> struct D_<2> { explicit D_(int) {} CC(D_); CA(D_); MC(D_); MA(D_); };
template <> struct CC_<0> {};
template <> struct CC_<1> { DEF(CC_); CC_(const CC_&) { g_ev += "cc"; } CA(CC_); MC(CC_); MA(CC_); };
template <> struct CC_<2> { DEF(CC_); CC_(const CC_&) = delete; CA(CC_); MC(CC_); MA(CC_); };
template <> struct CA_<0> {};
template <> struct CA_<1> { DEF(CA_); CC(CA_); CA_& operator=(const CA_&) { g_ev += "ca"; return *this; } MC(CA_); MA(CA_); };
template <> struct CA_<2> { DEF(CA_); CC(CA_); CA_& operator=(const CA_&) = delete; MC(CA_); MA(CA_); };
template <> struct MC_<0> {};
template <> struct MC_<1> { DEF(MC_); CC(MC_); CA(MC_); MC_(MC_&&) noexcept { g_ev += "mc"; } MA(MC_); };
template <> struct MC_<2> { DEF(MC_); CC(MC_); CA(MC_); MC_(MC_&&) noexcept(false) { g_ev += "mc"; } MA(MC_); };
template <> struct MC_<3> { DEF(MC_); CC(MC_); CA(MC_); MA(MC_); };     // no move constructor of its own: copies
template <> struct MA_<0> {};
template <> struct MA_<1> { DEF(MA_); CC(MA_); CA(MA_); MC(MA_); MA_& operator=(MA_&&) noexcept { g_ev += "ma"; return *this; } };
template <> struct MA_<2> { DEF(MA_); CC(MA_); CA(MA_); MC(MA_); MA_& operator=(MA_&&) noexcept(false) { g_ev += "ma"; return *this; } };
template <> struct X_<0> {};
template <> struct X_<1> { DEF(X_); CC(X_); CA(X_); MC(X_); MA(X_); ~X_() { g_ev += "x"; } };
template <int D, int C, int A, int V, int W, int X, int SZ>
struct T_ : D_<D>, CC_<C>, CA_<A>, MC_<V>, MA_<W>, X_<X> { unsigned char b[SZ]; };

struct TypeRow { string key; bool t[17]; size_t size, align; void (*init)(mixin_info&); };
static std::vector<TypeRow> g_types;
template <int D, int C, int A, int V, int W, int X>
void addType() {
    constexpr int SZ = 5 + (D * 7 + C * 3 + A * 11 + V * 5 + W * 2 + X) % 13;
    using T = T_<D, C, A, V, W, X, SZ>;
    TypeRow r = {"", {std::is_trivially_constructible_v<T>, std::is_default_constructible_v<T>, std::is_trivially_copy_constructible_v<T>, std::is_copy_constructible_v<T>,
        std::is_trivially_copy_assignable_v<T>, std::is_copy_assignable_v<T>, std::is_trivially_move_constructible_v<T>, std::is_nothrow_move_constructible_v<T>,
        std::is_trivially_move_assignable_v<T>, std::is_nothrow_move_assignable_v<T>, std::is_trivially_destructible_v<T>,
        D == 1, C == 1, A == 1, V == 1 || V == 2, W == 1 || W == 2, X == 1}, sizeof(T), alignof(T), &common_init_mixin_info<T>};
    for (int k : {D, C, A, V, W, X}) r.key += char('0' + k);
    g_types.push_back(r);
}
static string traitsOf(const TypeRow& r) {
    const char* names[] = {"td", "d", "tcc", "cc", "tca", "ca", "tmc", "nmc", "tma", "nma", "tx", "ed", "ecc", "eca", "emc", "ema", "ex"};
    string o = "{";
    for (int k = 0; k < 17; ++k) o += string(k ? "," : "") + "\"" + names[k] + "\":" + S(r.t[k]);
    return o + "}";
}
static string runType(const TypeRow& r) {
    mixin_info i = dnmx_make_mixin_info();
    r.init(i);
    string o = "{\"s\":[" + S(i.size) + "," + S(i.alignment) + "," + S(r.size) + "," + S(r.align) + "]";
    const size_t N = r.size;
    auto area = [&](int fill) { auto p = std::shared_ptr<unsigned char>((unsigned char*)malloc(N), free); for (size_t k = 0; k < N; ++k) p.get()[k] = (unsigned char)(fill ? fill + k : 0xab); return p; };
    auto content = [&](unsigned char* p, int fill) {
        bool same = true, zero = true;
        for (size_t k = 0; k < N; ++k) { same = same && p[k] == (unsigned char)(fill + k); zero = zero && !p[k]; }
        return string(same ? "\"same\"" : zero ? "\"zero\"" : "\"other\"");
    };
    auto evs = [] { string e = "\"" + g_ev + "\""; g_ev.clear(); return e; };
    auto a = area(0), b = area(17);
    auto two = [&](const char* n, bool has, auto f) {
        o += string(",\"") + n + "\":";
        if (!has) { o += "\"no\""; return; }
        a = area(101); b = area(17);
        g_ev.clear();
        f();
        o += "{\"dst\":" + content(a.get(), 17) + ",\"src\":" + content(b.get(), 17) + ",\"ev\":" + evs() + "}";
    };
    o += ",\"init\":";
    if (!i.init) o += "\"no\"";
    else {
        g_ev.clear();
        int rc = i.init(&i, a.get());
        o += "{\"zero\":" + S(content(a.get(), 17) == "\"zero\"") + ",\"ev\":" + evs() + ",\"rc\":" + S(rc) + "}";
    }
    int rc = 0;
    two("cc", i.copy_init, [&] { rc |= i.copy_init(&i, a.get(), b.get()); });
    two("ca", i.copy_asgn, [&] { rc |= i.copy_asgn(&i, a.get(), b.get()); });
    two("mc", i.move_init, [&] { i.move_init(&i, a.get(), b.get()); });
    two("ma", i.move_asgn, [&] { i.move_asgn(&i, a.get(), b.get()); });
    o += ",\"x\":";
    if (!i.destroy) o += "\"no\"";
    else { a = area(17); g_ev.clear(); i.destroy(&i, a.get()); o += evs(); }
    o += ",\"rc\":" + S(rc) + ",\"eq\":" + S(!!i.equals) + ",\"cmp\":" + S(!!i.compare) + ",\"name\":" + S((long long)dnmx_sv_len(i.name)) + "}";
    return o;
}
template <int D, int C, int V, int X> void row1() { addType<D, C, 0, V, 0, X>(); addType<D, C, 1, V, 1, X>(); }
template <int D, int C, int X> void row2() { row1<D, C, 0, X>(); row1<D, C, 1, X>(); row1<D, C, 2, X>(); row1<D, C, 3, X>(); }
template <int D, int X> void row3() { row2<D, 0, X>(); row2<D, 1, X>(); row2<D, 2, X>(); }
template <int A, int W, int X> void row4() { addType<0, 0, A, 0, W, X>(); addType<0, 1, A, 1, W, X>(); }
template <int A, int X> void row5() { row4<A, 0, X>(); row4<A, 1, X>(); row4<A, 2, X>(); }
static void types() {
    row3<0, 0>(); row3<1, 0>(); row3<2, 1>(); row3<0, 1>();
    row5<0, 0>(); row5<1, 0>(); row5<2, 0>(); row5<1, 1>(); row5<2, 1>();
}

// ---------------------------------------------------------------- macros
DYNAMIX_DECLARE_DOMAIN(macro_domain);
static int g_ctx;
DYNAMIX_DEFINE_DOMAIN(macro_domain, "macro_domain", domain_settings_builder{}.canonicalize_types().allow_duplicate_mixin_names(), 232, &g_ctx);
DYNAMIX_DECLARE_MIXIN(struct macro_one);
DYNAMIX_DECLARE_MIXIN(class macro_two);
struct macro_one { double d = 1; ~macro_one() {} };
class macro_two { public: char c[3]; };
DYNAMIX_DECLARE_TYPE_CLASS(macro_class);
static bool matchOne(dnmx_type_handle h) noexcept { return type::from_c_handle(h)->has<macro_one>(); }
DYNAMIX_DEFINE_MIXIN(macro_domain, macro_one).user_data(11).implements<Feat<2>>(-7_bid, 3_prio);
DYNAMIX_DEFINE_MIXIN(macro_domain, macro_two).name("the second").on_mutation(attaches_to<macro_one>{}, 4_prio).dependency();
DYNAMIX_DEFINE_TYPE_CLASS_WITH(macro_domain, macro_class, matchOne);
template <> int numberOf<macro_one>() { return 77; }
static string macros() {
    auto& d = g::get_domain<macro_domain>();
    auto& one = g::get_mixin_info<macro_one>();
    auto& two = g::get_mixin_info<macro_two>();
    auto& t = d.get_type(std::vector<const mixin_info*>{&one});
    mixin_info mi = dnmx_make_mixin_info();
    DYNAMIX_COMMON_INIT_MI(mi, macro_two);
    string r = "{\"domain\":[\"" + string(d.name()) + "\"," + S(d.settings().canonicalize_types) + "," + S(d.settings().allow_duplicate_feature_names) + "," + S(d.settings().allow_duplicate_mixin_names) + "," +
        S(d.user_data) + "," + S(d.context == &g_ctx) + "," + S(d.num_mutation_rules()) + "]";
    r += ",\"one\":[\"" + string(one.name.to_std()) + "\"," + S(one.size) + "," + S(one.user_data) + "," + S(one.num_features) + "," + S(one.features[0].bid) + "," + S(one.features[0].priority) + "," +
        S(*(int*)one.features[0].payload) + "," + S(one.dependency) + "," + S(!!one.destroy) + "," + S(one.dom == d.to_c_hanlde()) + "]";
    r += ",\"two\":[\"" + string(two.name.to_std()) + "\"," + S(two.size) + "," + S(two.num_features) + "," + S(two.dependency) + "," + S(!!two.destroy) + "," + S(two.dom == d.to_c_hanlde()) + "]";
    r += ",\"type\":[" + S((long long)t.mixins.size()) + "," + S(t.has<macro_two>()) + "," + S(t.is_of<macro_class>()) + "," + S(t.is_of("macro_class")) + "]";
    r += ",\"init\":[\"" + string(mi.name.to_std()) + "\"," + S(mi.size) + "," + S(mi.alignment) + "]";
    r += ",\"msgs\":[\"" + string(msg5::get_info_safe().name.to_std()) + "\"," + S(msg5::get_info_safe().allow_clashes) + "," + S(!!msg5::get_info_safe().default_payload) + ",\"" +
        string(msg6::get_info_safe().name.to_std()) + "\"," + S(msg6::get_info_safe().allow_clashes) + "," + S(msg6::get_info_safe().default_payload == (void*)&defaultOf6) + "," +
        S(&msg5::info == &msg5::get_info_safe() && &msg6::info == &msg6::get_info_safe()) + "]";
    object o(d);
    r += ",\"default\":" + S(f6(o, 5));
    auto a1 = make_any<int>(allocator{});
    auto a2 = make_any(allocator{}, 7);
    int x = 9;
    auto a3 = fwd_any(x); auto a4 = fwd_any(&x);
    any a5 = a2;
    a2.reset();
    r += ",\"any\":[" + S(*a1) + "," + S(*static_cast<int*>(a5.get())) + "," + S(a3.get() == &x) + "," + S(a4.get() == &x) + "]";
    return r + "}";
}

int main(int argc, char** argv) {
    types();
    if (argc > 1) {
        std::cout << list(g_types, [](const TypeRow& r) { return "{\"key\":\"" + r.key + "\",\"t\":" + traitsOf(r) + "}"; }) << std::endl;
        return 0;
    }
    std::cout << macros() << std::endl;
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J c = parseJson(line);
        string k = c["k"].s, r;
        if (k == "defs") r = defsCase(c);
        else if (k == "settings") {
            domain_settings_builder b;
            bool same = true;
            for (auto& x : c["cs"].a) {
                auto& y = x["c"].s == "canon" ? (x["v"].b() && x["d"].b() ? b.canonicalize_types() : b.canonicalize_types(x["v"].b()))
                    : x["c"].s == "dupF" ? (x["v"].b() && x["d"].b() ? b.allow_duplicate_feature_names() : b.allow_duplicate_feature_names(x["v"].b()))
                    : (x["v"].b() && x["d"].b() ? b.allow_duplicate_mixin_names() : b.allow_duplicate_mixin_names(x["v"].b()));
                same = same && &y == &b;
            }
            domain_settings s = b;
            r = "{\"canon\":" + S(s.canonicalize_types) + ",\"dupF\":" + S(s.allow_duplicate_feature_names) + ",\"dupM\":" + S(s.allow_duplicate_mixin_names) + ",\"same\":" + S(same) + "}";
        }
        else if (k == "perks") {
            std::vector<builder_perks> ps;
            for (auto& x : c["ks"].a) ps.push_back(perk(x));
            mixin_info_data d;
            mixin_info_data_builder<void> b(d, std::string_view("x"));
            int v = 0;
            if (ps.size() == 0) b.implements_by(featInfo(1), v);
            else if (ps.size() == 1) b.implements_by(featInfo(1), v, ps[0]);
            else b.implements_by(featInfo(1), v, ps[0], ps[1]);
            auto opt = [](const std::optional<int32_t>& o) { return o ? "[" + S(*o) + "]" : string("[]"); };
            r = "{\"b\":" + S(d.info.features[0].bid) + ",\"p\":" + S(d.info.features[0].priority) + ",\"hb\":" + list(ps, [&](const builder_perks& p) { return "{\"b\":" + opt(p.bid) + ",\"p\":" + opt(p.priority) + "}"; }) + "}";
        }
        else if (k == "feat") {
            std::list<string> keep;
            g_keep = &keep;
            keep.push_back(str(c["n"]));
            feature_info_data d;
            std::optional<feature_info_data_builder> bo;
            if (c["sv"].b()) bo.emplace(d, dnmx_sv::from_std(keep.back())); else bo.emplace(d, std::string_view(keep.back()));
            auto& b = *bo;
            r = "[";
            bool first = true;
            for (auto& x : c["cs"].a) {
                string q = x["c"].s;
                if (q == "name") { keep.push_back(str(x["n"])); b.name(keep.back()); }
                else if (q == "store") { auto s = std::make_unique<string>(str(x["n"])); b.store_name(*s); }
                else if (q == "adopt") { feature_info_data_builder o(nullptr, d); if (&o.get_data() != &d) exit(3); }
                else {
                    int v = x["v"].num(), cell = x["cell"].num();
                    if (q == "payload") { if (cell) { g_cells[cell] = v; b.default_payload(fwd_any(g_cells[cell])); } else b.default_payload(make_any(allocator{}, int(v))); }
                    else if (q == "payby") { g_cells[cell] = v; b.default_payload_by(g_cells[cell]); }
                    else b.default_payload_with(int(v));
                }
                int v = 0, cell = 0;
                if (d.info.default_payload) {
                    v = *static_cast<int*>(d.info.default_payload);
                    for (int i = 1; i < 8; ++i) if (d.info.default_payload == &g_cells[i]) cell = i;
                }
                r += string(first ? "" : ",") + "{\"n\":" + bytes(d.info.name.to_std()) + ",\"v\":" + S(v) + ",\"c\":" + S(cell) + ",\"rest\":" + S(!d.info.allow_clashes && d.info.id.i == dnmx_invalid_id && !d.info.feature_class) + "}";
                first = false;
            }
            r += "]";
        }
        else if (k == "traits") {
            for (auto& t : g_types) if (t.key == c["key"].s) { r = runType(t); break; }
        }
        std::cout << "{\"got\":" << r << "}" << std::endl;
    }
}
