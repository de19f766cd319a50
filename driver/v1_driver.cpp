// Observes the version 1 interface: combinators, messages made with its macros, the feature parser, rules and their ids.
// Input: a JSON case per line; output: a line of JSON each.
#include "json.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/type_mutation.hpp>
#include <cmath>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
using std::string;
using namespace dynamix::v1compat;
using dynamix::mixin_info;
using dynamix::type_mutation;

static string S(long long x) { return std::to_string(x); }
template <typename V, typename F>
string list(const V& v, F f) {
    string r = "[";
    bool first = true;
    for (auto& x : v) { if (!first) r += ","; first = false; r += f(x); }
    return r + "]";
}
static string bytes(std::string_view s) { return list(s, [](char c) { return S((unsigned char)c); }); }
static string str(const J& j) { string r; for (auto& b : j.a) r += char(b.num()); return r; }

// an argument which knows how often it was copied
struct Arg {
    int v, copies = 0;
    Arg(int n) : v(n) {}
    Arg(const Arg& o) : v(o.v), copies(o.copies + 1) {}
    Arg(Arg&& o) noexcept : v(o.v), copies(o.copies) { o.v = -100000; }
};

// ---------------------------------------------------------------- messages
DYNAMIX_V1_MULTICAST_MESSAGE_0(int, m0);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(int, m1, Arg, a);
DYNAMIX_V1_MULTICAST_MESSAGE_2(int, m2, Arg, a, Arg, b);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_3(int, m3, Arg, a, Arg, b, Arg, c);
DYNAMIX_V1_EXPORTED_MULTICAST_MESSAGE_4(I_DNMX_PP_EMPTY(), int, m4, Arg, a, Arg, b, Arg, c, Arg, d);
DYNAMIX_V1_EXPORTED_CONST_MULTICAST_MESSAGE_5(I_DNMX_PP_EMPTY(), int, m5, Arg, a, Arg, b, Arg, c, Arg, d, Arg, e);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(int, m0);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, m1, Arg, a);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(int, m2, Arg, a, Arg, b);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_3(int, m3, Arg, a, Arg, b, Arg, c);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_4(int, m4, Arg, a, Arg, b, Arg, c, Arg, d);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_5(int, m5, Arg, a, Arg, b, Arg, c, Arg, d, Arg, e);
DYNAMIX_V1_MESSAGE_0(int, u0);
DYNAMIX_V1_CONST_MESSAGE_1(int, u1, Arg, a);
DYNAMIX_V1_MESSAGE_2(int, u2, Arg, a, Arg, b);
DYNAMIX_V1_CONST_MESSAGE_3(int, u3, Arg, a, Arg, b, Arg, c);
DYNAMIX_V1_EXPORTED_MESSAGE_4(I_DNMX_PP_EMPTY(), int, u4, Arg, a, Arg, b, Arg, c, Arg, d);
DYNAMIX_V1_EXPORTED_CONST_MESSAGE_5(I_DNMX_PP_EMPTY(), int, u5, Arg, a, Arg, b, Arg, c, Arg, d, Arg, e);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_0(bool, mb);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(bool, mb);
DYNAMIX_V1_MULTICAST_MESSAGE_1(double, md, Arg, a);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(double, md, Arg, a);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_2(int, dm, Arg, a, Arg, b);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(int, dm, Arg, a, Arg, b);
DYNAMIX_V1_MESSAGE_3(int, du, Arg, a, Arg, b, Arg, c);
DYNAMIX_MAKE_FUNC_TRAITS(ov);
DYNAMIX_V1_MULTICAST_MESSAGE_1_OVERLOAD(ov1, int, ov, Arg, a);
DYNAMIX_V1_MULTICAST_MESSAGE_2_OVERLOAD(ov2, int, ov, Arg, a, Arg, b);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1_OVERLOAD(ov1, int, ov, Arg, a);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2_OVERLOAD(ov2, int, ov, Arg, a, Arg, b);
DYNAMIX_MAKE_FUNC_TRAITS(ol);
DYNAMIX_V1_MESSAGE_0_OVERLOAD(ol0, int, ol);
DYNAMIX_V1_CONST_MESSAGE_0_OVERLOAD(ol0c, int, ol);

// the features by number
#define MESSAGES(X) X(1, m0) X(2, m1) X(3, m2) X(4, m3) X(5, m4) X(6, m5) X(7, u0) X(8, u1) X(9, u2) X(10, u3) X(11, u4) X(12, u5) \
    X(13, mb) X(14, md) X(15, dm) X(16, du) X(17, ov1) X(18, ov2) X(19, ol0) X(20, ol0c)
constexpr int NF = 20;

// ---------------------------------------------------------------- what mixins do
constexpr int NM = 6;
struct UserError {};
static string g_ev;
static int g_ret[NM + 1];
static string g_beh[NM + 1];
static bool g_copiesDiffer;
static std::vector<int> values(const std::vector<Arg*>& as) { std::vector<int> r; for (auto a : as) r.push_back(a->v); return r; }
static void event(int m, const std::vector<Arg*>& as) {
    int c = as.empty() ? 0 : as[0]->copies;
    for (auto a : as) if (a->copies != c) c = 1000;
    if (!g_ev.empty()) g_ev += ",";
    g_ev += "{\"m\":" + S(m) + ",\"args\":" + list(values(as), [](int v) { return S(v); }) + ",\"c\":" + S(c) + "}";
}
static int weigh(const std::vector<int>& vs) { int r = 0; for (size_t i = 0; i < vs.size(); ++i) r += int(i + 2) * vs[i]; return r; }
template <typename R> R conv(int x) { if constexpr (std::is_same_v<R, bool>) return x & 1; else if constexpr (std::is_same_v<R, double>) return x / 4.0; else return x; }

// called by the implementation of message tag in mixin self
template <typename R, int K, typename Msg, typename Self, typename... As>
R run(Msg* tag, Self* self, As&... as) {
    std::vector<Arg*> ps = {&as...};
    event(K, ps);
    if (g_beh[K] == "thr") throw UserError();
    auto own = [&] { return conv<R>(g_ret[K] + weigh(values(ps))); };
    if (g_beh[K] == "next" || g_beh[K] == "nextq") {
        if (g_beh[K] == "nextq" && !has_next_bidder(tag, self)) return own();
        if (!ps.empty()) ps[0]->v++;
        return call_next_bidder(tag, self, Arg(as.v)...);
    }
    return own();
}
template <int K> struct Copying {};
template <> struct Copying<5> { Copying() = default; Copying(const Copying&) = delete; Copying& operator=(const Copying&) = delete; };
template <int K>
struct M : Copying<K> {
    int64_t x = 0;
    int m0() { return run<int, K>(m0_msg, this); }
    int m1(Arg a) const { return run<int, K>(m1_msg, this, a); }
    int m2(Arg a, Arg b) { return run<int, K>(m2_msg, this, a, b); }
    int m3(Arg a, Arg b, Arg c) const { return run<int, K>(m3_msg, this, a, b, c); }
    int m4(Arg a, Arg b, Arg c, Arg d) { return run<int, K>(m4_msg, this, a, b, c, d); }
    int m5(Arg a, Arg b, Arg c, Arg d, Arg e) const { return run<int, K>(m5_msg, this, a, b, c, d, e); }
    int u0() { return run<int, K>(u0_msg, this); }
    int u1(Arg a) const { return run<int, K>(u1_msg, this, a); }
    int u2(Arg a, Arg b) { return run<int, K>(u2_msg, this, a, b); }
    int u3(Arg a, Arg b, Arg c) const { return run<int, K>(u3_msg, this, a, b, c); }
    int u4(Arg a, Arg b, Arg c, Arg d) { return run<int, K>(u4_msg, this, a, b, c, d); }
    int u5(Arg a, Arg b, Arg c, Arg d, Arg e) const { return run<int, K>(u5_msg, this, a, b, c, d, e); }
    bool mb() const { return run<bool, K>(mb_msg, this); }
    double md(Arg a) { return run<double, K>(md_msg, this, a); }
    int dm(Arg a, Arg b) const { return run<int, K>(dm_msg, this, a, b); }
    int du(Arg a, Arg b, Arg c) { return run<int, K>(du_msg, this, a, b, c); }
    int ov(Arg a) { return run<int, K>(ov1_msg, this, a); }
    int ov(Arg a, Arg b) { return run<int, K>(ov2_msg, this, a, b); }
    int ol() { return run<int, K>(ol0_msg, this); }
    int ol() const { return run<int, K>(ol0c_msg, this); }
};

static dynamix::util::mixin_info_data* g_data[NM + 1];
#define INFO(k) const mixin_info& _dynamix_get_mixin_info(const M<k>*) { return g_data[k]->info; }
INFO(1) INFO(2) INFO(3) INFO(4) INFO(5) INFO(6)

DYNAMIX_V1_DEFINE_MESSAGE(m0); DYNAMIX_V1_DEFINE_MESSAGE(m1); DYNAMIX_V1_DEFINE_MESSAGE(m2); DYNAMIX_V1_DEFINE_MESSAGE(m3); DYNAMIX_V1_DEFINE_MESSAGE(m4); DYNAMIX_V1_DEFINE_MESSAGE(m5);
DYNAMIX_V1_DEFINE_MESSAGE(u0); DYNAMIX_V1_DEFINE_MESSAGE(u1); DYNAMIX_V1_DEFINE_MESSAGE(u2); DYNAMIX_V1_DEFINE_MESSAGE(u3); DYNAMIX_V1_DEFINE_MESSAGE(u4); DYNAMIX_V1_DEFINE_MESSAGE(u5);
DYNAMIX_V1_DEFINE_MESSAGE(mb); DYNAMIX_V1_DEFINE_MESSAGE(md); DYNAMIX_V1_DEFINE_MESSAGE(ov1); DYNAMIX_V1_DEFINE_MESSAGE(ov2); DYNAMIX_V1_DEFINE_MESSAGE(ol0); DYNAMIX_V1_DEFINE_MESSAGE(ol0c);
DYNAMIX_V1_DEFINE_MESSAGE_2_WITH_DEFAULT_IMPL(int, dm, Arg, a, Arg, b) { event(0, {&a, &b}); return 700 + weigh({a.v, b.v}); }
DYNAMIX_V1_DEFINE_MESSAGE_3_WITH_DEFAULT_IMPL(int, du, Arg, a, Arg, b, Arg, c) { event(0, {&a, &b, &c}); return 700 + weigh({a.v, b.v, c.v}); }

// ---------------------------------------------------------------- definitions
template <typename Msg>
message_perks<Msg> perks(Msg* tag, const J& ps) {
    auto one = [&](const J& p) -> message_perks<Msg> {
        int v = p["v"].num();
        return p["k"].s == "bid" ? bid(v, tag) : p["k"].s == "prio" ? priority(v, tag) : upriority(v, tag);
    };
    message_perks<Msg> r = one(ps[0]);
    for (size_t i = 1; i < ps.a.size(); ++i) {
        int v = ps[i]["v"].num();
        r = ps[i]["k"].s == "bid" ? bid(v, r) : ps[i]["k"].s == "prio" ? priority(v, r) : upriority(v, r);
    }
    return r;
}
template <int K, typename Msg, typename Sig> struct Bind;
template <int K, typename Msg, typename R, typename Obj, typename... As>
struct Bind<K, Msg, R(Obj, As...)> {
    static bound_impl get(Msg* tag) {
        return bind(tag, [](typename Msg::traits::void_t p, As... as) -> R {
            using Self = dynamix::q_const<Msg::traits::is_const, M<K>>;
            return run<R, K>(static_cast<Msg*>(nullptr), static_cast<Self*>(p), as...);
        });
    }
};
template <int K, typename Msg>
void feature(feature_parser<M<K>>& fp, Msg* tag, const J& it) {
    if (it["c"].s == "bind") fp & Bind<K, Msg, typename Msg::signature>::get(tag);
    else if (it["ps"].a.empty()) fp & tag;
    else fp & perks(tag, it["ps"]);
}
static std::list<string>* g_keep;
template <int K>
void define(const J& its) {
    auto& data = *g_data[K];
    feature_parser<M<K>> fp(data, dnmx_make_sv_lit("raw name"));
    for (auto& it : its.a) {
        string c = it["c"].s;
        if (c == "ud") fp & user_data(uintptr_t(it["v"].i));
        else if (c == "name") { g_keep->push_back(str(it["n"])); fp & mixin_name(g_keep->back()); }
        else if (c == "dep") { if (it["v"].b()) fp & dependency_mixin(); else fp & dependency_mixin(false); }
        else if (c == "none") fp & none;
        else switch (it["f"].num()) {
#define X(n, name) case n: feature<K>(fp, name##_msg, it); break;
        MESSAGES(X)
#undef X
        default: exit(3);
        }
    }
}
static const dynamix::feature_info& featInfo(int f) {
    switch (f) {
#define X(n, name) case n: return name##_msg_t::get_info_safe();
    MESSAGES(X)
#undef X
    }
    exit(3);
}
static string showDef(const mixin_info& i) {
    return "{\"n\":" + bytes(i.name.to_std()) + ",\"ud\":" + S((long long)i.user_data) + ",\"dep\":" + S(i.dependency) + ",\"fe\":" + S(i.force_external) + ",\"fs\":" +
        list(i.features_span(), [](const dynamix::feature_for_mixin& f) {
            int n = 0;
            for (int k = 1; k <= NF; ++k) if (f.info == &featInfo(k)) n = k;
            return "{\"f\":" + S(n) + ",\"b\":" + S(f.bid) + ",\"p\":" + S(f.priority) + "}";
        }) + "}";
}
static int numberOf(const mixin_info* i) { for (int k = 1; k <= NM; ++k) if (i == &g_data[k]->info) return k; return -1; }
template <typename F> string guarded(F f) {
    try { f(); return "ok"; }
    catch (dynamix::domain_error&) { return "domain"; }
    catch (dynamix::type_error&) { return "type"; }
    catch (dynamix::object_error&) { return "object"; }
    catch (dynamix::feature_error&) { return "feature"; }
    catch (UserError&) { return "user"; }
    catch (std::exception& e) { return "exception"; }
}
static const dynamix::type& typeOf(const J& l) {
    std::vector<const mixin_info*> q;
    for (auto& k : l.a) q.push_back(&g_data[k.num()]->info);
    return domain::instance().get_type(q);
}

// ---------------------------------------------------------------- rules
static int g_rules;     // living ones
static std::map<mutation_rule*, int> g_ruleOf;
template <typename Base> struct Counted : Base { Counted() { ++g_rules; } ~Counted() override { --g_rules; g_ruleOf.erase(this); } };
template <typename F> mutation_rule* byMixin(int k, F f) {
    switch (k) {
    case 1: return f((M<1>*)nullptr); case 2: return f((M<2>*)nullptr); case 3: return f((M<3>*)nullptr);
    case 4: return f((M<4>*)nullptr); case 5: return f((M<5>*)nullptr); case 6: return f((M<6>*)nullptr);
    }
    exit(3);
}
template <typename L> void fill(L& rule, const J& l) {
    bool typed = false;
    for (auto& k : l.a) {
        typed = !typed;
        if (!typed) rule.add(g_data[k.num()]->info);
        else byMixin(k.num(), [&](auto* p) -> mutation_rule* { rule.template add<std::remove_pointer_t<decltype(p)>>(); return nullptr; });
    }
}
struct Custom : mutation_rule {
    int a, b;
    bool thr;
    Custom(int x, int y, bool t) : a(x), b(y), thr(t) { ++g_rules; }
    ~Custom() override { --g_rules; g_ruleOf.erase(this); }
    void apply_to(type_mutation& mut) override {
        if (!mut.has(g_data[a]->info)) return;
        if (thr) throw UserError();
        mut.add_if_lacking(g_data[b]->info);
    }
};
static mutation_rule* newRule(const J& u) {
    string k = u["k"].s;
    int a = u["a"].num(), b = u["b"].num();
    auto with = [&](auto* r) {
        byMixin(a, [&](auto* p) -> mutation_rule* { r->template set_master<std::remove_pointer_t<decltype(p)>>(); return nullptr; });
        fill(*r, u["l"]);
        return r;
    };
    if (k == "v1one") return with(new Counted<dependent_mixins_oneshot>);
    if (k == "v1dep") return with(new Counted<dependent_mixins_dep>);
    if (k == "v1mx") { auto r = new Counted<mutually_exclusive_mixins>; fill(*r, u["l"]); return r; }
    if (k == "rem") return byMixin(a, [](auto* p) -> mutation_rule* { return new Counted<deprecated_mixin<std::remove_pointer_t<decltype(p)>>>; });
    if (k == "add") return byMixin(a, [](auto* p) -> mutation_rule* { return new Counted<mandatory_mixin<std::remove_pointer_t<decltype(p)>>>; });
    if (k == "v1sub") return byMixin(a, [&](auto* p) {
        return byMixin(b, [](auto* q) -> mutation_rule* { return new Counted<substitute_mixin<std::remove_pointer_t<decltype(p)>, std::remove_pointer_t<decltype(q)>>>; });
    });
    if (k == "addif" || k == "thr") return new Custom(a, b, k == "thr");
    exit(3);
}
static string rulesOps(const J& c) {
    auto& dom = domain::instance();
    auto before = dom.num_mutation_rules();
    struct H { mutation_rule_id id; int r; bool live; };
    std::vector<H> hs;
    std::vector<std::shared_ptr<mutation_rule>> mine(c["rules"].size() + 1);
    std::vector<mutation_rule_id> ids;
    auto removed = [&](const std::shared_ptr<mutation_rule>& p) {
        if (!p) return 0;
        auto f = g_ruleOf.find(p.get());
        if (f == g_ruleOf.end()) return -1;
        mine[f->second] = p;
        return f->second;
    };
    string out = "[";
    for (auto& op : c["ops"].a) {
        if (out.size() > 1) out += ",";
        string o = op["o"].s, r;
        if (o == "add") {
            int n = op["r"].num();
            auto& u = c["rules"][n - 1];
            mutation_rule_id id;
            if (mine[n]) id = add_mutation_rule(mine[n]);
            else {
                auto p = newRule(u);
                g_ruleOf[p] = n;
                if (u["raw"].b()) id = add_mutation_rule(p);
                else { mine[n].reset(p); id = add_mutation_rule(mine[n]); }
            }
            bool again = false;     // ids of what is there differ
            for (auto& h : hs) again = again || (h.live && h.id == id);
            hs.push_back({id, n, true});
            r = again ? "\"the id is in use\"" : "\"ok\"";
        }
        else if (o == "rm") {
            auto& h = hs[op["h"].num() - 1];
            bool other = false;
            for (auto& k : hs) other = other || (&k != &h && k.live && k.id == h.id);
            if (!h.live && other) r = "0";
            else r = S(removed(remove_mutation_rule(h.id)));
            h.live = false;
        }
        else if (o == "bad") {
            mutation_rule_id id = op["big"].b() ? mutation_rule_id(-1) : mutation_rule_id(0);
            for (auto& h : hs) if (h.id >= id && !op["big"].b()) id = h.id + 1;
            r = S(removed(remove_mutation_rule(op["big"].b() ? id - op["v"].num() : id + op["v"].num())));
        }
        else {
            string l = "[]";
            r = guarded([&] { auto& t = typeOf(op["l"]); l = list(t.mixins, [](const mixin_info* i) { return S(numberOf(i)); }); });
            out += "{\"r\":\"" + r + "\",\"l\":" + l + "}";
            continue;
        }
        out += "{\"r\":" + r + ",\"n\":" + S((long long)dom.num_mutation_rules()) + "}";
    }
    for (auto& h : hs) if (h.live) remove_mutation_rule(h.id);
    out += "]";
    mine.clear();
    if (g_rules) { out = "\"" + S(g_rules) + " rules are kept after their removal\""; g_rules = 0; }
    else if (dom.num_mutation_rules() != before) out = "\"rules stay in the domain\"";
    return out;
}

// ---------------------------------------------------------------- calls
// wants so many results
template <typename R> struct Recorder {
    size_t n = 0, stop;
    std::vector<R> l;
    void set_num_results(size_t k) { n = k; }
    bool add_result(const R& r) { l.push_back(r); return l.size() < stop; }
};
template <typename R> struct Answer {};
static string num(int v) { return S(v); }
static string num(bool v) { return S(v); }
static string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
template <typename R> long long quarters(R v) { if constexpr (std::is_same_v<R, double>) return llround(v * 4); else return v; }
namespace cbs = dynamix::v1compat::combinators;
struct Kept { cbs::boolean_and<int> a; cbs::boolean_or<int> o; cbs::sum<int> s; cbs::mean<int> m; };

#define PLAIN(tag, fn) struct Call_##tag { \
    template <typename... A> static auto plain(tag##_msg_t::traits::obj_t& o, A&&... a) { return fn(o, std::forward<A>(a)...); }
#define COMBINED(tag, fn) PLAIN(tag, fn) \
    template <template <typename> class C, typename... A> static auto comb(tag##_msg_t::traits::obj_t& o, A&&... a) { return fn<C>(o, std::forward<A>(a)...); } \
    template <typename C, typename... A> static void into(C& c, tag##_msg_t::traits::obj_t& o, A&&... a) { fn(o, std::forward<A>(a)..., c); } };
COMBINED(m0, m0) COMBINED(m1, m1) COMBINED(m2, m2) COMBINED(m3, m3) COMBINED(m4, m4) COMBINED(m5, m5)
PLAIN(u0, u0) }; PLAIN(u1, u1) }; PLAIN(u2, u2) }; PLAIN(u3, u3) }; PLAIN(u4, u4) }; PLAIN(u5, u5) };
COMBINED(mb, mb) COMBINED(md, md) COMBINED(dm, dm) PLAIN(du, du) }; COMBINED(ov1, ov) COMBINED(ov2, ov) PLAIN(ol0, ol) }; PLAIN(ol0c, ol) };

template <typename Msg, typename C, size_t... I>
string callMsg(object& o, const J& op, Kept& kept, std::index_sequence<I...>) {
    using R = typename Msg::traits::ret_t;
    int k = op["k"].num();
    [[maybe_unused]] auto arg = [&](size_t i) { return Arg(op["args"][i].num()); };
    auto plain = [&] { return "[" + S(quarters(C::plain(o, arg(I)...))) + "]"; };
    if (k == 0) return plain();
    if constexpr (Msg::multicast) {
        if (k == 5) {
            Recorder<R> rec{0, size_t(op["stop"].num()), {}};
            C::into(rec, o, arg(I)...);
            string r = "[" + S((long long)rec.n);
            for (auto x : rec.l) r += "," + S(quarters(R(x)));
            return r + "]";
        }
        if (!op["lv"].b()) switch (k) {
        case 1: return "[" + num(C::template comb<cbs::boolean_and>(o, arg(I)...)) + "]";
        case 2: return "[" + num(C::template comb<cbs::boolean_or>(o, arg(I)...)) + "]";
        case 3: if constexpr (!std::is_same_v<R, bool>) return "[" + num(C::template comb<cbs::sum>(o, arg(I)...)) + "]"; break;
        case 4: if constexpr (!std::is_same_v<R, bool>) return "[" + num(C::template comb<cbs::mean>(o, arg(I)...)) + "]"; break;
        }
        else if constexpr (std::is_same_v<R, int>) switch (k) {
        case 1: C::into(kept.a, o, arg(I)...); break;
        case 2: C::into(kept.o, o, arg(I)...); break;
        case 3: C::into(kept.s, o, arg(I)...); break;
        case 4: C::into(kept.m, o, arg(I)...); break;
        }
        if (op["lv"].b()) return "";
    }
    exit(3);
}

// type classes
static J g_tc[4];
static bool matches(int t, const dynamix::type& ty) {
    string k = g_tc[t]["k"].s;
    int a = g_tc[t]["a"].num();
    return k == "has" ? ty.has(g_data[a]->info) : k == "num" ? ty.num_mixins() >= size_t(a) : ty.implements_strong(featInfo(a));
}
DYNAMIX_V1_TYPE_CLASS(tc1);
DYNAMIX_V1_TYPE_CLASS(tc2);
DYNAMIX_V1_DEFINE_TYPE_CLASS(tc1) { return matches(1, type); }
DYNAMIX_V1_DEFINE_TYPE_CLASS(tc2) { return matches(2, type); }
static type_class tc3([](dnmx_type_handle t) noexcept { return matches(3, *dynamix::type::from_c_handle(t)); });

static string callsOps(const J& c) {
    Kept kept;
    for (int t = 1; t <= 3; ++t) g_tc[t] = c["tcs"][t - 1];
    string out = "[";
    for (auto& op : c["ops"].a) {
        if (out.size() > 1) out += ",";
        string o = op["o"].s, x = "[]", r;
        g_ev.clear();
        if (o == "reset") {
            switch (op["k"].num()) { case 1: kept.a.reset(); break; case 2: kept.o.reset(); break; case 3: kept.s.reset(); break; case 4: kept.m.reset(); break; }
            out += "{\"r\":\"ok\"}";
            continue;
        }
        const dynamix::type* ty = nullptr;
        r = guarded([&] { ty = &typeOf(op["l"]); });
        if (!ty) { out += "{\"r\":\"refused\"}"; continue; }
        object obj(*ty);
        bool mine = &object().get_domain() == &domain::instance();
        string extra;
        if (o == "call") {
            for (int m = 1; m <= NM; ++m) { g_ret[m] = op["ret"][m - 1].num(); g_beh[m] = op["beh"][m - 1].s; }
            r = guarded([&] {
                switch (op["f"].num()) {
#define X(n, name) case n: x = callMsg<name##_msg_t, Call_##name>(obj, op, kept, std::make_index_sequence<name##_msg_t::traits::arity>()); break;
                MESSAGES(X)
#undef X
                default: exit(3);
                }
            });
            if (op["lv"].b()) switch (op["k"].num()) {
            case 1: x = "[" + num(kept.a.result()) + "]"; break; case 2: x = "[" + num(kept.o.result()) + "]"; break;
            case 3: x = "[" + num(kept.s.result()) + "]"; break; case 4: x = "[" + num(kept.m.result()) + "]"; break;
            }
            extra = ",\"e\":[" + g_ev + "]";
        }
        else if (o == "impl") {
            x = "[";
#define X(n, name) { bool a = obj.implements(name##_msg), b = obj.implements(name##_msg_t::info); x += (n > 1 ? "," : "") + (a == b ? S(a) : string("9")); }
            MESSAGES(X)
#undef X
            x += "]";
        }
        else if (o == "isa") x = "[" + S(obj.is_a<tc1>()) + "," + S(obj.is_a<tc2>()) + "," + S(obj.is_a(tc3)) + "]";
        else if (o == "copy") {
            x = "[" + S(obj.copyable()) + "]";
            string l = "[]";
            auto g = guarded([&] {
                // values
                for (auto i : ty->mixins) static_cast<M<1>*>(obj.get(*i))->x = 1000 + numberOf(i);
                object cp = obj.copy();
                l = list(cp.get_type().mixins, [&](const mixin_info* i) { return static_cast<M<1>*>(cp.get(*i))->x == 1000 + numberOf(i) && cp.get(*i) != obj.get(*i) && object::of(cp.get(*i)) == &cp ? S(numberOf(i)) : string("-1"); });
            });
            r = g == "ok" ? "ok" : "no";
            extra = ",\"l\":" + l;
        }
        if (!mine) r = "an object is of another domain";
        out += "{\"r\":\"" + r + "\",\"x\":" + x + extra + "}";
    }
    return out + "]";
}

// ---------------------------------------------------------------- combinators by hand
template <typename C, typename T>
string hist(const J& os, bool mean) {
    C c;
    string r = "[";
    long calls = 0;
    size_t n = 0;
    for (auto& o : os.a) {
        int more = -1;
        string k = o["o"].s;
        int v = o["v"].num();
        if (k == "num") { c.set_num_results(size_t(v)); n = v; ++calls; }
        else if (k == "add") more = c.add_result(conv<T>(v));
        else { c.reset(); calls = 0; }
        r += string(r.size() > 1 ? "," : "") + "{\"more\":" + S(more) + ",\"r\":" + (mean && (calls != 1 || !n) ? string("[]") : "[" + num(c.result()) + "]") + "}";
    }
    return r + "]";
}
template <typename T> string comb(const J& c) {
    string k = c["c"].s;
    auto& os = c["os"];
    if (k == "and") return hist<cbs::boolean_and<T>, T>(os, false);
    if (k == "or") return hist<cbs::boolean_or<T>, T>(os, false);
    if constexpr (!std::is_same_v<T, bool>) {
        if (k == "sum") return hist<cbs::sum<T>, T>(os, false);
        if (k == "mean") return hist<cbs::mean<T>, T>(os, true);
    }
    exit(3);
}

// ---------------------------------------------------------------- macros
DYNAMIX_V1_DECLARE_MIXIN(macro_one);
DYNAMIX_V1_DECLARE_MIXIN(macro_two);
DYNAMIX_V1_DECLARE_MIXIN(macro_three);
class macro_one { public: int d = 1; int u0() { return 31; } int m0() { return 33; } };
class macro_two { public: char c[3]; int m0() { return 44; } };
class macro_three {};
DYNAMIX_V1_DEFINE_MIXIN(macro_one, bid(3, u0_msg) & priority(5, bid(2, m0_msg)) & user_data(77));
DYNAMIX_V1_DEFINE_MIXIN(macro_two, m0_msg & mixin_name("the second") & dependency_mixin());
DYNAMIX_V1_DEFINE_MIXIN(macro_three, none);
static string macros() {
    auto& d = domain::instance();
    string r = "{\"domain\":[\"" + string(d.name()) + "\"," + S(d.settings().canonicalize_types) + "," + S(d.settings().allow_duplicate_feature_names) + "," + S(d.settings().allow_duplicate_mixin_names) + "]";
    auto one = [&](const mixin_info& i) {
        return "[\"" + string(i.name.to_std()) + "\"," + S(i.size) + "," + S((long long)i.user_data) + "," + S(i.dependency) + "," + S(i.force_external) + "," + S(i.dom == d.to_c_hanlde()) + "," + S(i.num_features) + "]";
    };
    r += ",\"infos\":[" + one(dynamix::g::get_mixin_info<macro_one>()) + "," + one(dynamix::g::get_mixin_info<macro_two>()) + "," + one(dynamix::g::get_mixin_info<macro_three>()) + "]";
    auto& i = dynamix::g::get_mixin_info<macro_one>();
    r += ",\"fs\":[" + S(i.features[0].bid) + "," + S(i.features[0].priority) + "," + S(i.features[1].bid) + "," + S(i.features[1].priority) + "]";
    object o;
    mutate(o, dynamix::add<macro_two>(), dynamix::add<macro_one>());
    r += ",\"calls\":[" + S(u0(o)) + "," + S(m0(o)) + "," + S(m0<cbs::sum>(o)) + "]";
    r += ",\"names\":" + list(std::vector<int>{1, 15, 16, 17, 20}, [](int f) { return "\"" + string(featInfo(f).name.to_std()) + "\""; });
    r += ",\"clash\":" + list(std::vector<int>{1, 7, 13, 15, 16, 17, 19}, [](int f) { return S(featInfo(f).allow_clashes); });
    r += ",\"tc\":\"" + string(tc1::m_dynamix_type_class.name.to_std()) + "\"";
    r += ",\"found\":" + S(d.get_type_class("tc1") == &tc1::m_dynamix_type_class);
    return r + "}";
}

int main() {
    std::cout << macros() << std::endl;
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J c = parseJson(line);
        string k = c["k"].s, r;
        if (k == "comb") r = c["t"].s == "bool" ? comb<bool>(c) : c["t"].s == "int" ? comb<int>(c) : comb<double>(c);
        else {
            std::list<string> keep;
            g_keep = &keep;
            std::vector<std::unique_ptr<dynamix::util::mixin_info_data>> data;
            for (int m = 1; m <= NM; ++m) { data.push_back(std::make_unique<dynamix::util::mixin_info_data>()); g_data[m] = data.back().get(); }
            auto& ds = c["defs"];
            define<1>(ds[0]); define<2>(ds[1]); define<3>(ds[2]); define<4>(ds[3]); define<5>(ds[4]); define<6>(ds[5]);
            r = "{\"defs\":" + list(data, [](auto& d) { return showDef(d->info); }) + ",\"reg\":";
            r += list(data, [](auto& d) { return "\"" + guarded([&] { d->register_in(domain::instance()); }) + "\""; });
            r += ",\"ops\":" + (k == "rules" ? rulesOps(c) : callsOps(c)) + "}";
            for (auto& d : data) if (d->info.dom) d->unregister_from(domain::instance());
        }
        std::cout << "{\"got\":" << r << "}" << std::endl;
    }
}
