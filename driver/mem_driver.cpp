// Observes sizes, the order of infos, stock functions, ids, owner references and argument forwarding.
// Input: a JSON case per line; output: a line of JSON each.
#include "json.hpp"
#include <dynamix/alloc_util.hpp>
#include <dynamix/bits/make_from_tuple.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_id.hpp>
#include <dynamix/feature_id.hpp>
#include <dynamix/mixin_index.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mixin_data.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/object_mutate_ops.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to_ops.hpp>
#include <dnmx/mixin_common_funcs.h>
#include <cstring>
#include <memory>
using std::string;
using namespace dynamix;

extern "C" {
void c_set_size(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a);
bool c_order(const dnmx_mixin_info* a, const dnmx_mixin_info* b);
dnmx_mixin_info c_make(void);
dnmx_feature_info c_make_f(void);
void c_move_copy(const dnmx_mixin_info* i, void* p, void* s);
dnmx_error_return_t c_noop_init(const dnmx_mixin_info* i, void* p);
dnmx_error_return_t c_noop_copy(const dnmx_mixin_info* i, void* p, const void* s);
void c_noop_move(const dnmx_mixin_info* i, void* p, void* s);
int c_noop_cmp(const dnmx_mixin_info* i, const void* a, const void* b);
int c_kinds(const dnmx_mixin_info* i, int* k);
int c_macro(int n, dnmx_mixin_info* out, dnmx_byte_size_t* size, dnmx_byte_size_t* align);
extern const char* c_macro_names[];
unsigned c_invalid(int k);
}

template <typename V, typename F>
string list(const V& v, F f) {
    string r = "[";
    bool first = true;
    for (auto& x : v) { if (!first) r += ","; first = false; r += f(x); }
    return r + "]";
}
static string S(long long x) { return std::to_string(x); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

// ---------------------------------------------------------------- arguments
static string g_got;          // categories with which the constructor was called
static const void* g_at[8];   // and where the arguments were
static int g_ctors, g_argCopies, g_argMoves;
struct Arg {
    int n = 0;
    Arg(int n) : n(n) {}
    Arg(const Arg& a) : n(a.n) { ++g_argCopies; }
    Arg(Arg&& a) noexcept : n(a.n) { a.n = -1; ++g_argMoves; }
};
template <typename A> const char* cat() {
    constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
    return std::is_lvalue_reference_v<A> ? (c ? "cl" : "l") : (c ? "cr" : "r");
}
static long g_probeSize;
struct Probe {
    void* self;
    long guard = 77;
    template <typename... A, typename = std::enable_if_t<(std::is_same_v<std::decay_t<A>, Arg> && ...)>>
    explicit Probe(A&&... a) : self(this) {
        ++g_ctors;
        g_got = "[";
        int i = 0;
        auto one = [&](auto* p, const char* c, int n) { g_got += string(i ? "," : "") + "\"" + c + "\""; if (n != i) g_got += ",\"wrong argument\""; if (i < 8) g_at[i] = p; ++i; };
        (one(&a, cat<A&&>(), a.n), ...);
        g_got += "]";
    }
    Probe(const Probe&) = delete;
};
struct ProbeTag {};
static mixin_info g_probeInfo = dnmx_make_mixin_info();
const mixin_info& _dynamix_get_mixin_info(Probe*) { return g_probeInfo; }

template <char K> struct Stored;
template <> struct Stored<'v'> { using T = Arg; };
template <> struct Stored<'V'> { using T = const Arg; };
template <> struct Stored<'l'> { using T = Arg&; };
template <> struct Stored<'L'> { using T = const Arg&; };
template <> struct Stored<'r'> { using T = Arg&&; };
template <char K> decltype(auto) give(Arg& a) {
    if constexpr (K == 'l') return (a);
    else if constexpr (K == 'L') return static_cast<const Arg&>(a);
    else return static_cast<Arg&&>(a);
}
static string verdict(void* at, Probe* p, bool places) {
    string r = g_got;
    string bad;
    if (g_ctors != 1) bad = "constructed " + S(g_ctors) + " times";
    else if (p->self != at) bad = "constructed elsewhere";
    else if (!places) bad = "arguments are copies";
    else if (g_argCopies) bad = "arguments are copied";
    else if (g_argMoves) bad = "arguments are moved";
    return bad.empty() ? r : "\"" + bad + "\"";
}
template <size_t... I, char... K>
string tuple_case(char t, std::index_sequence<I...>, std::integer_sequence<char, K...>) {
    Arg args[] = { Arg(int(I))..., Arg(-1) };
    (void)args;
    alignas(64) unsigned char buf[sizeof(Probe) + 128];
    memset(buf, 0xab, sizeof buf);
    void* at = buf + 64;
    std::tuple<typename Stored<K>::T...> tup(give<K>(args[I])...);
    const void* want[] = { std::addressof(std::get<I>(tup))..., nullptr };
    g_ctors = g_argCopies = g_argMoves = 0;
    if (t == 'l') impl::make_from_tuple<Probe>(at, tup);
    else if (t == 'L') impl::make_from_tuple<Probe>(at, std::as_const(tup));
    else impl::make_from_tuple<Probe>(at, std::move(tup));
    bool places = true;
    for (size_t i = 0; i < sizeof...(I); ++i) places = places && g_at[i] == want[i];
    for (size_t i = 0; i < sizeof buf; ++i) if ((i < 64 || i >= 64 + sizeof(Probe)) && buf[i] != 0xab) return "\"writes outside of the object\"";
    return verdict(at, reinterpret_cast<Probe*>(at), places);
}
template <char... K> string all3(const string& t) {
    auto is = std::make_index_sequence<sizeof...(K)>();
    auto cs = std::integer_sequence<char, K...>();
    return t == "l" ? tuple_case('l', is, cs) : t == "cl" ? tuple_case('L', is, cs) : tuple_case('r', is, cs);
}
// operations which store arguments for a mixin: an argument given as an lvalue stays one, others are moved into the operation
template <size_t... I, char... K>
string op_case(int form, std::index_sequence<I...>, std::integer_sequence<char, K...>) {
    Arg args[] = { Arg(int(I))..., Arg(-1) };
    (void)args;
    alignas(64) unsigned char buf[sizeof(Probe) + 128];
    void* at = buf + 64;
    struct Fake { alignas(16) char c[512] = {}; } fake;    // never looked at
    init_new_args ia{g_probeInfo, reinterpret_cast<byte_t*>(at), reinterpret_cast<const type&>(fake), 0};
    const void* given[] = { &args[I]..., nullptr };
    auto fin = [&]() {
        bool places = true;
        constexpr char ks[] = { K..., 0 };
        for (size_t i = 0; i < sizeof...(I); ++i) if (ks[i] == 'l' || ks[i] == 'L') places = places && g_at[i] == given[i];
        if (g_argCopies) return string("\"arguments are copied\"");
        g_argMoves = 0;
        return verdict(at, reinterpret_cast<Probe*>(at), places);
    };
    g_ctors = g_argCopies = g_argMoves = 0;
    if (form == 0) {
        auto op = mutate_ops::add<Probe>(give<K>(args[I])...);
        op.do_init(ia);
        return fin();
    }
    auto op = mutate_to_ops::construct<Probe>(give<K>(args[I])...);
    op.do_init(ia);
    return fin();
}
template <char... K> string op2(const string& t) {
    auto is = std::make_index_sequence<sizeof...(K)>();
    auto cs = std::integer_sequence<char, K...>();
    return op_case(t == "add" ? 0 : 1, is, cs);
}
using Fn = string (*)(const string&);
static std::map<string, Fn> g_tuples, g_ops;
template <char A, char B> void reg2() { g_tuples[string({A, B})] = &all3<A, B>; if constexpr (A != 'V' && B != 'V' && A != 'v' && B != 'v') g_ops[string({A, B})] = &op2<A, B>; }
template <char A> void reg1() {
    g_tuples[string({A})] = &all3<A>;
    reg2<A, 'v'>(); reg2<A, 'V'>(); reg2<A, 'l'>(); reg2<A, 'L'>(); reg2<A, 'r'>();
    if constexpr (A != 'V' && A != 'v') { g_ops[string({A})] = &op2<A>; g_ops[string({A, A, A})] = &op2<A, A, A>; g_ops[string({'r', A, 'l', 'r', A})] = &op2<'r', A, 'l', 'r', A>; }
    g_tuples[string({A, A, A})] = &all3<A, A, A>;
    g_tuples[string({'v', A, 'l', 'r', A, 'L'})] = &all3<'v', A, 'l', 'r', A, 'L'>;
    g_tuples[string({A, 'r', 'v', 'l'})] = &all3<A, 'r', 'v', 'l'>;
}
static void regs() {
    g_tuples[""] = &all3<>;
    reg1<'v'>(); reg1<'V'>(); reg1<'l'>(); reg1<'L'>(); reg1<'r'>();
}
// what a constructor with a list of values does not get: the arguments are passed with parentheses
struct Listy {
    int how;
    Listy() : how(0) {}
    Listy(int, int) : how(2) {}
    explicit Listy(int) : how(1) {}
    Listy(std::initializer_list<int>) : how(9) {}
};

// ---------------------------------------------------------------- cases
static string mem_case(const J& c) {
    size_t n = c["m"].size();
    // aligned to a pointer, exactly as large as it should be
    struct Del { void operator()(unsigned char* p) { free(p); } };
    std::unique_ptr<unsigned char, Del> own((unsigned char*)malloc(n ? n : 1));
    unsigned char* m = own.get();
    for (size_t i = 0; i < n; ++i) m[i] = (unsigned char)c["m"][i].num();
    string r = "[";
    bool first = true;
    for (auto& op : c["ops"].a) {
        string o = op["o"].s;
        int lang = op["l"].num();    // whether the inline functions are those of C
        mixin_info info = dnmx_make_mixin_info();
        info.set_size_alignment(dnmx_byte_size_t(op["n"].num()), 1);
        unsigned char* p = m + op["p"].num(), * q = m + op["q"].num();
        string res = "0";
        if (o == "init") res = S(dnmx_mixin_common_init_func(&info, p));
        else if (o == "copy") res = S(dnmx_mixin_common_copy_func(&info, p, q));
        else if (o == "move") dnmx_mixin_common_move_func(&info, p, q);
        else if (o == "movecopy") lang ? c_move_copy(&info, p, q) : dnmx_mixin_common_move_func_copy(&info, p, q);
        else if (o == "destroy") dnmx_mixin_common_destroy_func(&info, p);
        else if (o == "cmp") res = S(sgn(dnmx_mixin_common_cmp_func(&info, p, q)));
        else if (o == "eq") res = S(dnmx_mixin_common_eq_func(&info, p, q));
        else if (o == "ninit") res = S(lang ? c_noop_init(&info, p) : dnmx_mixin_noop_init_func(&info, p));
        else if (o == "ncopy") res = S(lang ? c_noop_copy(&info, p, q) : dnmx_mixin_noop_copy_func(&info, p, q));
        else if (o == "nmove") lang ? c_noop_move(&info, p, q) : dnmx_mixin_noop_move_func(&info, p, q);
        else if (o == "ncmp") res = S(lang ? c_noop_cmp(&info, p, q) : dnmx_mixin_noop_cmp_func(&info, p, q));
        else if (o == "own") {
            object_mixin_data d{m, p};
            d.set_object(reinterpret_cast<dnmx_basic_object*>(uintptr_t(0x1122334455667780ull + 8 * op["n"].num())));
            if (d.buf != m || d.mixin != p) res = "9";
        }
        else if (o == "of" || o == "ofc") {
            const void* ob = o == "of" ? static_cast<const void*>(object_of(static_cast<void*>(p))) : static_cast<const void*>(object_of(static_cast<const void*>(p)));
            unsigned char b[sizeof(void*)];
            memcpy(b, &ob, sizeof b);
            res = list(std::vector<unsigned char>(b, b + sizeof b), [](int x) { return S(x); });
        }
        else exit(3);
        r += string(first ? "" : ",") + "{\"m\":" + list(std::vector<unsigned char>(m, m + n), [](int x) { return S(x); }) + ",\"r\":" + res + "}";
        first = false;
    }
    return r + "]";
}
static string size_json(const dnmx_mixin_info& i) {
    return "{\"size\":" + S(i.size) + ",\"align\":" + S(i.alignment) + ",\"buf\":" + S(i.obj_buf_size) + ",\"off\":" + S(i.obj_buf_alignment_and_mixin_offset) + "}";
}
static string order_case(const J& c, bool inC) {
    auto& is = c["i"];
    size_t n = is.size();
    std::vector<mixin_info> infos(n, dnmx_make_mixin_info());
    std::vector<string> names(n);
    for (size_t i = 0; i < n; ++i) {
        for (auto& b : is[i]["n"].a) names[i].push_back(char(b.num()));
        infos[i].order_priority = is[i]["p"].num();
        infos[i].id.i = dnmx_id_int_t(is[i]["id"].i);
        infos[i].name = dnmx_sv::from_std(names[i]);
    }
    string r = "[";
    for (size_t i = 0; i < n; ++i) {
        r += i ? ",[" : "[";
        for (size_t j = 0; j < n; ++j) r += string(j ? "," : "") + S(inC ? c_order(&infos[i], &infos[j]) : dnmx_mixin_canonical_order(&infos[i], &infos[j]));
        r += "]";
    }
    return r + "]";
}
static string blank(const dnmx_mixin_info& i, bool registered) {
    int k[8];
    c_kinds(&i, k);
    return "{\"id\":" + S(int32_t(i.id.i)) + ",\"reg\":" + S(registered) + ",\"dom\":" + S(!!i.dom) + ",\"name\":\"" + string(i.name.begin, i.name.end) + "\",\"s\":" + size_json(i) +
        ",\"f\":" + list(std::vector<int>(k, k + 8), [](int x) { return S(x); }) + ",\"rest\":" +
        S(!i.allocator && !i.mixin_class && !i.type_info_class && !i.user_data && !i.features && !i.num_features && !i.order_priority && !i.force_external && !i.dependency) + ",\"ext\":" + S(i.external()) + "}";
}
static string fixed() {
    string r = "{\"blank\":[" + blank(dnmx_make_mixin_info(), dnmx_make_mixin_info().registered());
    r += "," + blank(c_make(), c_make().registered());
    common_mixin_info m; r += "," + blank(m, m.registered()); r += "],\"named\":[";
    common_mixin_info n1(dnmx_make_sv_lit("na\0me")), n2(std::string_view("other"));
    r += S(n1.name.to_std() == std::string_view("na\0me", 5)) + "," + S(n2.name.to_std() == "other");
    auto f = dnmx_make_feature_info(), g = c_make_f();
    common_feature_info h, h2(dnmx_make_sv_lit("feat"), true, &r), h3(dnmx_make_sv_lit("feat3"));
    auto fj = [&](const dnmx_feature_info& x) {
        return "[" + S(int32_t(x.id.i)) + ",\"" + string(x.name.to_std()) + "\"," + S(x.allow_clashes) + "," + S(x.default_payload == &r ? 2 : !!x.default_payload) + "," + S(x.feature_class) + "]";
    };
    r += "],\"features\":[" + fj(f) + "," + fj(g) + "," + fj(h) + "," + fj(h2) + "," + fj(h3);
    r += "],\"macros\":[";
    dnmx_mixin_info i; dnmx_byte_size_t s, a;
    for (int k = 0; c_macro(k, &i, &s, &a); ++k)
        r += string(k ? "," : "") + "{\"i\":" + blank(i, i.registered()) + ",\"name\":\"" + c_macro_names[k] + "\",\"size\":" + S(s) + ",\"align\":" + S(a) + "}";
    r += "],\"invalid\":[" + S(invalid_mixin_id.i) + "," + S(invalid_feature_id.i) + "," + S(invalid_mixin_index) + "," + S(c_invalid(0)) + "," + S(c_invalid(1)) + "," + S(sizeof_ptr) + "]";
    alignas(Listy) char b[sizeof(Listy)];
    auto& L = *reinterpret_cast<Listy*>(b);
    r += ",\"parentheses\":[";
    impl::make_from_tuple<Listy>(b, std::make_tuple(1, 2)); r += S(L.how);
    impl::make_from_tuple<Listy>(b, std::make_tuple(1)); r += "," + S(L.how);
    impl::make_from_tuple<Listy>(b, std::tuple<>()); r += "," + S(L.how);
    impl::make_from_tuple<Listy>(b, std::make_pair(1, 2)); r += "," + S(L.how);
    return r + "]}";
}
int main() {
    regs();
    std::cout << fixed() << std::endl;
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J c = parseJson(line);
        string k = c["k"].s, r;
        if (k == "mul") r = list(c["s"].a, [&](const J& s) { return S(util::next_multiple(byte_size_t(s.i), byte_size_t(c["n"].i))); });
        else if (k == "size") {
            string a = "", b = "", d = "";
            for (auto& s : c["s"].a) {
                mixin_info i = dnmx_make_mixin_info(), j = dnmx_make_mixin_info(), l = dnmx_make_mixin_info();
                i.set_size_alignment(byte_size_t(s.i), byte_size_t(c["a"].i));
                dnmx_set_mixin_info_size_and_alignment(&j, byte_size_t(s.i), byte_size_t(c["a"].i));
                c_set_size(&l, byte_size_t(s.i), byte_size_t(c["a"].i));
                const char* z = a.empty() ? "" : ",";
                a += z + size_json(i); b += z + size_json(j); d += z + size_json(l);
            }
            r = "[[" + a + "],[" + b + "],[" + d + "]]";
        }
        else if (k == "order") r = "[" + order_case(c, false) + "," + order_case(c, true) + "]";
        else if (k == "mem") r = mem_case(c);
        else if (k == "ids") {
            auto& v = c["v"].a;
            string x[4];
            for (int q = 0; q < 4; ++q) {
                x[q] = "[";
                for (size_t i = 0; i < v.size(); ++i) {
                    x[q] += i ? ",[" : "[";
                    for (size_t j = 0; j < v.size(); ++j) {
                        dnmx_id_int_t a = dnmx_id_int_t(v[i].i), b = dnmx_id_int_t(v[j].i);
                        int e = q == 0 ? mixin_id{a} == mixin_id{b} : q == 1 ? !(mixin_id{a} != mixin_id{b}) : q == 2 ? feature_id{a} == feature_id{b} : !(feature_id{a} != feature_id{b});
                        x[q] += string(j ? "," : "") + S(e);
                    }
                    x[q] += "]";
                }
                x[q] += "]";
            }
            r = "[" + x[0] + "," + x[1] + "," + x[2] + "," + x[3] + "]";
        }
        else if (k == "args") {
            r = "[";
            for (size_t i = 0; i < c["l"].size(); ++i) {
                string key;
                for (auto& x : c["l"][i].a) key += x.s == "cv" ? 'V' : x.s == "cl" ? 'L' : x.s[0];
                auto& t = c["w"][i].s;
                auto& tab = t == "add" || t == "construct" ? g_ops : g_tuples;
                auto f = tab.find(key);
                if (f == tab.end()) { fprintf(stderr, "no such list of arguments: %s\n", key.c_str()); return 3; }
                r += (i ? "," : "") + f->second(t);
            }
            r += "]";
        }
        std::cout << "{\"got\":" << r << "}" << std::endl;
    }
}
