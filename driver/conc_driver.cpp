// Runs small programs of several threads on one domain (see spec/Conc.tla).
//
// Controlled mode: the threads run one at a time. Whoever is about to take a lock, gives one back,
// allocates, is in a rule or between two operations lets a scheduler decide who goes on. All schedules with
// up to a number of preemptions are run, then some random ones. What the threads called and what they
// got back, in order, is reported as a tree of histories, one program per line.
// The locks are those of pthreads, whatever the library makes of them.
//
// Free mode (FREE): real threads and locks, many rounds, for ThreadSanitizer; only the final state is judged.
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <sstream>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/msg_traits.hpp>
#include <dynamix/msg/msg_caller.hpp>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dnmx/domain.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/object.h>

#include "json.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <thread>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#if DYNAMIX_HAS_PMR
#include <memory_resource>
using MemRes = std::pmr::memory_resource;
#else
using MemRes = dynamix::compat::pmr::memory_resource;
#endif

namespace dmx = dynamix;
using dmx::mixin_info;
using std::string;
using std::vector;

static const J* g_prog;

// ---------------------------------------------------------------------- the scheduler
static constexpr int MaxT = 4;
static thread_local int t_self = -1;      // number of the thread, -1: not one of ours
static thread_local bool t_inside = false; // in the code under test

#ifndef FREE
struct Lock { int readers = 0; int writer = -1; int wwait = 0; };
struct Sched {
    struct Th { sem_t sem; int st = 0; const void* on = nullptr; } th[MaxT]; // st: 0 ready, 1 blocked, 2 done
    int n = 0, cur = -1;
    sem_t home;
    std::map<const void*, Lock> locks;
    vector<int> plan;  // choices to be made, then the default
    struct Dec { int mask; int chosen; int cur; };
    vector<Dec> made;
    bool random = false;
    unsigned switchPct = 30;
    std::mt19937 rng{1};
    bool yRel = false, yAlloc = false, writerFirst = false;
    bool dead = false;
    Sched() { for (auto& t : th) sem_init(&t.sem, 0, 0); sem_init(&home, 0, 0); }

    // who goes on; self may be blocked or done
    int pick(int self) {
        int mask = 0, cnt = 0, first = -1;
        for (int i = 0; i < n; ++i) if (th[i].st == 0) { mask |= 1 << i; ++cnt; if (first < 0) first = i; }
        if (!cnt) return -1;
        bool can = self >= 0 && (mask >> self & 1);
        int def = can ? self : first;
        if (cnt == 1) return first;
        int c = def;
        if (made.size() < plan.size()) { c = plan[made.size()]; if (!(mask >> c & 1)) c = def; }
        else if (random && (!can || rng() % 100 < switchPct)) {
            int k = int(rng() % unsigned(cnt));
            for (int i = 0; i < n; ++i) if (mask >> i & 1 && k-- == 0) c = i;
        }
        made.push_back({mask, c, can ? self : -1});
        return c;
    }
    void transfer(int self) {
        int c = pick(self);
        if (c == self) return;
        const bool over = th[self].st == 2; // (the next execution may begin as soon as another thread goes on)
        if (c < 0) {
            bool all = true;
            for (int i = 0; i < n; ++i) if (th[i].st != 2) all = false;
            if (!all) dead = true;
            sem_post(&home);
            if (all) return;
        }
        else { cur = c; sem_post(&th[c].sem); }
        if (!over) wait(self);
    }
    void wait(int self) { while (sem_wait(&th[self].sem) != 0) {} }
    void yield() { transfer(t_self); }
    void block(const void* on) { th[t_self].st = 1; th[t_self].on = on; transfer(t_self); }
    void wake(const void* on) { for (int i = 0; i < n; ++i) if (th[i].st == 1 && th[i].on == on) { th[i].st = 0; th[i].on = nullptr; } }

    // no memory may be allocated by a map while the code under test holds a lock it allocates under: it does not matter here
    void rd(const void* l) {
        yield();
        while (true) {
            auto& k = locks[l];
            if (k.writer < 0 && !(writerFirst && k.wwait)) { ++k.readers; return; }
            block(l);
        }
    }
    void wr(const void* l) {
        yield();
        bool waited = false;
        while (true) {
            auto& k = locks[l];
            if (k.writer < 0 && !k.readers) { k.writer = t_self; if (waited) --k.wwait; return; }
            if (!waited) { ++k.wwait; waited = true; }
            block(l);
        }
    }
    int tryrd(const void* l) {
        yield();
        auto& k = locks[l];
        if (k.writer >= 0) return EBUSY;
        ++k.readers;
        return 0;
    }
    int trywr(const void* l) {
        yield();
        auto& k = locks[l];
        if (k.writer >= 0 || k.readers) return EBUSY;
        k.writer = t_self;
        return 0;
    }
    void un(const void* l) {
        auto& k = locks[l];
        if (k.writer == t_self) k.writer = -1;
        else if (k.readers) --k.readers;
        wake(l);
        if (k.writer < 0 && !k.readers && !k.wwait) locks.erase(l);
        if (yRel) yield();
    }
};
static Sched g_s;

struct Inside { // guards against the scheduler being entered by itself
    bool was;
    Inside() : was(t_inside) { t_inside = false; }
    ~Inside() { t_inside = was; }
};
template <typename F> static F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define MANAGED (t_inside && t_self >= 0)
#define REAL1(name, T) static auto f = real<int (*)(T*)>(#name); return f(l)
#define REAL2(name, T) static auto f = real<int (*)(T*, const struct timespec*)>(#name); return f(l, ts)
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (MANAGED) { Inside i; g_s.rd(l); return 0; } REAL1(pthread_rwlock_rdlock, pthread_rwlock_t); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (MANAGED) { Inside i; g_s.wr(l); return 0; } REAL1(pthread_rwlock_wrlock, pthread_rwlock_t); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (MANAGED) { Inside i; return g_s.tryrd(l); } REAL1(pthread_rwlock_tryrdlock, pthread_rwlock_t); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (MANAGED) { Inside i; return g_s.trywr(l); } REAL1(pthread_rwlock_trywrlock, pthread_rwlock_t); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { if (MANAGED) { Inside i; g_s.rd(l); return 0; } REAL2(pthread_rwlock_timedrdlock, pthread_rwlock_t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { if (MANAGED) { Inside i; g_s.wr(l); return 0; } REAL2(pthread_rwlock_timedwrlock, pthread_rwlock_t); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (MANAGED) { Inside i; g_s.un(l); return 0; } REAL1(pthread_rwlock_unlock, pthread_rwlock_t); }
int pthread_mutex_lock(pthread_mutex_t* l) { if (MANAGED) { Inside i; g_s.wr(l); return 0; } REAL1(pthread_mutex_lock, pthread_mutex_t); }
int pthread_mutex_trylock(pthread_mutex_t* l) { if (MANAGED) { Inside i; return g_s.trywr(l); } REAL1(pthread_mutex_trylock, pthread_mutex_t); }
int pthread_mutex_unlock(pthread_mutex_t* l) { if (MANAGED) { Inside i; g_s.un(l); return 0; } REAL1(pthread_mutex_unlock, pthread_mutex_t); }
// yielding and spinning count as giving up the turn
int sched_yield() { if (MANAGED) { Inside i; g_s.yield(); } return 0; }
}
static void pointHere() { if (MANAGED) { Inside i; g_s.yield(); } }
static bool g_yAlloc;
static void pointAlloc() { if (g_yAlloc) pointHere(); }
#else
static void pointHere() { if (t_self >= 0) std::this_thread::yield(); }
static void pointAlloc() {}
#endif

// ---------------------------------------------------------------------- universe
struct Res : public MemRes {
    void* do_allocate(size_t s, size_t a) override { pointAlloc(); return ::operator new(s, std::align_val_t(a)); }
    void do_deallocate(void* p, size_t s, size_t a) override { pointAlloc(); ::operator delete(p, s, std::align_val_t(a)); }
    bool do_is_equal(const MemRes& o) const noexcept override { return this == &o; }
};
static Res g_res;

static dnmx_error_return_t cbInit(const mixin_info* i, void* p) { memset(p, 7, i->size); return 0; }
static dnmx_error_return_t cbCopy(const mixin_info* i, void* p, const void* s) { memcpy(p, s, i->size); return 0; }
static void cbMove(const mixin_info* i, void* p, void* s) noexcept { memcpy(p, s, i->size); }
static void cbDestroy(const mixin_info* i, void* p) noexcept { memset(p, 9, i->size); }
static bool cbEq(const mixin_info* i, const void* a, const void* b) noexcept { return memcmp(a, b, i->size) == 0; }
static int cbCmp(const mixin_info* i, const void* a, const void* b) noexcept { return memcmp(a, b, i->size); }

// the first two features are messages
DYNAMIX_DECLARE_SIMPLE_MSG(MsgA, int(const dmx::object&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(MsgB, int(const dmx::object&, int));
DYNAMIX_DEFINE_SIMPLE_MSG(MsgA, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(MsgB, multicast);
static int implMsg(const void* self, int a) { return dmx::object_of(self) ? a + 1 : -1; }
static dnmx_feature_payload implPl() { int (*f)(const void*, int) = implMsg; return reinterpret_cast<dnmx_feature_payload>(f); }

template <int I> static bool tcMatch(dnmx_type_handle) noexcept { return true; }

static dnmx_error_return_t applyRule(dnmx_type_mutation_handle h, uintptr_t ud);

// everything of one run
struct Run {
    const J& p;
    const J& u;
    vector<string> names;
    std::unique_ptr<mixin_info[]> M;
    std::unique_ptr<dmx::feature_info[]> ownF;
    vector<dmx::feature_info*> F;
    int ofF(const dmx::feature_info* f) const { for (size_t i = 1; i < F.size(); ++i) if (F[i] == f) return int(i); return 0; }
    std::unique_ptr<dnmx_mutation_rule_info[]> R;
    std::unique_ptr<dnmx_type_class[]> T;
    vector<vector<dnmx_feature_for_mixin>> mf;
    int nm, nf, nr, nt;
    std::unique_ptr<dmx::domain> dom;
    struct Slot { alignas(dmx::object) char b[sizeof(dmx::object)]; bool live = false; };
    vector<Slot> ob;
    static dnmx_sv sv(const string& s) { return dnmx_make_sv_len(s.data(), s.size()); }
    explicit Run(const J& prog) : p(prog), u(prog["u"]) {
        char buf[16];
        names.push_back("");
        for (int i = 1; i < u["names"].num(); ++i) { snprintf(buf, sizeof buf, "n%03d", i); names.push_back(buf); }
        nm = int(u["mixs"].size()); nf = int(u["feats"].size()); nr = int(u["rules"].size()); nt = int(u["tcs"].size());
        M.reset(new mixin_info[nm + 1]); ownF.reset(new dmx::feature_info[nf + 1]); F.resize(nf + 1); R.reset(new dnmx_mutation_rule_info[nr + 1]); T.reset(new dnmx_type_class[nt + 1]);
        mf.resize(nm + 1);
        for (int f = 1; f <= nf; ++f) {
            auto& x = u["feats"][f - 1];
            F[f] = f == 1 ? const_cast<dmx::common_feature_info*>(&MsgA::get_info_safe()) : f == 2 ? const_cast<dmx::common_feature_info*>(&MsgB::get_info_safe()) : static_cast<dmx::feature_info*>(&ownF[f]);
            static_cast<dnmx_feature_info&>(*F[f]) = dnmx_make_feature_info();
            F[f]->name = sv(names[x["n"].num()]);
            F[f]->allow_clashes = x["cl"].b();
        }
        for (int m = 1; m <= nm; ++m) {
            auto& x = u["mixs"][m - 1];
            auto& i = M[m];
            i = dnmx_make_mixin_info();
            i.name = sv(names[x["n"].num()]);
            i.set_size_alignment(x["sz"].num(), x["ag"].num());
            i.init = cbInit; i.copy_init = cbCopy; i.copy_asgn = cbCopy; i.move_init = cbMove; i.move_asgn = cbMove; i.destroy = cbDestroy; i.equals = cbEq; i.compare = cbCmp;
            i.force_external = x["fe"].b();
            i.dependency = x["dep"].b();
            i.order_priority = x["p"].num();
            i.user_data = m;
            for (auto& f : x["fs"].a) mf[m].push_back({F[f["f"].num()], f["f"].num() < 3 ? implPl() : reinterpret_cast<dnmx_feature_payload>(F[f["f"].num()]), f["b"].num(), f["p"].num()});
            i.set_features(mf[m]);
        }
        for (int r = 1; r <= nr; ++r) {
            auto& x = u["rules"][r - 1];
            R[r] = {sv(names[x["n"].num()]), x["k"].s == "null" ? nullptr : applyRule, reinterpret_cast<uintptr_t>(&rud[r]), x["p"].num()};
            rud[r] = {this, r};
        }
        static const dnmx_type_class_match_func ms[] = {nullptr, tcMatch<1>, tcMatch<2>, tcMatch<3>, tcMatch<4>, tcMatch<5>};
        for (int t = 1; t <= nt; ++t) T[t] = {sv(names[u["tcs"][t - 1]["n"].num()]), ms[t]};
        dmx::domain_settings s{};
        s.canonicalize_types = u["canon"][0].b();
        s.allow_duplicate_mixin_names = u["dupM"][0].b();
        s.allow_duplicate_feature_names = u["dupF"][0].b();
        dom.reset(new dmx::domain("conc", s, 0, nullptr, dmx::allocator(&g_res)));
        ob.resize(size_t(prog["nob"].num()) + 1);
    }
    ~Run() { for (size_t o = 0; o < ob.size(); ++o) if (ob[o].live) O(int(o)).~object(); }
    dmx::object& O(int o) { return *reinterpret_cast<dmx::object*>(ob[o].b); }
    struct Rud { Run* run; int r; };
    Rud rud[10];

    // addresses of types, numbered as they come along
    std::map<const void*, int> addr;
int addrOf(const void* p) { auto i = addr.emplace(p, int(addr.size()) + 1); return i.first->second; }

    string filled(string x, const void* ptr) {
        auto at = x.find('@');
        return at == string::npos ? x : x.replace(at, 1, std::to_string(addrOf(ptr)));
    }

    const dmx::type& type(const J& ms, int via) {
        vector<const mixin_info*> l;
        for (auto& m : ms.a) l.push_back(&M[m.num()]);
        if (via == 0) return dom->get_type(itlib::span<const mixin_info* const>(l.data(), l.size()));
        if (via == 1) {
            dmx::type_mutation mut(*dom);
            for (auto m : l) mut.add(*m);
            return dom->get_type(std::move(mut));
        }
        auto h = dnmx_create_type_mutation_empty(dom->to_c_hanlde());
        for (auto m : l) dnmx_type_mutation_add(h, m);
        auto t = dnmx_get_type(dom->to_c_hanlde(), &h);
        if (!t) throw dmx::domain_error("no type");
        return *dmx::type::from_c_handle(t);
    }
    string msOf(const dmx::type& t) {
        string s = "[";
        for (auto m : t.mixins) { if (s.size() > 1) s += ","; s += std::to_string(m->user_data); }
        return s + "]";
    }

    // performs an operation, returns what came of it as JSON; @ stands for the address put into ptr
    string exec(const J& op, const void*& ptr) {
        auto& o = op["o"].s;
        auto n = [&](const char* k) { return op[k].num(); };
        auto S = [](long v) { return std::to_string(v); };
        string ok = "[\"ok\"]";
        auto in = [&](auto f) { t_inside = true; struct Out { ~Out() { t_inside = false; } } out; return f(); };
        try {
            if (o == "get") {
                auto& t = *in([&] { return &type(op["ms"], n("via")); });
                ptr = &t;
                return "[\"ok\"," + msOf(t) + ",@]";
            }
            if (o == "addR") { in([&] { dom->add_mutation_rule(R[n("r")]); return 0; }); return ok; }
            if (o == "remR") { in([&] { dom->remove_mutation_rule(R[n("r")]); return 0; }); return ok; }
            if (o == "regM") { in([&] { dom->register_mixin(M[n("m")]); return 0; }); return "[\"ok\"," + S(M[n("m")].iid()) + "]"; }
            if (o == "unregM") { in([&] { dom->unregister_mixin(M[n("m")]); return 0; }); return ok; }
            if (o == "regF") { in([&] { dom->register_feature(*F[n("f")]); return 0; }); return "[\"ok\"," + S(F[n("f")]->iid()) + "]"; }
            if (o == "unregF") { in([&] { dom->unregister_feature(*F[n("f")]); return 0; }); return ok; }
            if (o == "regT") { in([&] { dom->register_type_class(T[n("t")]); return 0; }); return ok; }
            if (o == "unregT") { in([&] { dom->unregister_type_class(T[n("t")]); return 0; }); return ok; }
            if (o == "lookM") { auto i = in([&] { return dom->get_mixin_info(names[n("n")]); }); return "[" + S(i ? i - &M[0] : 0) + "]"; }
            if (o == "lookI") { auto i = in([&] { return dom->get_mixin_info(dmx::mixin_id{uint32_t(n("i"))}); }); return "[" + S(i ? i - &M[0] : 0) + "]"; }
            if (o == "lookF") { auto i = in([&] { return dom->get_feature_info(names[n("n")]); }); return "[" + S(ofF(i)) + "]"; }
            if (o == "lookJ") { auto i = in([&] { return dom->get_feature_info(dmx::feature_id{uint32_t(n("i"))}); }); return "[" + S(ofF(i)) + "]"; }
            if (o == "lookT") { auto i = in([&] { return dom->get_type_class(names[n("n")]); }); return "[" + S(i ? static_cast<const dnmx_type_class*>(i) - &T[0] : 0) + "]"; }
            if (o == "numT") return "[" + S(long(in([&] { return dom->num_types(); }))) + "]";
            if (o == "numR") return "[" + S(long(in([&] { return dom->num_mutation_rules(); }))) + "]";
            if (o == "gc") { in([&] { dom->garbage_collect_types(); return 0; }); return ok; }
            if (o == "mk") {
                in([&] { new (ob[n("ob")].b) dmx::object(type(op["ms"], n("via"))); return 0; });
                ob[n("ob")].live = true;
                return ok;
            }
            if ((o == "del" || o == "mut" || o == "clr") && !ob[n("ob")].live) return "[\"err\"]";
            if (o == "del") { ob[n("ob")].live = false; in([&] { O(n("ob")).~object(); return 0; }); return ok; }
            if (o == "mut") { in([&] { O(n("ob")).reset_type(type(op["ms"], n("via"))); return 0; }); return ok; }
            if (o == "clr") { in([&] { O(n("ob")).clear(); return 0; }); return ok; }
            if (o == "churn") { // objects which come, change and go
                in([&] {
                    auto &a = type(op["ms"], n("via")), &b = type(op["ms2"], 0);
                    for (int i = 0; i < n("n"); ++i) { dmx::object x(a); x.reset_type(b); }
                    return 0;
                });
                return ok;
            }
            if (o == "use") { // an object shared by all threads, which only look at it, and copies of it; the last mixin and feature are not for looking at
                string wrong;
                if (!ob[n("ob")].live) return ok;
                in([&] {
                    const dmx::object& x = O(n("ob"));
                    for (int i = 0; i < n("n"); ++i) {
                        dmx::object c = x.copy();
                        if (!c.equals(x) || c.compare(x) != 0) wrong = "copies";
                        dmx::object d(std::move(c));
                        if (&d.get_type() != &x.get_type() || !c.empty()) wrong = "moves";
                        auto& t = x.get_type();
                        for (int m = 1; m < nm; ++m) {
                            auto& info = M[m];
                            if (info.id == dmx::invalid_mixin_id) continue;
                            auto ix = t.index_of(info.name.to_std());
                            if ((ix == dmx::invalid_mixin_index) != !x.has(info) || (x.get(info) != nullptr) != x.has(info.name.to_std())) wrong = "queries";
                            for (int f = 1; f < nf; ++f) {
                                if (F[f]->id == dmx::invalid_feature_id) continue;
                                auto strong = t.implements_strong(*F[f]);
                                if (strong != t.implements_strong(F[f]->name.to_std())) wrong = "features";
                                if (strong && x.has(info)) t.find_next_implementer(*F[f], info);
                            }
                        }
                        if (nf > 1 && t.implements_strong(MsgA::info) && MsgA::call(x, i) != i + 1) wrong = "messages";
                        if (nf > 2 && t.implements_strong(MsgB::info)) MsgB::call(d, i);
                        dmx::domain own("own", {}, 0, nullptr, dmx::allocator());
                        mixin_info mi = dnmx_make_mixin_info();
                        mi.name = dnmx_make_sv_lit("own");
                        mi.set_size_alignment(4, 4);
                        mi.init = cbInit; mi.move_init = cbMove; mi.destroy = cbDestroy;
                        own.register_mixin(mi);
                        const mixin_info* l[] = {&mi};
                        { dmx::object y(own.get_type(itlib::span<const mixin_info* const>(l, 1))); if (y.num_mixins() != 1 || mi.id.i != 0) wrong = "domains"; }
                        own.unregister_mixin(mi);
                    }
                    return 0;
                });
                return wrong.empty() ? ok : "[\"" + wrong + "\"]";
            }
            if (o == "churnR") { in([&] { for (int i = 0; i < n("n"); ++i) { dom->add_mutation_rule(R[n("r")]); dom->remove_mutation_rule(R[n("r")]); } return 0; }); return ok; }
            if (o == "churnM") { in([&] { for (int i = 0; i < n("n"); ++i) { dom->register_mixin(M[n("m")]); dom->unregister_mixin(M[n("m")]); } return 0; }); return ok; }
            if (o == "churnF") { in([&] { for (int i = 0; i < n("n"); ++i) { dom->register_feature(*F[n("f")]); dom->unregister_feature(*F[n("f")]); } return 0; }); return ok; }
            if (o == "churnT") { in([&] { for (int i = 0; i < n("n"); ++i) { dom->register_type_class(T[n("t")]); dom->unregister_type_class(T[n("t")]); } return 0; }); return ok; }
            if (o == "churnL") { // looking around, while others come and go
                in([&] {
                    for (int i = 0; i < n("n"); ++i) {
                        for (int k = 0; k < nt; ++k) dom->get_type_class(names[u["tcs"][k]["n"].num()]);
                        for (int k = 0; k < nm; ++k) { dom->get_mixin_info(names[u["mixs"][k]["n"].num()]); dom->get_mixin_info(dmx::mixin_id{uint32_t(k)}); }
                        for (int k = 0; k < nf; ++k) { dom->get_feature_info(names[u["feats"][k]["n"].num()]); dom->get_feature_info(dmx::feature_id{uint32_t(k)}); }
                        trav();
                    }
                    return 0;
                });
                return ok;
            }
            if (o == "cnt") return "[" + S(long(in([&] { auto& t = type(op["ms"], n("via")); return t.num_mixins() ? t.num_objects() : 0; }))) + "]";
            if (o == "trav") return trav();
            if (o == "dmp") {
                std::ostringstream out;
                in([&] { dmx::util::dbg_dmp(out, *dom); return 0; });
                // how many of each kind there are, and as many entries
                long told[5] = {-1, -1, -1, -1, -1}, seen[5] = {};
                static const char* const heads[] = {" Features", " Mixins", " Mutation Rules", " Types", " Type Classes"};
                static const char* const starts[] = {"feature: ", "mixin: ", "rule: ", "type: ", "type class: "};
                std::istringstream lines(out.str());
                for (string l; std::getline(lines, l);) {
                    if (l.compare(0, 4, "dep-") == 0) l.erase(0, 4);
                    for (int i = 0; i < 5; ++i) {
                        if (l.compare(0, 3, "## ") == 0 && l.find(" ", 3) != string::npos && l.substr(l.find(" ", 3)) == heads[i]) told[i] = std::stol(l.substr(3));
                        if (l.compare(0, strlen(starts[i]), starts[i]) == 0) ++seen[i];
                    }
                }
                string s = "[";
                for (int i = 0; i < 5; ++i) { if (i) s += ","; s += S(told[i] == seen[i] ? told[i] : -1 - told[i]); }
                return s + "]";
            }
            fprintf(stderr, "driver: unknown operation %s\n", o.c_str());
            _exit(3);
        }
        catch (std::exception&) { return o == "get" ? "[\"err\",[],0]" : "[\"err\"]"; }
    }
    string trav() {
        vector<string> ms, fs, rs, ty, qs, tc;
        auto join = [](const vector<string>& v) { string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += x; } return s + "]"; };
        t_inside = true;
        {
            dmx::domain_traverse tr(*dom);
            t_inside = false;
            tr.traverse_mixins([&](const mixin_info& m) { ms.push_back(std::to_string(m.user_data)); });
            tr.traverse_features([&](const dmx::feature_info& f) { fs.push_back(std::to_string(ofF(&f))); });
            tr.traverse_type_classes([&](const dnmx_type_class& t) { tc.push_back(std::to_string(&t - &T[0])); });
            tr.traverse_mutation_rules([&](const dmx::mutation_rule_info& r, uint32_t c) {
                if (&r >= &R[0] && &r <= &R[nr]) rs.push_back("[" + std::to_string(&r - &R[0]) + "," + std::to_string(c) + "]");
            });
            tr.traverse_types([&](const dmx::type& t) { if (t.num_mixins()) ty.push_back("[" + msOf(t) + "," + std::to_string(t.num_objects()) + "]"); });
            tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const dmx::type& t) {
                string s = "[";
                for (auto m : q) { if (s.size() > 1) s += ","; s += std::to_string(m->user_data); }
                qs.push_back("[" + s + "]," + msOf(t) + "]");
            });
            t_inside = true;
        }
        t_inside = false;
        std::sort(ty.begin(), ty.end()); std::sort(qs.begin(), qs.end());
        return "[" + join(ms) + "," + join(fs) + "," + join(tc) + "," + join(rs) + "," + join(ty) + "," + join(qs) + "]";
    }
};

static dnmx_error_return_t applyRule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& ru = *reinterpret_cast<Run::Rud*>(ud);
    auto& run = *ru.run;
    auto& mut = *dmx::type_mutation::from_c_handle(h);
    auto& r = run.u["rules"][ru.r - 1];
    auto& k = r["k"].s;
    auto inf = [&](const char* x) -> const mixin_info& { return run.M[r[x].num()]; };
    pointHere();
    // rules may look up elements
    run.dom->get_mixin_info(run.names[run.u["mixs"][r["a"].num() - 1]["n"].num()]);
    if (k == "addif") { if (mut.has(inf("a"))) mut.add_if_lacking(inf("b")); }
    else if (k == "add") mut.add_if_lacking(inf("a"));
    else if (k == "rem") mut.remove(inf("a"));
    else if (k == "back") { if (mut.has(inf("a"))) mut.to_back(inf("a")); }
    else if (k == "sub") { for (auto& m : mut.mixins) if (m == &inf("a")) m = &inf("b"); }
    else if (k == "tog") { if (!mut.remove(inf("a"))) mut.add(inf("a")); }
    else if (k == "err") { if (mut.has(inf("a"))) return 5; }
    return 0;
}

struct Trie {
    vector<int> par{0};
    vector<string> ev{""};
    std::map<std::pair<int, string>, int> kid;
    int go(int at, const string& e) {
        auto i = kid.emplace(std::make_pair(at, e), int(par.size()));
        if (i.second) { par.push_back(at); ev.push_back(e); }
        return i.first->second;
    }
};
static void printTrie(const Trie& tr, const char* end, int runs, bool all, const string& plan) {
    printf("{\"end\":\"%s\",\"runs\":%d,\"all\":%d,\"plan\":%s,\"par\":[", end, runs, int(all), plan.c_str());
    for (size_t i = 0; i < tr.par.size(); ++i) printf("%s%d", i ? "," : "", tr.par[i] + 1);
    printf("],\"ev\":[");
    for (size_t i = 0; i < tr.ev.size(); ++i) printf("%s%s", i ? "," : "", tr.ev[i].empty() ? "[]" : tr.ev[i].c_str());
    printf("]}\n");
    fflush(stdout);
}

// ---------------------------------------------------------------------- controlled mode
#ifndef FREE
static Trie* g_trie;
static int g_at;
static Run* g_run;
static void event(const string& e) { g_at = g_trie->go(g_at, e); }

static void perform(int t, const J& ops) { // t: 0 is the main thread
    for (size_t i = 0; i < ops.size(); ++i) {
        if (t_self >= 0) g_s.yield();
        event("[\"c\"," + std::to_string(t) + "," + std::to_string(i + 1) + "]");
        const void* ptr = nullptr;
        auto x = g_run->exec(ops[i], ptr);
        event("[\"r\"," + std::to_string(t) + "," + g_run->filled(x, ptr) + "]");
    }
}
static sem_t g_start[MaxT];
static bool g_quit;
static void worker(int t) {
    t_self = t;
    while (true) {
        while (sem_wait(&g_start[t]) != 0) {}
        if (g_quit) return;
        g_s.wait(t);
        perform(t + 1, (*g_prog)["th"][t]);
        g_s.th[t].st = 2;
        g_s.transfer(t);
    }
}
static string planOf(const vector<Sched::Dec>& made) {
    string s = "[";
    for (auto& d : made) { if (s.size() > 1) s += ","; s += std::to_string(d.chosen); }
    return s + "]";
}
static Trie g_trieNow;
static vector<std::thread> g_threads;
static string g_last = "[]";

// one execution; false when it came to a deadlock
static bool once(const J& prog) {
    g_at = 0;
    auto run = std::make_unique<Run>(prog);
    g_run = run.get();
    t_self = -1;
    perform(0, prog["setup"]);
    g_s.n = int(prog["th"].size());
    g_s.made.clear(); g_s.locks.clear(); g_s.dead = false;
    for (int i = 0; i < g_s.n; ++i) { g_s.th[i].st = 0; g_s.th[i].on = nullptr; sem_post(&g_start[i]); }
    {
        int c = g_s.pick(-1);
        sem_post(&g_s.th[c].sem);
    }
    while (sem_wait(&g_s.home) != 0) {}
    if (g_s.dead) return false;
    {
        // what is left
        event("[\"c\",0,0]");
        event("[\"r\",0," + run->trav() + "]");
    }
    g_run = nullptr;
    return true;
}
static void onAlarm(int) {
    static const char t[] = "conc_driver: no progress\n";
    (void)!write(2, t, sizeof t - 1);
    _exit(4);
}
int main(int argc, char** argv) {
    (void)argc; (void)argv;
    signal(SIGALRM, onAlarm);
    for (auto& s : g_start) sem_init(&s, 0, 0);
    for (int i = 0; i < MaxT; ++i) g_threads.emplace_back(worker, i);
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J prog = JParser{line.data(), line.data() + line.size()}.val();
        g_prog = &prog;
        g_trieNow = Trie();
        g_trie = &g_trieNow;
        alarm(240);
        g_s.yRel = prog["yrel"].b(); g_yAlloc = prog["yalloc"].b(); g_s.writerFirst = prog["wfirst"].b();
        const int bound = prog["bound"].num(), maxRuns = prog["max"].num(), rnd = prog["rnd"].num();
        g_s.rng.seed(unsigned(prog["seed"].num()));
        g_s.random = false;
        int runs = 0;
        bool all = true, alive = true;
        // depth first over all schedules with up to bound preemptions
        vector<vector<int>> todo;
        if (prog.has("plan")) { // a given schedule only
            vector<int> pl; for (auto& x : prog["plan"].a) pl.push_back(x.num());
            todo.push_back(pl);
        }
        else todo.push_back({});
        while (!todo.empty() && alive) {
            if (runs >= maxRuns) { all = false; break; }
            // mostly depth first; from a random place when not all of them can be run
            g_s.plan = std::move(todo.back());
            todo.pop_back();
            auto from = g_s.plan.size();
            alive = once(prog);
            ++runs;
            if (prog.has("plan")) break;
            auto& made = g_s.made;
            int pre = 0;
            for (size_t i = 0; i < made.size(); ++i) {
                auto& d = made[i];
                if (i >= from) {
                    for (int c = 0; c < g_s.n; ++c) {
                        if (c == d.chosen || !(d.mask >> c & 1)) continue;
                        if (d.cur >= 0 && c != d.cur && pre + 1 > bound) continue;
                        vector<int> pl;
                        for (size_t k = 0; k < i; ++k) pl.push_back(made[k].chosen);
                        pl.push_back(c);
                        todo.push_back(std::move(pl));
                    }
                }
                if (d.cur >= 0 && d.chosen != d.cur) ++pre;
            }
            if (todo.size() > 1) { // spread
                auto k = g_s.rng() % todo.size();
                std::swap(todo[k], todo.back());
            }
        }
        g_s.random = true;
        g_s.plan.clear();
        for (int i = 0; i < rnd && alive && !all; ++i) {
            g_s.switchPct = 10 + (g_s.rng() % 60);
            alive = once(prog);
            ++runs;
        }
        printTrie(g_trieNow, alive ? "ok" : "deadlock", runs, all, alive ? "[]" : planOf(g_s.made));
        if (!alive) _exit(0); // the threads cannot be brought to an end
    }
    g_quit = true;
    for (auto& s : g_start) sem_post(&s);
    for (auto& t : g_threads) t.join();
}
#else
// ---------------------------------------------------------------------- free mode
// events are stamped by a relaxed counter, which orders nothing else
static std::atomic<int> g_ready, g_stamp;
struct Stamped { int at; string text; const void* ptr; };
static void perform(Run& run, int t, const J& ops, int n, vector<Stamped>& log) {
    t_self = t ? t - 1 : -1;
    log.reserve(ops.size() * 2);
    if (t) {
        g_ready.fetch_add(1, std::memory_order_relaxed);
        while (g_ready.load(std::memory_order_relaxed) < n) {}
    }
    for (size_t i = 0; i < ops.size(); ++i) {
        const void* ptr = nullptr;
        log.push_back({g_stamp.fetch_add(1, std::memory_order_relaxed), "[\"c\"," + std::to_string(t) + "," + std::to_string(i + 1) + "]", nullptr});
        auto x = run.exec(ops[i], ptr);
        int at = g_stamp.fetch_add(1, std::memory_order_relaxed);
        log.push_back({at, "[\"r\"," + std::to_string(t) + "," + x + "]", ptr});
    }
    t_self = -1;
}
int main() {
    string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J prog = JParser{line.data(), line.data() + line.size()}.val();
        g_prog = &prog;
        alarm(240);
        Trie trie;
        int n = int(prog["th"].size()), runs = prog["rounds"].num();
        for (int k = 0; k < runs; ++k) {
            Run run(prog);
            g_ready = 0; g_stamp = 0;
            vector<vector<Stamped>> logs(size_t(n) + 1);
            perform(run, 0, prog["setup"], n, logs[0]);
            vector<std::thread> ts;
            for (int i = 1; i <= n; ++i) ts.emplace_back([&, i] { perform(run, i, prog["th"][i - 1], n, logs[size_t(i)]); });
            for (auto& t : ts) t.join();
            vector<Stamped> all;
            for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
            std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.at < b.at; });
            int at = 0;
            for (auto& e : all) at = trie.go(at, run.filled(e.text, e.ptr));
            at = trie.go(at, "[\"c\",0,0]");
            trie.go(at, "[\"r\",0," + run.trav() + "]");
        }
        printTrie(trie, "ok", runs, false, "[]");
    }
}
#endif
