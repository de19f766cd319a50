#pragma once
// helpers of the demonstrations: mixins made at run time, counting allocators, CHECK
#include <dynamix/domain.hpp>
#include <dynamix/domain_settings.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/allocator.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#define CHECK(...) do { if (!(__VA_ARGS__)) { printf("line %d: not so: %s\n", __LINE__, #__VA_ARGS__); fflush(stdout); _Exit(1); } } while (0)
#define CHECK_THROWS(...) do { bool t_ = false; try { __VA_ARGS__; } catch (std::exception&) { t_ = true; } if (!t_) { printf("line %d: does not throw: %s\n", __LINE__, #__VA_ARGS__); fflush(stdout); _Exit(1); } } while (0)
namespace kit {
using namespace dynamix;
inline std::vector<std::string> g_log; // what happened to mixins
inline int g_failAt = -1;              // countdown to a failing initialization
struct cell { int v; };
inline bool failNow() { return g_failAt >= 0 && g_failAt-- == 0; }
inline void logIt(const char* what, const dnmx_mixin_info* i) { g_log.push_back(std::string(what) + ":" + std::string(i->name.begin, i->name.end)); }
struct mix {
    mixin_info info;
    std::vector<feature_for_mixin> fs;
    explicit mix(const char* name, uint32_t size = sizeof(cell), uint32_t align = 8) {
        info = dnmx_make_mixin_info();
        info.name = dnmx_sv::from_std(name);
        info.set_size_alignment(size, align);
        info.init = [](const dnmx_mixin_info* i, void* p) -> dnmx_error_return_t { if (failNow()) return 1; logIt("init", i); static_cast<cell*>(p)->v = 0; return 0; };
        info.destroy = [](const dnmx_mixin_info* i, void* p) noexcept { logIt("destroy", i); static_cast<cell*>(p)->v = -1; };
        info.move_init = [](const dnmx_mixin_info* i, void* p, void* q) noexcept { logIt("move", i); static_cast<cell*>(p)->v = static_cast<cell*>(q)->v; };
        info.copy_init = [](const dnmx_mixin_info* i, void* p, const void* q) -> dnmx_error_return_t { if (failNow()) return 1; logIt("copy", i); static_cast<cell*>(p)->v = static_cast<const cell*>(q)->v; return 0; };
        info.copy_asgn = [](const dnmx_mixin_info* i, void* p, const void* q) -> dnmx_error_return_t { if (failNow()) return 1; logIt("assign", i); static_cast<cell*>(p)->v = static_cast<const cell*>(q)->v; return 0; };
        info.move_asgn = [](const dnmx_mixin_info* i, void* p, void* q) noexcept { logIt("masgn", i); static_cast<cell*>(p)->v = static_cast<cell*>(q)->v; };
        info.compare = [](const dnmx_mixin_info*, const void* p, const void* q) noexcept -> int { return static_cast<const cell*>(p)->v - static_cast<const cell*>(q)->v; };
    }
    mix& external() { info.force_external = true; return *this; }
    mix& has(const feature_info& f, int bid, int prio, const void* payload = nullptr) {
        feature_for_mixin x{}; x.info = &f; x.payload = reinterpret_cast<feature_payload>(const_cast<void*>(payload)); x.bid = bid; x.priority = prio;
        fs.push_back(x);
        info.features = fs.data(); info.num_features = uint32_t(fs.size());
        return *this;
    }
    mix(const mix&) = delete;
};
inline int& val(object& o, const mix& m) { return static_cast<cell*>(o.get(m.info))->v; }
inline const type& T(domain& d, std::vector<const mix*> ms) {
    std::vector<const mixin_info*> v;
    for (auto m : ms) v.push_back(&m->info);
    return d.get_type(v);
}
}
using namespace kit;
