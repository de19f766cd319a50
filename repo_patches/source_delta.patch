From f5fb909194d22d1740716239653844147556e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 01/21] fix: keep type classes registered in a freed slot

The free slot was remembered by the address of a local copy, so a type class
registered after another one was unregistered was lost.
---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..4bd27bb 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -343,7 +343,7 @@ public:
         // search in reverse order while also checking for name clashes
         const type_class** free_slot = nullptr;
         for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
-            auto tc = *i;
+            auto& tc = *i;
             if (tc) {
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
-- 
2.43.0


From f7e88c1762787817811a7e75f43f580de52a2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 02/21] fix: compare the lengths of string views with the same
 beginning

Views of different length into the same buffer compared equal.
---
 code/dnmx/bits/sv.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..56ae84c 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,6 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From bd75aa1659923913a06715012f49e768786fb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 03/21] fix: don't drop types when refusing to unregister a
 foreign mixin

Types and queries were dropped by the foreign mixin's id before checking
whether the mixin is our own.
---
 code/dynamix/domain.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 4bd27bb..3db598a 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,6 +285,14 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own?
+            // check before touching types and queries
+            auto reg = m_element_registry.shared_lock();
+            auto& sparse_mixins = reg->sparse_mixins;
+            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
+
         {
             auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
-- 
2.43.0


From af3f67f1583d02f80a53bfb3989003e593fb9096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 04/21] fix: make adding a mixin by name with an init function
 usable

The op referred to a member which doesn't exist.
---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From 93114d4bac193c239e73766e127c87abedc186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 05/21] fix: don't dereference null on mutate_to with an
 unknown mixin name

---
 code/dynamix/mutate_to_ops.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to_ops.hpp b/code/dynamix/mutate_to_ops.hpp
index 31fa002..ad788c7 100644
--- a/code/dynamix/mutate_to_ops.hpp
+++ b/code/dynamix/mutate_to_ops.hpp
@@ -20,6 +20,7 @@ struct construct_mixin_op_with_func_by_name final : public object_mutate_op_with
     {}
     object_mutate_op* to_obj_mutate(object& obj) {
         this->affected_info = obj.get_domain().get_mixin_info(name);
+        if (!this->affected_info) return nullptr; // unknown mixin, so it can't be a part of the target type
         return this;
     }
 };
-- 
2.43.0


From 6489a5e81e280f125f0532ec04451bdf1b3916c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:44 +0000
Subject: [PATCH 06/21] fix: allow queries with dependencies in domains with no
 mutation rules

Erasing the dependencies counted as a change made by the (lack of) rules and
such queries failed with a cyclic rule dependency error.
---
 code/dynamix/domain.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 3db598a..694ef7b 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -469,6 +469,9 @@ public:
         // first erase all deps from mixins
         itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
 
+        // no rules: nothing to apply (erasing deps is not a change by a rule)
+        if (rules.empty()) return last_result;
+
         for (int i = 0; ; ++i) {
             // apply rules
             for (auto& r : rules) {
-- 
2.43.0


From 4281a0a3bdfb482b0d55bd70e1ca6b4348264052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 07/21] fix: complete mutations made during stack unwinding

Mutations made while an unrelated exception was in flight were silently rolled
back.
---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..dd68426 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    int m_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..251272f 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -48,7 +48,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..26f143e 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -159,6 +161,10 @@ private:
 
     bool m_complete = false;
 
+    // exceptions in flight on construction
+    // the mutation may be a part of a stack unwinding and these are not its own errors
+    int m_uncaught_exceptions = std::uncaught_exceptions();
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From a3ca7de3f3330e5d97cab30a59d894ec9765e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 08/21] fix: complete object mutations to the empty type

A mutation to a type with no mixins never got complete, and left an object which
isn't empty with a zero-sized buffer.
---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 251272f..cb2105a 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -101,6 +101,12 @@ void object_mutation::allocate_mixin_data() {
     // * attach common external mixins to mixin_data elements
     // * no mixin initialization here
 
+    if (m_target_type.num_mixins() == 0) {
+        // mutating to the empty type: nothing to allocate or update
+        m_complete = true;
+        return;
+    }
+
     auto buf = m_target_type.allocate_object_buffer(m_object.m_allocator);
     m_target_mixin_data = reinterpret_cast<object_mixin_data*>(buf);
 
-- 
2.43.0


From fc7fcb14c84df408277082384ea8b2d5fb0fe157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 09/21] fix: unseal objects which were moved from

The sealed status is documented as transferred on move.
---
 code/dynamix/object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..c98a975 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -313,6 +313,7 @@ void object::usurp(object& other) noexcept {
     // clear other object
     other.m_type = &get_domain().get_empty_type();
     other.m_mixin_data = nullptr;
+    other.m_sealed = false;
 }
 
 }
-- 
2.43.0


From 55a9dfbe58852d2d01f3be2c9ff3c49070e634e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 10/21] fix: refuse a piecewise update of the mixin after the
 last

It was silently ignored.
---
 code/dynamix/object_mutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 26f143e..d20c4f9 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -86,7 +86,7 @@ public:
     // with domain_settings::canonicalize_types set to true, this might get tricky
     template <typename ConstructNew_Func, typename UpdateCommon_Func>
     void update_at(mixin_index_t index, ConstructNew_Func&& construct_new, UpdateCommon_Func&& update_common) {
-        if (index < m_updated_upto || index > m_target_type.num_mixins()) {
+        if (index < m_updated_upto || index >= m_target_type.num_mixins()) {
             throw_bad_piecewise_mutation();
         }
         default_construct_each_new_mixin(index);
-- 
2.43.0


From 8939f31efc619b1b3545ee9cedd3a364d35270f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 11/21] fix: don't leave the rules of a mixin whose
 registration failed

---
 code/dynamix/mixin_info_data.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..e130a93 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,20 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    size_t num_added = 0;
+    try {
+        for (auto* r : mutation_rule_infos) {
+            dom.add_mutation_rule(*r);
+            ++num_added;
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        while (num_added) {
+            dom.remove_mutation_rule(*mutation_rule_infos[--num_added]);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From 882ddc5e84795938c3e52698a77d26a9eda8d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 12/21] fix: don't initialize the wrong mixin when ops repeat a
 mixin

With several initializing ops for the same mixin, the second one was run on the
mixin after it. Now the first one is used, as in dnmx_mutate.
---
 code/dynamix/mutate_to.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..f1dc611 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -40,7 +40,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     });
 
     // sort by index
-    std::sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+    std::stable_sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
         return a->mixin_index < b->mixin_index;
     });
 
@@ -48,6 +48,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
         auto& op = **i;
+        if (i != obj_mutates && (*(i - 1))->mixin_index == op.mixin_index) continue; // this mixin is already initialized
         obj_mut.default_construct_each_new_mixin(op.mixin_index);
         obj_mut.update_next_mixin([&op](init_new_args args) {
             op.do_init(args);
-- 
2.43.0


From 93dbe53914d6f3290ff15eefbc68cc9e6e854bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 13/21] fix: don't let exceptions escape from C functions

Unregistering a foreign mixin or feature, and resetting a sealed object to no
type, threw through the C interface.
---
 code/dynamix/domain-c.cpp | 14 ++++++++++++--
 code/dynamix/object-c.cpp | 12 ++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..6f33d33 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -39,7 +39,12 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (std::exception&) {
+        // foreign or not registered: noop, as we have no way to report it
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -52,7 +57,12 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (std::exception&) {
+        // foreign or not registered: noop, as we have no way to report it
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..629b587 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,16 +105,16 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
 
     return dnmx_result_success;
-- 
2.43.0


From f66ade1715138d674b0f9a519a2fe82ac80abb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:42 +0000
Subject: [PATCH 14/21] fix: define the declared dnmx_object_implements_strong
 functions

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 629b587..a8186c4 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From 74eeb461dd60e8de0b1f6ee159d80048f1785e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:37 +0000
Subject: [PATCH 15/21] fix: don't store type queries made obsolete while
 creating the type

The lock is released between applying the mutation rules and storing the query.
If the rules changed meanwhile, an answer under the old rules was stored and
given to all later requests. If types were collected meanwhile, the stored
query could lead to a destroyed type.
---
 code/dynamix/domain.cpp | 86 ++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 694ef7b..19c5f8a 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,10 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // incremented on every change which may make a type or an applied set of rules obsolete
+        // needed because the lock is released between applying the rules and storing the query
+        uint64_t version = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -295,6 +299,8 @@ public:
 
         {
             auto treg = m_type_registry.unique_lock();
+            ++treg->version;
+
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
             auto& queries = treg->type_queries;
@@ -423,6 +429,7 @@ public:
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->version;
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
         auto reg = m_type_registry.unique_lock();
@@ -436,6 +443,7 @@ public:
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->version;
     }
 
     // applies mutation rules for mutation and returns the original query to be preserved
@@ -501,44 +509,57 @@ public:
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
         type_query original_query(m_allocator); // prepare original query with our allocator
-        const type* found = nullptr;
 
-        {
-            // search for stored query for this combo
-            auto reg = m_type_registry.shared_lock();
+        while (true) {
+            const type* found = nullptr;
+            uint64_t version;
+
             {
-                auto f = reg->type_queries.find(mutation.mixins);
-                if (f != reg->type_queries.end()) return *f->second;
-            }
+                // search for stored query for this combo
+                auto reg = m_type_registry.shared_lock();
+                {
+                    auto f = reg->type_queries.find(mutation.mixins);
+                    if (f != reg->type_queries.end()) return *f->second;
+                }
 
-            // query is not available, so we need to apply mutation rules
-            // we can do it while holding the shared lock
-            original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+                version = reg->version;
 
-            // now look for exact type
-            if (mutation.mixins.empty()) {
-                found = &m_empty_type;
-            }
-            else {
-                auto f = reg->types.find(mutation.mixins);
-                if (f != reg->types.end()) found = f->get();
+                // query is not available, so we need to apply mutation rules
+                // we can do it while holding the shared lock
+                original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
+
+                // now look for exact type
+                if (mutation.mixins.empty()) {
+                    found = &m_empty_type;
+                }
+                else {
+                    auto f = reg->types.find(mutation.mixins);
+                    if (f != reg->types.end()) found = f->get();
+                }
             }
-        }
 
-        if (found) {
-            // we found a type with this mutation, but don't have the query stored
-            // store the query only and return the type
+            if (found) {
+                // we found a type with this mutation, but don't have the query stored
+                // store the query only and return the type
 
-            // it may be the case here that another thread waits to do the exact same thing
-            // but the code below is safe
-            // worst (and extremely rare) case we wasted cpu applying the same rules twice
+                // it may be the case here that another thread waits to do the exact same thing
+                // but the code below is safe
+                // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
-            auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
-            return *found;
-        }
+                auto reg = m_type_registry.unique_lock();
+                if (reg->version == version) {
+                    reg->type_queries[std::move(original_query)] = found;
+                    return *found;
+                }
+            }
+            else if (auto* created = create_type(mutation, original_query, version)) {
+                return *created;
+            }
 
-        return create_type(mutation, std::move(original_query));
+            // rules or types changed while we didn't hold the lock, so what we have may be obsolete
+            // start over
+            mutation.mixins.assign(original_query.begin(), original_query.end());
+        }
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -697,7 +718,8 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // return nullptr and preserve the query if the type registry is not of the given version any more
+    const type* create_type(type_mutation& mutation, type_query& query, uint64_t version) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -827,6 +849,7 @@ public:
 
         // finally add new type to types and return it
         auto reg = m_type_registry.unique_lock();
+        if (reg->version != version) return nullptr;
         auto res = reg->types.emplace(std::move(new_type));
 
         // note that the type may already be added
@@ -843,11 +866,12 @@ public:
 
         const type* reg_type = res.first->get();
         reg->type_queries[std::move(query)] = reg_type;
-        return *reg_type;
+        return reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
+        ++l->version;
         auto& types = l->types;
         auto& queries = l->type_queries;
         for (auto it = types.begin(); it != types.end(); ) {
-- 
2.43.0


From 53185f441a44aaf6359e537d3d8fffa0457656be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:28 +0000
Subject: [PATCH 16/21] fix: complete a mutation of an empty object to the
 empty type

Such a mutation is also one to the same type, and the shortcut for those
left it incomplete: updates read past the end of the mixins and the
destructor of the mutation asserted.
---
 code/dynamix/object_mutation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index cb2105a..03f22f0 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // mutating to the empty type: nothing to allocate or update
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
@@ -101,12 +107,6 @@ void object_mutation::allocate_mixin_data() {
     // * attach common external mixins to mixin_data elements
     // * no mixin initialization here
 
-    if (m_target_type.num_mixins() == 0) {
-        // mutating to the empty type: nothing to allocate or update
-        m_complete = true;
-        return;
-    }
-
     auto buf = m_target_type.allocate_object_buffer(m_object.m_allocator);
     m_target_mixin_data = reinterpret_cast<object_mixin_data*>(buf);
 
-- 
2.43.0


From 10b3775c140c8c41b08a4fcbbedb7f4bccdbebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:21 +0000
Subject: [PATCH 17/21] fix: name v1 messages with a default implementation
 like the others

---
 v1compat/gen/arity_message_macros_template | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/gen/arity_message_macros_template b/v1compat/gen/arity_message_macros_template
index 3d12434..4149fba 100644
--- a/v1compat/gen/arity_message_macros_template
+++ b/v1compat/gen/arity_message_macros_template
@@ -58,7 +58,7 @@
 #define DYNAMIX_V1_DEFINE_MESSAGE_%{arity}_WITH_DEFAULT_IMPL(return_type, message_name %{args_coma}) \
     static return_type I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::obj_t& %{coma_args_signature}); \
     const ::dynamix::common_feature_info& I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::get_info_safe() { \
-        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name))), multicast, (void*) \
+        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(message_name)), multicast, (void*) \
             (static_cast<I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::sig_t*>(I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)))); \
         return the_info; \
     } \
-- 
2.43.0


From ca9521903368cd18df6749a3d5763e0e8a80cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 18/21] fix: let a type mutation of a type report that it can't
 be allocated

the constructor copies the list of mixins, so being noexcept it terminated the
program, also from dnmx_create_type_mutation_from_type, which returns null
---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From 9a3b6510cc7179f85a5e3504cd3d0fe13072620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 19/21] fix: don't let exceptions escape from
 dnmx_create_domain

like the other functions which create something, it returns null when it can't
---
 code/dynamix/domain-c.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index 6f33d33..116991a 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
-- 
2.43.0


From a9dfef28ff961fa777f2298078341ded7f0cbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 20/21] fix: don't roll back object mutations which were
 finalized

an exception after an explicit finalize() destroyed the mixins which the object
already owned
---
 code/dynamix/object_mutation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 03f22f0..ac6e444 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -191,6 +191,7 @@ void object_mutation::destroy_new_mixins() noexcept {
 }
 
 void object_mutation::rollback() noexcept {
+    if (m_moved_out_from) return; // already finalized or rolled back
     m_complete = false;
     if (&m_target_type != m_old_type) {
         // tag: same_type_shortcut
@@ -203,6 +204,8 @@ void object_mutation::rollback() noexcept {
 
 void object_mutation::finalize() noexcept {
     if (!m_complete) return;
+    if (m_moved_out_from) return; // already finalized
+    m_moved_out_from = true; // nothing to complete or undo after this
 
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
-- 
2.43.0


From 4a71a44ec7427e34b8fef8239224053518973d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:31 +0000
Subject: [PATCH 21/21] fix: the debug dump of a domain locks the domain only
 once

It counted rules, types and queries with functions which take the shared lock
that the dump holds already, which waits for ever if another thread is waiting
to write and the lock prefers it (and is undefined for std::shared_mutex).
---
 code/dynamix/dbg_dmp.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..43f2526 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -178,14 +178,20 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -202,7 +208,10 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
-- 
2.43.0

