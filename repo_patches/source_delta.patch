From dfeb4fc976c4f7695b55e1792a0812785bfe93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 01/23] fix: update() applies its function to the value as
 written so far

writer_mixin::update() passed node->current() without refreshing the node
first, so an update through a derived cursor ignored writes made earlier in
the same transaction through other cursors and undid them.
---
 lager/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..84df291 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,9 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 23fc9f1232a1768b01b0536285cc40afeac42846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 02/23] fix: do not notify watchers when a transaction leaves
 the value unchanged

Writing a value and writing the previous one back before commit() called
the watchers although the published value had not changed.
---
 lager/detail/nodes.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..b32d0a5 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -214,7 +214,11 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
-            last_            = current_;
+            // the value may have been changed back before being committed
+            if (has_changed(current_, last_)) {
+                last_        = current_;
+                has_changes_ = true;
+            }
             needs_send_down_ = false;
             needs_notify_    = true;
             for (auto& wchild : this->children()) {
@@ -234,7 +238,10 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            this->observers()(last_);
+            if (has_changes_) {
+                has_changes_ = false;
+                this->observers()(last_);
+            }
             // We cannot use ranged-for here because children might
             // change as a result of notify(). This can invalidate
             // the iterators on children, causing undefined behaviors.
@@ -260,6 +267,7 @@ private:
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
+    bool has_changes_     = false;
     bool notifying_       = false;
 };
 
-- 
2.43.0


From d4f8bdd9ed2790208fba4c9328a808cad0c7b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 03/23] fix: getset() must not let the getter consume the whole

When setting through getset() on a temporary, the whole was forwarded to the
getter first, so that a getter taking it by value (or moving from it) left the
setter with a moved-from value.  This also happened for cursors with several
parents, whose values are passed as a temporary tuple.
---
 lager/lenses.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..9f1e5df 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,10 +107,17 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            auto put = [&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
-            });
+            };
+            if constexpr (std::is_lvalue_reference_v<decltype(p)>) {
+                return f(getter(p))(put);
+            } else {
+                // the getter may not consume the whole that the setter needs
+                auto part = getter(std::as_const(p));
+                return f(std::move(part))(put);
+            }
         };
     });
 }
-- 
2.43.0


From 4a7785a8426982d466d1cf17a7272a555c67c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 04/23] fix: partial lenses must not consume the whole while
 viewing it

Setting an empty part through alternative, with_opt, map_opt, bind_opt or
a zip of partial lenses on a temporary returned a moved-from whole.
---
 lager/lenses/optional.hpp | 4 ++--
 lager/lenses/tuple.hpp    | 2 +-
 lager/lenses/variant.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..83d656b 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,7 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -150,7 +150,7 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
diff --git a/lager/lenses/tuple.hpp b/lager/lenses/tuple.hpp
index 8a19c6f..f320ec2 100644
--- a/lager/lenses/tuple.hpp
+++ b/lager/lenses/tuple.hpp
@@ -147,7 +147,7 @@ auto zip(Lenses&&... lenses)
             return [&, f = LAGER_FWD(f)](auto&& whole_tuple) {
                 using Whole = std::decay_t<decltype(whole_tuple)>;
                 return f(detail::apply_zip<Whole>(
-                    detail::fobj_view, lens_tuple, LAGER_FWD(whole_tuple)))(
+                    detail::fobj_view, lens_tuple, whole_tuple))(
                     [&](auto&& part_tuple) {
                         return detail::apply_zip<Whole>(detail::fobj_set,
                                                         lens_tuple,
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ff14780 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,7 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From dd084cf8dacfc3199ca77b94e7c43f334516f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 05/23] fix: notify a node even if a watcher left it with a
 pending write

Two writes through the same derived cursor from a watcher, without a
commit, made the cursor skip the notification of the published change.
---
 lager/detail/nodes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index b32d0a5..18e76b1 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -232,7 +232,7 @@ public:
     void notify() final
     {
         using namespace std;
-        if (needs_notify_ && !needs_send_down_) {
+        if (needs_notify_) {
             needs_notify_ = false;
 
             notifying_guard_t notifying_guard(notifying_);
-- 
2.43.0


From 7841e67ed4af276de838c775563d0b96979b206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 06/23] fix: let watchers unbind, reassign or destroy readers
 while notifying

A callback that unbinds, reassigns or destroys the reader it was
registered on left the list of slots iterating over unlinked or freed
memory.
---
 lager/detail/signal.hpp | 20 ++++++++++++++++++--
 lager/watch.hpp         |  7 ++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/lager/detail/signal.hpp b/lager/detail/signal.hpp
index 241dc54..e80c35d 100644
--- a/lager/detail/signal.hpp
+++ b/lager/detail/signal.hpp
@@ -14,6 +14,7 @@
 
 #include <boost/intrusive/list.hpp>
 
+#include <iterator>
 #include <memory>
 
 namespace lager {
@@ -73,13 +74,28 @@ public:
     template <typename... Args2>
     void operator()(Args2&&... args)
     {
-        for (auto&& s : slots_)
-            s(std::forward<Args2>(args)...);
+        // A slot may add or remove slots, including itself, or even destroy this
+        // signal. Mark our place and where to end with slots of our own.
+        position pos, end;
+        slots_.push_front(pos);
+        slots_.push_back(end);
+        while (pos.is_linked()) {
+            auto it = std::next(slots_.iterator_to(pos));
+            if (&*it == &end)
+                break;
+            slots_.splice(std::next(it), slots_, slots_.iterator_to(pos));
+            (*it)(args...);
+        }
     }
 
     bool empty() const { return slots_.empty(); }
 
 private:
+    struct position final : slot_base
+    {
+        void operator()(Args...) final {}
+    };
+
     using slot_list =
         boost::intrusive::list<slot_base,
                                boost::intrusive::constant_time_size<false>>;
diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..7f6a874 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -17,6 +17,7 @@
 #include <zug/meta/value_type.hpp>
 
 #include <memory>
+#include <vector>
 
 namespace lager {
 
@@ -69,7 +70,7 @@ public:
     {
         base_t::unlink();
         node_ = other.node_;
-        if (!base_t::empty() && node_)
+        if (!conns_.empty() && node_)
             node_->observers().add(*this);
         return *this;
     }
@@ -78,7 +79,7 @@ public:
     {
         base_t::unlink();
         node_ = std::move(other.node_);
-        if (!base_t::empty() && node_)
+        if (!conns_.empty() && node_)
             node_->observers().add(*this);
         return *this;
     }
@@ -86,7 +87,7 @@ public:
     template <typename CallbackT>
     auto&& watch(CallbackT&& callback)
     {
-        if (base_t::empty() && node_)
+        if (conns_.empty() && node_)
             node_->observers().add(*this);
         conns_.push_back(base_t::connect(std::forward<CallbackT>(callback)));
         return *this;
-- 
2.43.0


From 8edede086ba7238b842306abbcbf2af5030f717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 07/23] fix: recognise empty effects

The overload of is_empty_effect() for std::function was never chosen for
lager::effect, and converting an empty effect wrapped it in a non-empty one,
so empty effects were posted and failed with bad_function_call.
---
 lager/effect.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..ad757e5 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Actions, typename Deps>
+bool is_empty_effect(const effect<Actions, Deps>& v)
+{
+    using base_t = typename effect<Actions, Deps>::base_t;
+    return is_empty_effect(static_cast<const base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From b1a601c29c372d3f5763df5b28d232195ab0ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 08/23] fix: narrowing a context must keep the alternative of
 the action

find_convertible_action picked the first candidate the action converts to,
so narrowing context<actions<bool, int>> to context<int> dispatched bools.
---
 lager/context.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lager/context.hpp b/lager/context.hpp
index b85613f..4dcbccb 100644
--- a/lager/context.hpp
+++ b/lager/context.hpp
@@ -18,6 +18,7 @@
 
 #include <boost/hana/all_of.hpp>
 #include <boost/hana/append.hpp>
+#include <boost/hana/contains.hpp>
 #include <boost/hana/find_if.hpp>
 #include <boost/hana/fold.hpp>
 #include <boost/hana/length.hpp>
@@ -76,7 +77,11 @@ auto find_convertible_action_aux(Action act, Candidates candidates)
         return std::is_convertible<typename Action::type,
                                    typename decltype(t)::type>{};
     };
-    return boost::hana::find_if(candidates, is_convertible).value();
+    // Another candidate may be merely convertible, delivering another action.
+    if constexpr (decltype(boost::hana::contains(candidates, act))::value)
+        return act;
+    else
+        return boost::hana::find_if(candidates, is_convertible).value();
 }
 
 template <typename Action, typename... Actions>
-- 
2.43.0


From cf5d18a0990e4a5606d36844c2e8e7a594902ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 09/23] fix: recognise effects made from noop as empty

is_empty_effect() compared the address of the stored copy of noop with the
address of the global one, which never matches, and effects wrap functions
returning void anyway.
---
 lager/effect.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index ad757e5..6c3ff59 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -16,6 +16,26 @@
 
 namespace lager {
 
+namespace detail {
+
+// What an effect made from `noop` holds, such that it can be recognised.
+struct noop_effect
+{
+    template <typename Ctx>
+    future operator()(Ctx&&) const
+    {
+        return {};
+    }
+
+    template <typename Ctx>
+    static bool is(const std::function<future(Ctx)>& fn)
+    {
+        return fn.template target<noop_effect>() != nullptr;
+    }
+};
+
+} // namespace detail
+
 //! @defgroup effects
 //! @{
 
@@ -53,7 +73,13 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{e ? base_t{std::move(e)} : base_t{}}
+        : base_t{!e                            ? base_t{}
+                 : detail::noop_effect::is(e) ? base_t{detail::noop_effect{}}
+                                               : base_t{std::move(e)}}
+    {}
+
+    effect(std::decay_t<decltype(noop)>)
+        : base_t{detail::noop_effect{}}
     {}
 
     template <
@@ -187,7 +213,7 @@ constexpr auto has_effect_v = has_effect<Reducer, Model, Action, Deps>::value;
 template <typename Ctx>
 bool is_empty_effect(const std::function<future(Ctx)>& v)
 {
-    return !v || v.template target<decltype(noop)>() == &noop;
+    return !v || detail::noop_effect::is(v);
 }
 
 template <typename Actions, typename Deps>
-- 
2.43.0


From a09cd6cb14952dec346c6b121f1877283c59283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 10/23] fix: assigning an empty effect of another type leaves
 the effect empty

The inherited assignment operator wrapped it in a non-empty function.
---
 lager/effect.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 6c3ff59..32f4cfb 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -78,6 +78,16 @@ lager::effect<lager::actions<...>, ...> " //
                                                : base_t{std::move(e)}}
     {}
 
+    template <typename A2,
+              typename D2,
+              std::enable_if_t<detail::are_compatible_actions_v<A2, Action> &&
+                                   std::is_convertible_v<Deps, D2>,
+                               int> = 0>
+    effect& operator=(effect<A2, D2> e)
+    {
+        return *this = effect{std::move(e)};
+    }
+
     effect(std::decay_t<decltype(noop)>)
         : base_t{detail::noop_effect{}}
     {}
-- 
2.43.0


From 12ccfa4844c71fc84c4362b7af5cac6d5b7f0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 11/23] fix: sequences keep actions that convert into each
 other apart

Sequencing effects that dispatch int and bool made one that only dispatches
bool, through which the ints were converted.
---
 lager/context.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lager/context.hpp b/lager/context.hpp
index 4dcbccb..ab0cf6e 100644
--- a/lager/context.hpp
+++ b/lager/context.hpp
@@ -109,6 +109,14 @@ constexpr bool are_compatible_actions_v =
                                         as_actions_t<Actions2>{},
                                         std::declval<ConverterT>()))::value;
 
+// Whether actions of type `Action1` can be dispatched as `Action2`.  Types that
+// convert to each other, like `int` and `bool`, are still different actions.
+template <typename Action1, typename Action2>
+using is_covered_action = std::bool_constant<
+    std::is_same_v<Action1, Action2> ||
+    (std::is_convertible_v<Action1, Action2> &&
+     !std::is_convertible_v<Action2, Action1>)>;
+
 template <typename Actions1, typename Actions2>
 auto merge_actions_aux(Actions1 a1, Actions2 a2)
 {
@@ -116,14 +124,14 @@ auto merge_actions_aux(Actions1 a1, Actions2 a2)
     static_assert(decltype(boost::hana::length(a2))::value > 0, "");
     auto has_convertible = [](auto seq, auto x) {
         return boost::hana::is_just(boost::hana::find_if(seq, [](auto t) {
-            return std::is_convertible<typename decltype(x)::type,
-                                       typename decltype(t)::type>{};
+            return is_covered_action<typename decltype(x)::type,
+                                     typename decltype(t)::type>{};
         }));
     };
     auto remove_convertibles = [](auto seq, auto x) {
         return boost::hana::remove_if(seq, [](auto t) {
-            return std::is_convertible<typename decltype(x)::type,
-                                       typename decltype(t)::type>{};
+            return is_covered_action<typename decltype(t)::type,
+                                     typename decltype(x)::type>{};
         });
     };
     auto result = boost::hana::fold(a1, a2, [&](auto acc, auto x) {
-- 
2.43.0


From 49ce6e3b5632681482d7ddae2c0584b5f396a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 12/23] fix: match() returns references that handlers return

The inner visitation lambda decayed the result.
---
 lager/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/util.hpp b/lager/util.hpp
index 7fe9f92..07cd3b9 100644
--- a/lager/util.hpp
+++ b/lager/util.hpp
@@ -58,7 +58,7 @@ struct matcher : TupleT
     constexpr decltype(auto) operator()(Visitors&&... vs) &&
     {
         return std::apply(
-            [&](auto&&... xs) {
+            [&](auto&&... xs) -> decltype(auto) {
                 return std::visit(lager::visitor{LAGER_FWD(vs)...},
                                   LAGER_FWD(xs)...);
             },
-- 
2.43.0


From 4a6c2b18f26659984f4a817b58190524df56ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 13/23] fix: derive from writers

---
 lager/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..ec1b819 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -451,7 +451,7 @@ template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins))...));
+        std::make_tuple(access::node(ins.make())...));
 }
 
 template <typename... CursorTs>
-- 
2.43.0


From 207c854d22506549f7b0ac3d582788fc33a5400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 14/23] fix: diagnose deriving from and binding uninitialized
 handles

---
 lager/detail/access.hpp | 16 ++++++++++++++++
 lager/setter.hpp        |  2 +-
 lager/watch.hpp         |  5 +++--
 lager/with.hpp          | 12 ++++++------
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/lager/detail/access.hpp b/lager/detail/access.hpp
index 3953498..5cbe55a 100644
--- a/lager/detail/access.hpp
+++ b/lager/detail/access.hpp
@@ -12,6 +12,9 @@
 
 #pragma once
 
+#include <lager/config.hpp>
+
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 
@@ -48,6 +51,19 @@ public:
         return std::forward<T>(object).node();
     }
 
+    /*!
+     * Returns a pointer to the underlying node of an object, raising
+     * an error if the object is not initialized.
+     */
+    template <typename T>
+    static auto checked_node(T&& object)
+    {
+        auto n = node(std::forward<T>(object));
+        if (!n)
+            LAGER_THROW(std::runtime_error("Accessing uninitialized cursor"));
+        return n;
+    }
+
     /*!
      * Returns an optional boost.signal to the specific watchers of
      * the underlying signal of an object.
diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..64f2b34 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -89,7 +89,7 @@ template <typename TagT = transactional_tag, typename ReaderNode, typename FnT>
 auto with_setter(reader_base<ReaderNode> r, FnT&& fn)
 {
     auto node = detail::make_setter_node<TagT>(
-        detail::access::node(std::move(r)), std::forward<FnT>(fn));
+        detail::access::checked_node(std::move(r)), std::forward<FnT>(fn));
     using node_t = typename decltype(node)::element_type;
     return cursor_base<node_t>{std::move(node)};
 }
diff --git a/lager/watch.hpp b/lager/watch.hpp
index 7f6a874..5a3799f 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -12,6 +12,7 @@
 
 #pragma once
 
+#include <lager/detail/access.hpp>
 #include <lager/detail/signal.hpp>
 
 #include <zug/meta/value_type.hpp>
@@ -96,11 +97,11 @@ public:
     template <typename CallbackT>
     auto&& bind(CallbackT&& callback)
     {
-        callback(node()->last());
+        callback(detail::access::checked_node(*this)->last());
         return watch(std::forward<CallbackT>(callback));
     }
 
-    void nudge() { base_t::operator()(node()->last()); }
+    void nudge() { base_t::operator()(detail::access::checked_node(*this)->last()); }
 
     void unbind()
     {
diff --git a/lager/with.hpp b/lager/with.hpp
index ec1b819..7f3a710 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -432,39 +432,39 @@ template <typename... ReaderTs>
 auto with_aux(reader_mixin<ReaderTs>&&... ins)
 {
     return detail::make_with_expr<reader_base>(
-        std::make_tuple(access::node(std::move(ins).make())...));
+        std::make_tuple(access::checked_node(std::move(ins).make())...));
 }
 template <typename... ReaderTs>
 auto with_aux(const reader_mixin<ReaderTs>&... ins)
 {
     return detail::make_with_expr<reader_base>(
-        std::make_tuple(access::node(ins.make())...));
+        std::make_tuple(access::checked_node(ins.make())...));
 }
 
 template <typename... WriterTs>
 auto with_aux(writer_mixin<WriterTs>&&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins).make())...));
+        std::make_tuple(access::checked_node(std::move(ins).make())...));
 }
 template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(ins.make())...));
+        std::make_tuple(access::checked_node(ins.make())...));
 }
 
 template <typename... CursorTs>
 auto with_aux(cursor_mixin<CursorTs>&&... ins)
 {
     return detail::make_with_expr<cursor_base>(
-        std::make_tuple(access::node(std::move(ins).make())...));
+        std::make_tuple(access::checked_node(std::move(ins).make())...));
 }
 template <typename... CursorTs>
 auto with_aux(const cursor_mixin<CursorTs>&... ins)
 {
     return detail::make_with_expr<cursor_base>(
-        std::make_tuple(access::node(ins.make())...));
+        std::make_tuple(access::checked_node(ins.make())...));
 }
 
 } // namespace detail
-- 
2.43.0


From 92ca04abc9384bd43b6045500bd8b85fca3c3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 15/23] fix: tree debugger moves to the branch it adds

---
 lager/debug/tree_debugger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..43d212b 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,9 +165,10 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
                         return history.update(pos.step, [&](auto node_) {
                             auto node = *node_;
+                            new_cursor =
+                                cursor.push_back({node.branches.size(), 0});
                             node.branches =
                                 node.branches.push_back({step{act, m, {}}});
                             return node;
-- 
2.43.0


From 566c5c09730db0b600f71af6efeeda2b5d6384bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 16/23] fix: complete an interrupted propagation with the next
 one

If computing a derived reader throws, the node above it forgot that its
children still have to be updated: the readers below stayed stale until
a different value was written.
---
 lager/detail/nodes.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 18e76b1..7522d17 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -127,6 +127,18 @@ struct notifying_guard_t
     bool& target_;
 };
 
+struct send_down_guard_t
+{
+    bool& target;
+    bool completed = false;
+
+    ~send_down_guard_t()
+    {
+        if (!completed)
+            target = true;
+    }
+};
+
 /*!
  * Interface for nodes capable of notifying observers.
  */
@@ -221,11 +233,14 @@ public:
             }
             needs_send_down_ = false;
             needs_notify_    = true;
+            // if computing a child throws, the children are still to be updated
+            send_down_guard_t guard{needs_send_down_};
             for (auto& wchild : this->children()) {
                 if (auto child = wchild.lock()) {
                     child->send_down();
                 }
             }
+            guard.completed = true;
         }
     }
 
-- 
2.43.0


From 8d7f3396e49f46efe6989d75c09d546b2d2362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:37 +0000
Subject: [PATCH 17/23] fix: compile the serialization of camel case structs

to_camel_case returns a string but serialize_optional_nvp takes a name.
---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From c17ecf55a96f9cb382b8eae9d218acba598b17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:23 +0000
Subject: [PATCH 18/23] fix: loading immutable containers replaces what the
 target held

Loading an empty sequence kept the old elements, and loading a map or a
set added to (or complained about) the old ones.
---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_map.hpp         | 2 ++
 lager/extra/cereal/immer_set.hpp         | 1 +
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 5 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..da02b76 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,6 +48,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -86,6 +87,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..952bdda 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,6 +31,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From 710eb70a3563c416cb52286e19b16667f3f80e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 19/23] fix: SDL loop releases a posted function that throws

---
 lager/event_loop/sdl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..9379344 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -128,9 +128,9 @@ struct sdl_event_loop
             auto event = SDL_Event{};
             if (SDL_WaitEvent(&event)) {
                 if (event.type == post_event_type_) {
-                    auto fnp = static_cast<event_fn*>(event.user.data1);
+                    auto fnp = std::unique_ptr<event_fn>{
+                        static_cast<event_fn*>(event.user.data1)};
                     (*fnp)();
-                    delete fnp;
                 } else {
                     continue_ = handler(event);
                 }
-- 
2.43.0


From f9cd5773e486236d8b54dea91f2b6e08ec1ba6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:23 +0000
Subject: [PATCH 20/23] fix: SDL loop ends when finished while paused

The inner loop waited for further events for as long as the loop was
paused, so that a paused loop could never be finished.
---
 lager/event_loop/sdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 9379344..5b42408 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -146,7 +146,7 @@ struct sdl_event_loop
         while (continue_ && !done_) {
             auto event = SDL_Event{};
             while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+                                 (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From 836719a1cc6f9d026e3811b7b706e15470f81eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:31 +0000
Subject: [PATCH 21/23] fix: show the initial model in the HTTP debugger

The server only stored the model when it changed, thus until the first action
requests were answered with a default constructed one.
---
 lager/debug/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..36e431a 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,8 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        // the watcher is only told about later changes
+        model_ = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From eba32d97e92548482f3d49f62e1c1ea0d7276563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:31 +0000
Subject: [PATCH 22/23] fix: do not serve files outside of the GUI in the HTTP
 debugger

A target like /../../file was appended to the path of the resources as is.
---
 lager/debug/http_server.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 36e431a..09975a0 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -340,6 +340,9 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                // only serve files that are inside of the resources
+                if (req_path.find("..") != std::string::npos)
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


From 195aee42337ed7ad47ec13952d8c0b251121cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:00 +0000
Subject: [PATCH 23/23] fix: iterate children by index when sending down

Computing a child may run a mapping function that links further children to
the same node, which invalidated the iterators.
---
 lager/detail/nodes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 7522d17..e073cf5 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -235,8 +235,10 @@ public:
             needs_notify_    = true;
             // if computing a child throws, the children are still to be updated
             send_down_guard_t guard{needs_send_down_};
-            for (auto& wchild : this->children()) {
-                if (auto child = wchild.lock()) {
+            // computing a child may link further children, see notify()
+            const auto& children = this->children();
+            for (size_t i = 0, size = children.size(); i < size; ++i) {
+                if (auto child = children[i].lock()) {
                     child->send_down();
                 }
             }
-- 
2.43.0

