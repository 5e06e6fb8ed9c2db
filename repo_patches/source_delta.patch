From 084235a5528aef51368ecab6c499c2e3dc545b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 01/36] fix: composite_disposable::clear() disposes children
 outside of the Edit state

A child which accesses the same composite while being disposed by clear() (add/remove/clear/dispose)
spun forever on the Edit state held by the very same thread.
---
 src/rpp/rpp/disposables/composite_disposable.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..93b09ae 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -130,18 +130,13 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    // children are disposed after leaving the Edit state: a child can access this composite while it is being disposed
+                    Container disposables{std::move(m_disposables)};
+                    m_disposables.clear();
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    disposables.dispose();
                     return;
                 }
 
-- 
2.43.0


From fac5cb9d9b5f7a3e5f5fffda7fab9e7411de664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 02/36] fix: debounce schedules outside of its mutex so
 in-place schedulers do not deadlock

---
 src/rpp/rpp/operators/debounce.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..c2485e1 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,14 +47,17 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
+            std::unique_lock lock{m_mutex};
             m_value_to_be_emitted.emplace(std::forward<TT>(v));
-            const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
+            const bool need_to_scheduled = !m_time_when_value_should_be_emitted.has_value();
+            const auto time_point        = m_worker.now() + m_period;
+
+            m_time_when_value_should_be_emitted = time_point;
+            lock.unlock();
+
+            // schedulers are allowed to execute the schedulable in-place, so mutex must not be held there
             if (need_to_scheduled)
-            {
-                schedule();
-            }
+                schedule(time_point);
         }
 
         std::optional<T> extract_value()
@@ -66,10 +69,10 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(const schedulers::time_point& time_point)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                time_point,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
                     auto value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
-- 
2.43.0


From 36d65e2a712ab24bc0cbedcddb57bb3590c7684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 03/36] fix: current_thread advances the time point of a
 schedulable re-run in place

---
 src/rpp/rpp/schedulers/current_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..f4d5ca2 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -126,7 +126,8 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    top->set_timepoint(top->handle_advanced_call(res.value()));
+                                    details::sleep_until(top->get_timepoint());
                                 }
                                 continue;
                             }
-- 
2.43.0


From a66e487b0f17e466eb02686ef319a9742ab63f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 04/36] fix: run_loop::dispatch sleeps till the next time point
 instead of spinning and touching an empty queue

---
 src/rpp/rpp/schedulers/run_loop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/run_loop.hpp b/src/rpp/rpp/schedulers/run_loop.hpp
index b8fa1ff..361bd66 100644
--- a/src/rpp/rpp/schedulers/run_loop.hpp
+++ b/src/rpp/rpp/schedulers/run_loop.hpp
@@ -66,7 +66,7 @@ namespace rpp::schedulers
                     if (!wait)
                         break;
 
-                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now, [&]() { return is_disposed() || !m_queue.is_empty() || m_queue.top()->get_timepoint() <= worker_strategy::now(); });
+                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now);
                 }
                 return {};
             }
-- 
2.43.0


From 0e9c719f47a6288dc1af2763ae6a8716ac7bb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 05/36] fix: replay_subject's duration limit of zero means
 zero, not unlimited

std::numeric_limits is not specialized for std::chrono::duration, so its max() is a zero duration.
---
 src/rpp/rpp/subjects/replay_subject.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index a4a549d..1553f04 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -27,7 +27,7 @@ namespace rpp::subjects::details
     {
         struct replay_state final : public subject_state<Type, Serialized>
         {
-            replay_state(size_t limit = std::numeric_limits<size_t>::max(), rpp::schedulers::duration duration_limit = std::numeric_limits<rpp::schedulers::duration>::max())
+            replay_state(size_t limit = std::numeric_limits<size_t>::max(), rpp::schedulers::duration duration_limit = rpp::schedulers::duration::max())
                 : m_limit(limit)
                 , m_duration_limit(duration_limit)
             {
@@ -65,7 +65,7 @@ namespace rpp::subjects::details
         private:
             rpp::schedulers::clock_type::time_point deduce_timepoint()
             {
-                if (std::numeric_limits<rpp::schedulers::duration>::max() == m_duration_limit)
+                if (rpp::schedulers::duration::max() == m_duration_limit)
                     return rpp::schedulers::clock_type::time_point{};
 
                 auto now = rpp::schedulers::clock_type::now();
-- 
2.43.0


From f63546cb6034df3e10b4503e0602443e78ec846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 06/36] fix: subject_state replaces the list of observers on
 subscribe instead of growing it under a running on_next

on_next iterates over the list without holding the mutex; growing the same deque in place invalidates its iterators.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..64721b5 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -85,16 +85,10 @@ namespace rpp::subjects::details
                 [&](const shared_observers& observers) {
                     auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
                     auto ptr = d.lock();
-                    if (!observers)
-                    {
-                        auto new_observers = std::make_shared<subject_state::observers>();
-                        new_observers->emplace_back(ptr);
-                        m_state = std::move(new_observers);
-                    }
-                    else
-                    {
-                        observers->emplace_back(ptr);
-                    }
+                    // never modify list of observers in-place: on_next could be iterating over it right now
+                    auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
+                    new_observers->emplace_back(ptr);
+                    m_state = std::move(new_observers);
 
                     lock.unlock();
                     ptr->set_upstream(d.as_weak());
-- 
2.43.0


From 1dc330aeb95d04b4eb24a1aae20bbb5dcd764d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 07/36] fix: subject does not destroy observers under its mutex
 when one of them is disposed

Destructor of dropped observer disposes it, which locks the same mutex: disposing two observers via the same disposable deadlocked.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 64721b5..c98a711 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,10 +55,14 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    // should be destroyed after the lock: it could own other disposed observers which would come to this function from destructor
+                    shared_observers old_observers{};
+
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
-                                             shared->m_state = cleanup_observers(observers, this);
+                                             old_observers   = observers;
+                                             shared->m_state = cleanup_observers(old_observers, this);
                                          });
                 }
             }
-- 
2.43.0


From 2f774f7aa4a5719c9e753b0b7c38543c46b632f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 08/36] fix: subject prepares an observer before making it
 visible for emissions from other threads

set_upstream was called after the observer had been added to the list: an emission or termination from another thread raced with it.
---
 .../rpp/subjects/details/subject_state.hpp    | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index c98a711..01060c7 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -86,16 +86,37 @@ namespace rpp::subjects::details
             std::unique_lock lock{m_mutex};
             process_state_unsafe(
                 m_state,
-                [&](const shared_observers& observers) {
+                [&](const shared_observers&) {
+                    lock.unlock();
                     auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
                     auto ptr = d.lock();
-                    // never modify list of observers in-place: on_next could be iterating over it right now
-                    auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
-                    new_observers->emplace_back(ptr);
-                    m_state = std::move(new_observers);
-
-                    lock.unlock();
+                    // observer should be ready before it becomes visible for emissions from other threads
                     ptr->set_upstream(d.as_weak());
+
+                    lock.lock();
+                    process_state_unsafe(
+                        m_state,
+                        [&](const shared_observers& observers) {
+                            if (d.is_disposed())
+                                return;
+
+                            // never modify list of observers in-place: on_next could be iterating over it right now
+                            auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
+                            new_observers->emplace_back(ptr);
+                            m_state = std::move(new_observers);
+                        },
+                        [&](const std::exception_ptr& err) {
+                            lock.unlock();
+                            ptr->on_error(err);
+                        },
+                        [&](completed) {
+                            lock.unlock();
+                            ptr->on_completed();
+                        });
+
+                    // observer could be destroyed at the end of this scope and its destructor could lock the mutex
+                    if (lock.owns_lock())
+                        lock.unlock();
                 },
                 [&](const std::exception_ptr& err) {
                     lock.unlock();
-- 
2.43.0


From 49795ed73048d0f00b8a0dcc80ce1f3d711788f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 09/36] fix: ref_count does not lose a subscription made while
 the last reference is being released

add_ref returns an empty disposable when another thread has just released the last reference, but the connection does not look disposed yet.
---
 .../rpp/observables/connectable_observable.hpp   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..8cb90a0 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -52,11 +52,19 @@ namespace rpp::details
         std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> on_subscribe() const
         {
             std::unique_lock lock(m_state->mutex);
-            if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
+            if (const auto locked = m_state->disposable.lock())
+            {
+                if (auto ref = locked->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+            }
+
+            const auto old = std::exchange(m_state->disposable, disposable_wrapper_impl<rpp::refcount_disposable>::make());
+            std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> result{m_state->disposable.lock()->add_ref(), m_state->disposable};
+            lock.unlock();
 
-            m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
-            return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+            // last reference could be released by another thread, but connection itself could be still not disposed: need to be sure before new connect
+            old.dispose();
+            return result;
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From ee391c74383434c9add8c0c29b94c924b7348ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:03 +0000
Subject: [PATCH 10/36] fix: on_error_resume_next releases the failed source
 before subscribing to the next one

---
 .../rpp/operators/on_error_resume_next.hpp    | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 4426cc2..1d3311b 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -17,32 +17,46 @@
 
 namespace rpp::operators::details
 {
+    template<rpp::constraint::observer TObserver>
+    struct on_error_resume_next_state final
+    {
+        explicit on_error_resume_next_state(TObserver&& in_observer)
+            : observer(std::move(in_observer))
+        {
+            observer.set_upstream(disposable);
+        }
+
+        RPP_NO_UNIQUE_ADDRESS TObserver observer;
+
+        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
+    };
+
     template<rpp::constraint::observer TObserver>
     struct on_error_resume_next_inner_observer_strategy
     {
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
-        std::shared_ptr<TObserver> observer;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
 
         template<typename T>
         void on_next(T&& v) const
         {
-            observer->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            observer->on_error(err);
+            state->observer.on_error(err);
         }
 
         void on_completed() const
         {
-            observer->on_completed();
+            state->observer.on_completed();
         }
 
-        void set_upstream(const disposable_wrapper& d) { observer->set_upstream(d); }
+        void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return observer->is_disposed(); }
+        bool is_disposed() const { return state->disposable.is_disposed(); }
     };
 
 
@@ -52,43 +66,48 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         on_error_resume_next_observer_strategy(TObserver&& observer, const Selector& selector)
-            : state{std::make_shared<TObserver>(std::move(observer))}
+            : state{std::make_shared<on_error_resume_next_state<TObserver>>(std::move(observer))}
             , selector{selector}
         {
         }
 
-        std::shared_ptr<TObserver>     state;
-        RPP_NO_UNIQUE_ADDRESS Selector selector;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
+        RPP_NO_UNIQUE_ADDRESS Selector                         selector;
+        mutable bool                                           locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
         {
-            state->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
             try
             {
-                selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
+                const auto resumed = selector(err);
+                // failed source is not needed anymore
+                state->disposable.clear();
+                resumed.subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
             }
             catch (...)
             {
-                state->on_error(std::current_exception());
+                state->observer.on_error(std::current_exception());
             }
         }
 
         void on_completed() const
         {
-            state->on_completed();
+            state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            state->set_upstream(d);
+            state->disposable.add(d);
         }
 
-        bool is_disposed() const { return state->is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
@@ -113,7 +132,7 @@ namespace rpp::operators::details
         };
 
         template<rpp::details::observables::constraint::disposable_strategy Prev>
-        using updated_disposable_strategy = rpp::details::observables::default_disposable_strategy_selector;
+        using updated_disposable_strategy = rpp::details::observables::fixed_disposable_strategy_selector<1>;
     };
 } // namespace rpp::operators::details
 
-- 
2.43.0


From 29eaaba345fcea5e77e23e717300a6cacb124c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 11/36] fix: thread_pool picks workers without data race on
 concurrent create_worker

---
 src/rpp/rpp/schedulers/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..3d9edd4 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -84,7 +85,7 @@ namespace rpp::schedulers
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{};
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0


From ba630fed4ff94e67712ae5c166ca3da5c72609a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 12/36] fix: new_thread notices schedulables scheduled via
 current_thread from inside of its own task

---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..596e039 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -259,6 +261,9 @@ namespace rpp::schedulers::details
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
             std::lock_guard                      lock{mutex};
 
+            if (s)
+                s->has_fresh_data.store(true);
+
             if (!m_head || schedulable->get_timepoint() < m_head->get_timepoint())
             {
                 schedulable->set_next(std::move(m_head));
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..d454a48 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From 9e67d57308cec9b8d578d8a5bf238a963db0bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 13/36] fix: new_thread wakes up in time for a schedulable
 scheduled before the one it is waiting for

---
 src/rpp/rpp/schedulers/new_thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index d454a48..e3e4033 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -83,9 +83,10 @@ namespace rpp::schedulers
 
                     if (details::s_last_now_time < state->queue.top()->get_timepoint())
                     {
-                        if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
+                        const auto wait_till = state->queue.top()->get_timepoint();
+                        if (const auto now = worker_strategy::now(); now < wait_till)
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            state->cv.wait_for(lock, wait_till - now, [&] { return state->queue.top()->is_disposed() || state->queue.top()->get_timepoint() < wait_till || worker_strategy::now() >= wait_till; });
                             continue;
                         }
                     }
-- 
2.43.0


From 99dd0fcfef88be83fe1ab36704083a5181160e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 14/36] fix: observe_on does not forward on_error while another
 thread is inside on_next of the same observer

---
 src/rpp/rpp/operators/delay.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..2683790 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -116,7 +117,11 @@ namespace rpp::operators::details
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
-                state->observer.on_error(std::forward<TT>(item));
+                // observer is busy with other emission now: error would be forwarded right after it
+                if (state->is_emitting)
+                    state->queue.emplace(std::forward<TT>(item), schedulers::time_point{});
+                else
+                    state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
             else
@@ -137,6 +142,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +155,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From 89ceceb6cf8e725e90d4aae70eabaa21eeb7014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 15/36] fix: timeout does not emit to the observer which was
 moved to the fallback while on_next was waiting for it

---
 src/rpp/rpp/operators/timeout.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..7a9e277 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,9 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            if (disposable->is_disposed())
+                return;
+
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From 1c17eeb8a7ad9833e77c16a1463b486bbaa386ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 16/36] fix: debounce does not lose the last value if the
 source completes while the value is about to be emitted

---
 src/rpp/rpp/operators/debounce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index c2485e1..e9db87f 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -74,12 +74,14 @@ namespace rpp::operators::details
             m_worker.schedule(
                 time_point,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
-                    auto value_or_duration = handler.state->extract_value_or_time();
+                    // value has to be emitted under the same lock it was extracted, otherwise on_completed can outrun it
+                    const auto observer          = handler.state->get_observer_under_lock();
+                    auto       value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From 4ac099c5a464b57964148ef792f884b087a64829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 17/36] fix: window_toggle does not complete a window while
 another thread is emitting to it

---
 src/rpp/rpp/operators/window_toggle.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..2a0f034 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -98,7 +98,11 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
-            itr->on_completed();
+            {
+                // source can be emitting to the same observer right now
+                const auto locked_state = state->get_state_under_lock();
+                itr->on_completed();
+            }
             this_disposable.dispose();
 
             auto locked_state = state->get_state_under_lock();
-- 
2.43.0


From 58312295cfbd57787e092092f5587da6b9e1c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 18/36] fix: switch_on_next does not mirror an old observable
 after it switched to the next one concurrently

---
 src/rpp/rpp/operators/switch_on_next.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..a9949ff 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,17 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            const auto observer = m_state->get_observer();
+            // could be switched to the next observable while waiting for the lock
+            if (!is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            const auto observer = m_state->get_observer();
+            if (!is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
-- 
2.43.0


From c5570cf966c2b7168faf00eed2e69d163780ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 19/36] fix: concat does not lose an observable emitted while
 the previous one completes on another thread

---
 src/rpp/rpp/operators/concat.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..8007b8b 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -58,7 +58,6 @@ namespace rpp::operators::details
                 const auto observable = get_observable();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -95,7 +94,11 @@ namespace rpp::operators::details
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                // stage is changed under lock of the queue to be sure that nobody adds observable to the queue which is not going to be drained anymore
+                stage().store(ConcatStage::None, std::memory_order::seq_cst);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -174,11 +177,16 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
-                base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
+            {
+                auto        queue   = base::state->get_queue();
+                ConcatStage current = ConcatStage::None;
+                if (!base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                {
+                    queue->push(std::forward<T>(v));
+                    return;
+                }
+            }
+            base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
         }
 
         void on_completed() const
-- 
2.43.0


From b65f24d9e63a425da85b7e6a765fcc014b897ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:40 +0000
Subject: [PATCH 20/36] fix: retry_when releases the failed source at once
 instead of when it is time to retry

---
 src/rpp/rpp/operators/retry_when.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index ef9f28a..df7fcaf 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -103,7 +103,10 @@ namespace rpp::operators::details
         {
             try
             {
-                state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
+                const auto notifier = state->notifier(err);
+                // failed source is not needed anymore
+                state->disposable.clear();
+                notifier.subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
             }
             catch (...)
             {
-- 
2.43.0


From 2ef96561151087c023a6335ae6cfe68f2df5bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 21/36] fix: asio strand reports an exception of a task to its
 handler instead of letting it escape from the context

---
 .../rppasio/rppasio/schedulers/strand.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index feb6ad8..1db6a4c 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -52,7 +52,7 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
+                    if (const auto new_duration = invoke(fn, handler, args...))
                         self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
@@ -69,12 +69,26 @@ namespace rppasio::schedulers
                         return;
 
                     current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
+                    if (const auto new_duration = invoke(fn, handler, args...))
                         self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
         private:
+            template<typename Fn, typename Handler, typename... Args>
+            static std::invoke_result_t<Fn&, Handler&, Args&...> invoke(Fn& fn, Handler& handler, Args&... args)
+            {
+                try
+                {
+                    return fn(handler, args...);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                    return std::nullopt;
+                }
+            }
+
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
             {
-- 
2.43.0


From 1b215f52af42fd6a81daa41124e79c29ce6c50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:44 +0000
Subject: [PATCH 22/36] fix: qt main_thread_scheduler never runs a task before
 its time: rounds the delay up to milliseconds and uses a precise timer

---
 src/extensions/rppqt/rppqt/schedulers/main_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..225ea0b 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -44,7 +44,7 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
                 });
-- 
2.43.0


From a32d00ea718f8e916f6f19d77ed357967ea4bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:44 +0000
Subject: [PATCH 23/36] fix: qt main_thread_scheduler reports an exception of a
 task to its handler instead of letting it escape into the event loop

---
 .../rppqt/rppqt/schedulers/main_thread.hpp    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 225ea0b..b3102ba 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -53,10 +53,24 @@ namespace rppqt::schedulers
             static rpp::schedulers::time_point now() { return rpp::schedulers::clock_type::now(); }
 
         private:
+            template<typename Fn, typename Handler, typename... Args>
+            static std::invoke_result_t<Fn&, Handler&, Args&...> call(Fn& fn, Handler& handler, Args&... args)
+            {
+                try
+                {
+                    return fn(handler, args...);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                    return std::nullopt;
+                }
+            }
+
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
-                if (const auto new_duration = fn(handler, args...))
+                if (const auto new_duration = call(fn, handler, args...))
                     defer_for(new_duration->value, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
@@ -64,14 +78,14 @@ namespace rppqt::schedulers
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
                 const auto now = rpp::schedulers::clock_type::now();
-                if (const auto new_duration = fn(handler, args...))
+                if (const auto new_duration = call(fn, handler, args...))
                     defer_for(now + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_to_fn<Handler, Args...> Fn>
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
-                if (const auto new_tp = fn(handler, args...))
+                if (const auto new_tp = call(fn, handler, args...))
                     defer_for(new_tp->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
         };
-- 
2.43.0


From 9ca8de09340372932b780555a805daab2d7751a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 24/36] fix: grpc server reactor finishes with an error when
 its observer fails while writes are pending

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..3f76405 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -59,7 +59,7 @@ namespace rppgrpc::details
             }
             else if (m_finished)
             {
-                finish_writes(grpc::Status::OK);
+                finish_writes(m_status);
             }
         }
 
@@ -80,9 +80,10 @@ namespace rppgrpc::details
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
                 owner.get().m_finished = true;
+                owner.get().m_status   = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                    owner.get().finish_writes(owner.get().m_status);
             }
             void on_completed() const
             {
@@ -103,6 +104,7 @@ namespace rppgrpc::details
         std::mutex        m_write_mutex{};
         std::deque<TData> m_write{};
         bool              m_finished{};
+        grpc::Status      m_status{};
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From 94286e721bd2ac921282819a8ab671084a5696d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 25/36] fix: grpc reactors serialize the events of concurrent
 reactions

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 3f76405..d49cbf7 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -138,8 +138,8 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        rpp::subjects::serialized_publish_subject<TData> m_observer;
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From d0818c252ceee978bb74fa548a97ba0afb8b6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 26/36] fix: grpc client reactors post the first read before
 they start the call

---
 src/extensions/rppgrpc/rppgrpc/client_reactor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..4a3a3f6 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -44,8 +44,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // the call can be done (and reactor destroyed) at any time after StartCall, so first read has to be posted before
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_writer<Request>::get_observer;
@@ -182,8 +183,9 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // the call can be done (and reactor destroyed) at any time after StartCall, so first read has to be posted before
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_reader<Response>::get_observable;
-- 
2.43.0


From 9edb4cb98012269439fa7b39e6a7d23cfca8de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:20 +0000
Subject: [PATCH 27/36] fix: grpc server reactors finish the call exactly once
 and write nothing after that

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 26 ++++++++++++++++---
 .../rppgrpc/rppgrpc/server_reactor.hpp        |  6 ++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index d49cbf7..4e7fc20 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -20,6 +20,7 @@
 
 #include <deque>
 #include <mutex>
+#include <utility>
 
 namespace rppgrpc::details
 {
@@ -53,16 +54,25 @@ namespace rppgrpc::details
             std::lock_guard lock{m_write_mutex};
             m_write.pop_front();
 
+            if (m_finish_sent)
+                return;
+
             if (!m_write.empty())
             {
                 start_write(m_write.front());
             }
             else if (m_finished)
             {
-                finish_writes(m_status);
+                finish_once(m_status);
             }
         }
 
+        void finish_now(const grpc::Status& status)
+        {
+            std::lock_guard lock{m_write_mutex};
+            finish_once(status);
+        }
+
         struct observer_strategy
         {
             std::reference_wrapper<base_writer> owner{};
@@ -71,6 +81,9 @@ namespace rppgrpc::details
             void on_next(T&& message) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
+                if (owner.get().m_finish_sent)
+                    return;
+
                 owner.get().m_write.push_back(std::forward<T>(message));
                 if (owner.get().m_write.size() == 1)
                     owner.get().start_write(owner.get().m_write.front());
@@ -83,7 +96,7 @@ namespace rppgrpc::details
                 owner.get().m_status   = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_status);
+                    owner.get().finish_once(owner.get().m_status);
             }
             void on_completed() const
             {
@@ -91,7 +104,7 @@ namespace rppgrpc::details
                 owner.get().m_finished = true;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                    owner.get().finish_once(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -99,11 +112,18 @@ namespace rppgrpc::details
         };
 
     private:
+        void finish_once(const grpc::Status& status)
+        {
+            if (!std::exchange(m_finish_sent, true))
+                finish_writes(status);
+        }
+
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
         std::mutex        m_write_mutex{};
         std::deque<TData> m_write{};
         bool              m_finished{};
+        bool              m_finish_sent{};
         grpc::Status      m_status{};
     };
 
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..844e058 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -95,7 +95,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::finish_now(grpc::Status::CANCELLED);
         }
     };
 
@@ -144,7 +144,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::finish_now(grpc::Status::OK);
                 return;
             }
 
@@ -164,7 +164,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::finish_now(grpc::Status::CANCELLED);
         }
     };
 
-- 
2.43.0


From 9d056a7977e331feec1b9ba9b398951887411e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:21 +0000
Subject: [PATCH 28/36] fix: grpc reactors can be destroyed while another
 thread still uses their observer

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 60 +++++++++++++------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 4e7fc20..2907007 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -19,6 +19,7 @@
 #include "rpp/subjects/publish_subject.hpp"
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <utility>
 
@@ -30,7 +31,8 @@ namespace rppgrpc::details
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_link->owner = this;
+            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{m_link});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -46,12 +48,17 @@ namespace rppgrpc::details
 
         void handle_on_done()
         {
+            {
+                // observer can be used by another thread at the moment and would outlive this reactor
+                std::lock_guard lock{m_link->mutex};
+                m_link->owner = nullptr;
+            }
             m_subject.get_disposable().dispose();
         }
 
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_link->mutex};
             m_write.pop_front();
 
             if (m_finish_sent)
@@ -69,42 +76,57 @@ namespace rppgrpc::details
 
         void finish_now(const grpc::Status& status)
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_link->mutex};
             finish_once(status);
         }
 
+        struct link
+        {
+            std::mutex   mutex{};
+            base_writer* owner{};
+        };
+
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<link> state{};
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                if (owner.get().m_finish_sent)
+                std::lock_guard lock{state->mutex};
+                const auto owner = state->owner;
+                if (!owner || owner->m_finish_sent)
                     return;
 
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
-                    owner.get().start_write(owner.get().m_write.front());
+                owner->m_write.push_back(std::forward<T>(message));
+                if (owner->m_write.size() == 1)
+                    owner->start_write(owner->m_write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
-                owner.get().m_status   = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
+                std::lock_guard lock{state->mutex};
+                const auto owner = state->owner;
+                if (!owner)
+                    return;
+
+                owner->m_finished = true;
+                owner->m_status   = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(owner.get().m_status);
+                if (owner->m_write.size() == 0)
+                    owner->finish_once(owner->m_status);
             }
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                std::lock_guard lock{state->mutex};
+                const auto owner = state->owner;
+                if (!owner)
+                    return;
+
+                owner->m_finished = true;
 
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(grpc::Status::OK);
+                if (owner->m_write.size() == 0)
+                    owner->finish_once(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -118,9 +140,9 @@ namespace rppgrpc::details
                 finish_writes(status);
         }
 
+        std::shared_ptr<link>                            m_link = std::make_shared<link>();
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex        m_write_mutex{};
         std::deque<TData> m_write{};
         bool              m_finished{};
         bool              m_finish_sent{};
-- 
2.43.0


From 778f1433cce4a3a79af2d9898eddbe557f73bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:39 +0000
Subject: [PATCH 29/36] fix: group_by uses the key comparator it was given

---
 src/rpp/rpp/operators/group_by.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/group_by.hpp b/src/rpp/rpp/operators/group_by.hpp
index 1e6cccb..6e2e105 100644
--- a/src/rpp/rpp/operators/group_by.hpp
+++ b/src/rpp/rpp/operators/group_by.hpp
@@ -73,7 +73,7 @@ namespace rpp::operators::details
 
         using subject_observer = decltype(std::declval<subjects::publish_subject<Type>>().get_observer());
 
-        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{};
+        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{comparator};
         std::shared_ptr<refcount_disposable>                    disposable = [&] {
             auto ptr = disposable_wrapper_impl<refcount_disposable>::make().lock();
             observer.set_upstream(ptr->add_ref());
-- 
2.43.0


From 5540a75c3e4b22ff361b43c9efd41e22073ea09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:11 +0000
Subject: [PATCH 30/36] fix: composite_disposable::remove disposes the removed
 child only after leaving the Edit state

---
 src/rpp/rpp/disposables/composite_disposable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 93b09ae..2acd250 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -97,6 +97,9 @@ namespace rpp
 
         void remove(const disposable_wrapper& disposable) override
         {
+            // composite can own the last reference: child has to be destroyed (and disposed) only after leaving the Edit state
+            const auto locked = disposable.lock();
+
             while (true)
             {
                 State expected{State::None};
-- 
2.43.0


From 59b4419e183848c2eb7b582f4a29411b248657c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:11 +0000
Subject: [PATCH 31/36] fix: disposables made via a base wrapper know their own
 wrapper, so a released reference is removed from its refcount_disposable

---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..4f35243 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -134,9 +134,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From f7a3b87f9a73532a5eaa4e8e3297ea1fcc667b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:46 +0000
Subject: [PATCH 32/36] fix: retry_when ignores a source which goes on emitting
 after its own end

---
 src/rpp/rpp/operators/retry_when.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index df7fcaf..403847d 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -92,6 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
+        mutable bool                                                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -101,6 +102,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
             try
             {
                 const auto notifier = state->notifier(err);
@@ -116,12 +118,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
+            locally_disposed = true;
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
-- 
2.43.0


From adc5be384d7e0a5168cec960e3eb7343448f8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 33/36] fix: buffer and take_last do not rely on the capacity
 of the vector (vector<bool> reserves more than asked)

---
 src/rpp/rpp/operators/buffer.hpp    | 10 ++++++----
 src/rpp/rpp/operators/take_last.hpp |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rpp/rpp/operators/buffer.hpp b/src/rpp/rpp/operators/buffer.hpp
index b82286f..0aa6232 100644
--- a/src/rpp/rpp/operators/buffer.hpp
+++ b/src/rpp/rpp/operators/buffer.hpp
@@ -31,21 +31,22 @@ namespace rpp::operators::details
 
         buffer_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{std::max(size_t{1}, count)}
         {
-            m_bucket.reserve(std::max(size_t{1}, count));
+            m_bucket.reserve(m_count);
         }
 
         template<typename T>
         void on_next(T&& v) const
         {
             m_bucket.push_back(std::forward<T>(v));
-            if (m_bucket.size() == m_bucket.capacity())
+            // capacity can be greater than requested (for example, vector<bool>)
+            if (m_bucket.size() == m_count)
             {
-                const auto capacity = m_bucket.capacity();
                 m_observer.on_next(std::move(m_bucket));
 
                 m_bucket.clear();
-                m_bucket.reserve(capacity);
+                m_bucket.reserve(m_count);
             }
         }
 
@@ -64,6 +65,7 @@ namespace rpp::operators::details
 
     private:
         RPP_NO_UNIQUE_ADDRESS TObserver m_observer;
+        const size_t                    m_count;
         mutable std::vector<value_type> m_bucket;
     };
 
diff --git a/src/rpp/rpp/operators/take_last.hpp b/src/rpp/rpp/operators/take_last.hpp
index f12b266..009e63f 100644
--- a/src/rpp/rpp/operators/take_last.hpp
+++ b/src/rpp/rpp/operators/take_last.hpp
@@ -27,6 +27,7 @@ namespace rpp::operators::details
 
         take_last_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{count}
         {
             m_data.reserve(count);
         }
@@ -35,11 +36,11 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             // handle case "count==0"
-            if (!m_data.capacity())
+            if (!m_count)
                 return;
 
-            // handle case "count==0"
-            if (m_data.size() < m_data.capacity())
+            // capacity can be greater than requested (for example, vector<bool>)
+            if (m_data.size() < m_count)
             {
                 m_data.push_back(std::forward<T>(v));
             }
@@ -76,6 +77,7 @@ namespace rpp::operators::details
 
     private:
         RPP_NO_UNIQUE_ADDRESS TObserver                                     m_observer;
+        const size_t                                                        m_count;
         mutable std::vector<rpp::utils::extract_observer_type_t<TObserver>> m_data{};
         mutable size_t                                                      m_current_end{};
     };
-- 
2.43.0


From ae4a201a664b5b3c306b883172a7772292fe8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:02 +0000
Subject: [PATCH 34/36] fix: dropping a queue of schedulables does not recurse
 once per pending task

---
 src/rpp/rpp/schedulers/details/queue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index 596e039..99c1717 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -38,7 +38,13 @@ namespace rpp::schedulers::details
         {
         }
 
-        virtual ~schedulable_base() noexcept = default;
+        virtual ~schedulable_base() noexcept
+        {
+            // release the rest of the queue one by one: recursion of destructors overflows the stack when a lot of schedulables are pending
+            auto next = std::move(m_next);
+            while (next && next.use_count() == 1)
+                next = std::move(next->m_next);
+        }
 
         virtual std::optional<time_point> operator()() noexcept = 0;
 
-- 
2.43.0


From a7539158a73b2d2ec466f1f6b75b31c342308fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:13 +0000
Subject: [PATCH 35/36] fix: new_thread releases disposed schedulables without
 holding the queue mutex

---
 src/rpp/rpp/schedulers/new_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index e3e4033..ef2c045 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -77,7 +77,9 @@ namespace rpp::schedulers
 
                     if (state->queue.top()->is_disposed())
                     {
-                        state->queue.pop();
+                        // should be destroyed after unlocking: destructor of schedulable runs user's code which could wait for thread scheduling to this queue
+                        const auto disposed = state->queue.pop();
+                        lock.unlock();
                         continue;
                     }
 
-- 
2.43.0


From 18a99b48fa9cc46d8e5d73e75c8f2e3adcb09f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:20 +0000
Subject: [PATCH 36/36] fix: current_thread doesn't run schedulables disposed
 while it sleeps for them

---
 src/rpp/rpp/schedulers/current_thread.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index f4d5ca2..973144e 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -114,6 +114,10 @@ namespace rpp::schedulers
 
                 while (true)
                 {
+                    // could be disposed by another thread while this one was sleeping
+                    if (top->is_disposed())
+                        break;
+
                     if (const auto res = top->make_advanced_call())
                     {
                         if (!top->is_disposed())
-- 
2.43.0

