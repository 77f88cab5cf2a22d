From 601190cfb61853be62466f3552051dc1c6b158d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:36 +0000
Subject: [PATCH 01/17] fix: make manual_reset_event timed waits with
 non-system clocks compile

priv_timed_wait(chrono_time_point) called the public timed_wait with a
system_duration, which is not a supported time type, so waiting until a
steady_clock time point did not compile.
---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From 5b38cafc47a2977bd87ebbaf9070440c3a0340a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 02/17] fix: negative durations and pre-epoch time points in
 timed operations

system_time_point arithmetic mixed signed durations with the unsigned
subsecond_fraction, so adding a negative duration (or converting a time
point before 1970) produced a point hundreds of years in the future and
the timed operation blocked instead of timing out.
---
 include/boost/sync/detail/time_units.hpp | 26 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..00764d8 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,9 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        m_value.tv_sec = 0;
+        m_value.tv_nsec = 0;
+        operator+= (dur);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +196,22 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
-        if (tv_nsec < 0)
+        // Note: the calculations must be done in signed integers since the duration may be negative
+        const int64_t fraction = static_cast< int64_t >(subsecond_fraction);
+        int64_t sec = static_cast< int64_t >(m_value.tv_sec) + dur.get() / fraction;
+        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
+        if (nsec < 0)
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            nsec += fraction;
+            --sec;
         }
-        m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        else if (nsec >= fraction)
+        {
+            nsec -= fraction;
+            ++sec;
+        }
+        m_value.tv_sec = static_cast< ::time_t >(sec);
+        m_value.tv_nsec = static_cast< long >(nsec);
 
         return *this;
     }
-- 
2.43.0


From 9c23a94ae34dea3b23b4d478b6f0ce18679b0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 03/17] fix: shared_spin_mutex::try_lock_shared failing with no
 exclusive owner

The single compare-exchange failed when another reader acquired or
released the mutex in between, although readers do not conflict.
---
 .../sync/detail/mutexes/shared_spin_mutex.hpp   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..d957f54 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,14 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
-
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
+        while ( current_state != locked_state ) {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+            detail::pause();
+        }
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From 29b5424c39067ca2ea19449e6769806f2927e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 04/17] fix: auto_reset_event::post lost when the event looked
 already signalled

When post found the event signalled it only issued a release fence,
without writing to the state. The thread consuming the signal did not
synchronize with such a post, and since the relaxed load could be
outdated, the post could be lost together with the data published
before it (poster: write data, see old signalled state; waiter: consume
the signal, not see the data, block).
---
 .../detail/events/auto_reset_event_futex.hpp  |  9 ++++++--
 .../events/auto_reset_event_semaphore.hpp     | 23 ++++++++-----------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..017f8da 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -72,8 +72,13 @@ public:
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // Perform a read-modify-write operation nonetheless, so that the thread that resets the event synchronizes with this post
+                // and so that the event is really still signalled, as opposed to our having loaded an outdated state.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+
+                detail::pause();
             }
         }
 
diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..63c468d 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,21 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            // If the event is already set with no waiters, leave the state intact. A read-modify-write operation is still needed, so that
+            // the thread that resets the event synchronizes with this post and so that the event is really still signalled,
+            // as opposed to our having loaded an outdated state.
+            const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
+            if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
+                if (new_state != old_state)
                     m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
+                return;
             }
-        }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From 813f2f1343d85b864fbd989f0188ac1216bd9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:00 +0000
Subject: [PATCH 05/17] fix: relative timed waits of futex events restarting
 the timeout on every wakeup

---
 .../detail/events/auto_reset_event_futex.hpp  |  9 +++++--
 .../events/manual_reset_event_futex.hpp       | 25 +++++++++----------
 include/boost/sync/detail/futex.hpp           | 10 ++++++++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 017f8da..0b944ff 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -228,10 +228,11 @@ private:
         if (this->try_wait())
             return true;
 
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
+        if (dur.get() <= 0)
             return false;
 
+        const int64_t start = sync::detail::linux_::futex_clock_now();
+
         // Add one waiter
         unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
         while (true)
@@ -243,6 +244,10 @@ private:
 
                 while (true)
                 {
+                    // The wait may be restarted multiple times, don't let the total time exceed the requested duration
+                    const sync::detail::system_duration::native_type time_left = dur.get() - (sync::detail::linux_::futex_clock_now() - start);
+                    if (time_left <= 0)
+                        return on_wait_timed_out();
                     const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
                     if (status != 0)
                     {
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..153ba7c 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -149,10 +149,12 @@ private:
         if (this->try_wait())
             return true;
 
+        const int64_t start = sync::detail::linux_::futex_clock_now();
         unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
         while ((old_state & post_bit) == 0u)
         {
-            sync::detail::system_duration::native_type time_left = dur.get();
+            // The wait may be restarted multiple times, don't let the total time exceed the requested duration
+            const sync::detail::system_duration::native_type time_left = dur.get() - (sync::detail::linux_::futex_clock_now() - start);
             if (time_left <= 0)
             {
                 m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
@@ -161,22 +163,19 @@ private:
 
             // Check that system time resolution is nanoseconds
             BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
+
+            const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
+            if (status != 0)
             {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
+                const int err = errno;
+                if (BOOST_LIKELY(err == ETIMEDOUT))
                 {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
+                    m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
+                    return false;
                 }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
             }
-            while ((old_state & post_bit) == 0u);
+
+            old_state = m_state.load(boost::memory_order_relaxed);
         }
 
         m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
diff --git a/include/boost/sync/detail/futex.hpp b/include/boost/sync/detail/futex.hpp
index 39e0e1a..e16ff75 100644
--- a/include/boost/sync/detail/futex.hpp
+++ b/include/boost/sync/detail/futex.hpp
@@ -20,10 +20,12 @@
 
 #include <stddef.h>
 #include <limits.h>
+#include <time.h>
 #include <unistd.h>
 #include <sys/time.h>
 #include <sys/syscall.h>
 #include <linux/futex.h>
+#include <boost/cstdint.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/header.hpp>
 
@@ -86,6 +88,14 @@ BOOST_FORCEINLINE int futex_timedwait(int* pval, int expected, uint64_t timeout_
     );
 }
 
+//! Returns the current time, in nanoseconds, of the clock used to measure timeouts in \c futex_timedwait
+inline int64_t futex_clock_now() BOOST_NOEXCEPT
+{
+    struct ::timespec now;
+    ::clock_gettime(CLOCK_MONOTONIC, &now);
+    return static_cast< int64_t >(now.tv_sec) * 1000000000 + now.tv_nsec;
+}
+
 //! Wakes all threads waiting on the futex
 BOOST_FORCEINLINE int futex_broadcast(int* pval) BOOST_NOEXCEPT
 {
-- 
2.43.0


From bdd941f25ca5c560f76fc65ba0ef9bbd59252496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:41 +0000
Subject: [PATCH 06/17] fix: notification lost when a condition variable wait
 is restarted after EINTR

---
 include/boost/sync/detail/pthread.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/boost/sync/detail/pthread.hpp b/include/boost/sync/detail/pthread.hpp
index cb13728..007eccb 100644
--- a/include/boost/sync/detail/pthread.hpp
+++ b/include/boost/sync/detail/pthread.hpp
@@ -131,23 +131,21 @@ BOOST_FORCEINLINE int pthread_cond_destroy(pthread_cond_t* c) BOOST_NOEXCEPT
 
 BOOST_FORCEINLINE int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) BOOST_NOEXCEPT
 {
-    int ret;
-    do
-    {
-        ret = ::pthread_cond_wait(c, m);
-    }
-    while (ret == EINTR);
+    // The mutex has been released while waiting, so a notification may have been issued after the wait was interrupted.
+    // Blocking again would miss it, so report a spurious wakeup instead.
+    int ret = ::pthread_cond_wait(c, m);
+    if (ret == EINTR)
+        ret = 0;
     return ret;
 }
 
 BOOST_FORCEINLINE int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct ::timespec* t) BOOST_NOEXCEPT
 {
-    int ret;
-    do
-    {
-        ret = ::pthread_cond_timedwait(c, m, t);
-    }
-    while (ret == EINTR);
+    // The mutex has been released while waiting, so a notification may have been issued after the wait was interrupted.
+    // Blocking again would miss it, so report a spurious wakeup instead.
+    int ret = ::pthread_cond_timedwait(c, m, t);
+    if (ret == EINTR)
+        ret = 0;
     return ret;
 }
 
-- 
2.43.0


From 5d5db43e073e4c755466eca852ce0e9a1b21f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 07/17] fix: relative timeouts restarted on every wakeup in
 condition_variable_any and emulated primitives

---
 .../condition_variable_any_generic.hpp        | 19 +++++++++++----
 .../events/manual_reset_event_emulation.hpp   | 24 +++++++++----------
 .../detail/semaphore/semaphore_emulation.hpp  | 23 ++++++++++--------
 3 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..7ec4821 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +115,9 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -125,6 +127,13 @@ public:
         return true;
     }
 
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        return this->wait_for(lock, t, pred);
+    }
+
     template< typename Lock, typename TimePoint >
     typename detail::enable_if_tag< TimePoint, detail::time_point_tag, sync::cv_status >::type
     wait_until(Lock& lock, TimePoint const& abs_time)
@@ -161,9 +170,11 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
+        // Don't restart the timeout every time the thread is woken up
+        const sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time);
         while (!pred())
         {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
+            if (this->wait_until(lock, abs_timeout.get()) != sync::cv_status::no_timeout)
                 return pred();
         }
         return true;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..4424959 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -36,6 +36,17 @@ class manual_reset_event
     BOOST_DELETED_FUNCTION(manual_reset_event(manual_reset_event const&));
     BOOST_DELETED_FUNCTION(manual_reset_event& operator= (manual_reset_event const&));
 
+private:
+    //! Condition variable predicate. Unlike a loop around a wait without a predicate, waiting with it doesn't restart relative timeouts.
+    class is_true
+    {
+        bool const& m_value;
+
+    public:
+        explicit is_true(bool const& value) BOOST_NOEXCEPT : m_value(value) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_value; }
+    };
+
 public:
     manual_reset_event() : m_is_set(false)
     {
@@ -76,18 +87,7 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
-
-        return true;
+        return m_cond.timed_wait(lock, timeout, is_true(m_is_set));
     }
 
     template< typename Duration >
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..c7d5188 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -36,6 +36,17 @@ class semaphore
     BOOST_DELETED_FUNCTION(semaphore(semaphore const&))
     BOOST_DELETED_FUNCTION(semaphore& operator=(semaphore const&))
 
+private:
+    //! Condition variable predicate. Unlike a loop around a wait without a predicate, waiting with it doesn't restart relative timeouts.
+    class is_nonzero
+    {
+        unsigned int const& m_value;
+
+    public:
+        explicit is_nonzero(unsigned int const& value) BOOST_NOEXCEPT : m_value(value) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_value != 0; }
+    };
+
 public:
     explicit semaphore(unsigned int i = 0) : m_count(i)
     {
@@ -71,16 +82,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, is_nonzero(m_count)))
+            return false;
 
         --m_count;
         return true;
-- 
2.43.0


From f7580c16727f30e826d307f7312ce4416963fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:25 +0000
Subject: [PATCH 08/17] fix: emulated auto_reset_event losing posts made while
 several threads are blocked

---
 .../events/auto_reset_event_emulation.hpp     | 67 +++++++++++++------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..47e537c 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -36,18 +36,42 @@ class auto_reset_event
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&));
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
+private:
+    //! Condition variable predicate. Unlike a loop around a wait without a predicate, waiting with it doesn't restart relative timeouts.
+    class is_nonzero
+    {
+        unsigned int const& m_value;
+
+    public:
+        explicit is_nonzero(unsigned int const& value) BOOST_NOEXCEPT : m_value(value) {}
+        bool operator()() const BOOST_NOEXCEPT { return m_value != 0; }
+    };
+
+    //! Registers a blocked thread
+    class waiter_guard
+    {
+        unsigned int& m_waiters;
+
+        BOOST_DELETED_FUNCTION(waiter_guard(waiter_guard const&))
+        BOOST_DELETED_FUNCTION(waiter_guard& operator= (waiter_guard const&))
+
+    public:
+        explicit waiter_guard(unsigned int& waiters) BOOST_NOEXCEPT : m_waiters(waiters) { ++m_waiters; }
+        ~waiter_guard() { --m_waiters; }
+    };
+
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_posts(0), m_waiters(0)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
-        if (!already_signaled)
+        // Posts made while there are blocked threads must release one thread each. At most one more post makes the event signalled.
+        if (m_posts <= m_waiters)
         {
-            m_is_set = true;
+            ++m_posts;
             m_cond.notify_one();
         }
     }
@@ -56,18 +80,25 @@ public:
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
 
-        while (!m_is_set)
-            m_cond.wait(lock);
+        if (m_posts == 0)
+        {
+            waiter_guard waiter(m_waiters);
+            do
+            {
+                m_cond.wait(lock);
+            }
+            while (m_posts == 0);
+        }
 
-        m_is_set = false;
+        --m_posts;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
+        const bool res = m_posts > 0;
         if (res)
-            m_is_set = false;
+            --m_posts;
         return res;
     }
 
@@ -75,18 +106,15 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
+
+        if (m_posts == 0)
         {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
+            waiter_guard waiter(m_waiters);
+            if (!m_cond.timed_wait(lock, timeout, is_nonzero(m_posts)))
+                return false;
         }
 
-        m_is_set = false;
+        --m_posts;
         return true;
     }
 
@@ -105,7 +133,8 @@ public:
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    unsigned int m_posts;
+    unsigned int m_waiters;
 };
 
 } // namespace abi
-- 
2.43.0


From e79a41b17c43598ff9ed3500867e699323d62415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 09/17] fix: semaphore-based auto_reset_event becoming
 signalled more than once after failed waits

---
 .../events/auto_reset_event_semaphore.hpp     | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 63c468d..6ea86a8 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -68,14 +68,17 @@ public:
 
     bool try_wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        while (!m_sem.try_wait())
+        {
+            // If the event is signalled then the semaphore is just about to be posted or the state is just about to be updated by another thread
+            if (m_state.load(detail::atomic_ns::memory_order_relaxed) >= 0)
+                return false;
 
-        const bool wait_successful = m_sem.try_wait();
-        if (wait_successful)
-            return true;
+            detail::pause();
+        }
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        return true;
     }
 
     template< typename Time >
@@ -87,8 +90,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Duration >
@@ -103,6 +105,32 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    bool on_wait_failed()
+    {
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        while (true)
+        {
+            if (old_state > 0)
+            {
+                // Remove one waiter
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+            }
+            else
+            {
+                // The event has been posted for every waiter, including this one, and the semaphore has been posted
+                // or is just about to be, or the post has been taken by another thread, which is just about to update the state
+                if (m_sem.try_wait())
+                    return true;
+
+                old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            }
+
+            detail::pause();
+        }
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From 939660c2f697b76826c392e54ab277c1b853ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:41 +0000
Subject: [PATCH 10/17] fix: data races and missed cleanups of thread-specific
 values when keys are deleted or created concurrently

---
 src/tss_manager.hpp | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..ced06c6 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -66,11 +66,17 @@ public:
         };
 
     private:
+        //! The mutex of the manager. Protects \c m_storage reallocations, since other threads access it when deleting keys.
+        sync::mutex& m_mutex;
         std::vector< void* > m_storage;
         std::vector< at_exit_entry > m_at_exit_functions;
         std::vector< notify_at_exit_entry > m_notify_at_exit;
 
     public:
+        explicit thread_context(sync::mutex& mtx) : m_mutex(mtx)
+        {
+        }
+
         void* get_value(thread_specific_key key) const BOOST_NOEXCEPT
         {
             if (key < m_storage.size())
@@ -82,7 +88,10 @@ public:
         void set_value(thread_specific_key key, void* value)
         {
             if (key >= m_storage.size())
+            {
+                sync::lock_guard< sync::mutex > lock(m_mutex);
                 m_storage.resize(key + 1, static_cast< void* >(NULL));
+            }
             m_storage[key] = value;
         }
 
@@ -139,7 +148,7 @@ public:
 
     thread_context* create_thread_context()
     {
-        thread_context* p = new thread_context();
+        thread_context* p = new thread_context(m_mutex);
 
         sync::lock_guard< mutex_type > lock(m_mutex);
         m_thread_contexts.push_back(*p);
@@ -162,20 +171,12 @@ public:
         }
 
         // Destroy TLS
-        while (!p->m_storage.empty())
+        void* value;
+        at_thread_exit_callback cleanup;
+        while (extract_value(p, value, cleanup))
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
-            {
-                void* const value = storage[key];
-                if (value)
-                {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
-                }
-            }
+            if (cleanup)
+                cleanup(value);
         }
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
@@ -254,6 +255,28 @@ public:
         }
     }
 
+private:
+    //! Extracts one of the values of the thread along with its cleanup function. Returns \c false if there are no more values.
+    bool extract_value(thread_context* p, void*& value, at_thread_exit_callback& cleanup)
+    {
+        // Other threads may be creating and deleting keys
+        sync::lock_guard< mutex_type > lock(m_mutex);
+
+        for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(p->m_storage.size()); key < n; ++key)
+        {
+            if (p->m_storage[key] != NULL)
+            {
+                value = p->m_storage[key];
+                p->m_storage[key] = NULL;
+                cleanup = m_storage_cleanup[key].cleanup;
+                return true;
+            }
+        }
+
+        return false;
+    }
+
+public:
     BOOST_DELETED_FUNCTION(tss_manager(tss_manager const&))
     BOOST_DELETED_FUNCTION(tss_manager& operator= (tss_manager const&))
 };
-- 
2.43.0


From e1d90c7d5771ac1e41640fdab9359cfbf4e4e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 11/17] fix: thread-specific values not accessible to functions
 called at thread exit

---
 src/tss_manager.hpp | 38 +++++++++++++++++++++++---------------
 src/tss_pthread.cpp |  3 +++
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index ced06c6..feac37a 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -158,26 +158,19 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
-        {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
-            {
-                it->callback(it->context);
-            }
-        }
-
-        // Destroy TLS
+        // Run cleanup functions and destroy TLS. Functions called for one TLS value may set other TLS values and register more cleanup functions.
         void* value;
         at_thread_exit_callback cleanup;
-        while (extract_value(p, value, cleanup))
+        do
         {
-            if (cleanup)
+            run_at_exit_functions(p);
+
+            cleanup = NULL;
+            value = NULL;
+            if (extract_value(p, value, cleanup) && cleanup)
                 cleanup(value);
         }
+        while (value || !p->m_at_exit_functions.empty());
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
@@ -256,6 +249,21 @@ public:
     }
 
 private:
+    //! Runs the functions registered to be called at the thread termination
+    static void run_at_exit_functions(thread_context* p)
+    {
+        while (!p->m_at_exit_functions.empty())
+        {
+            std::vector< thread_context::at_exit_entry > at_exit_functions;
+            at_exit_functions.swap(p->m_at_exit_functions);
+
+            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            {
+                it->callback(it->context);
+            }
+        }
+    }
+
     //! Extracts one of the values of the thread along with its cleanup function. Returns \c false if there are no more values.
     bool extract_value(thread_context* p, void*& value, at_thread_exit_callback& cleanup)
     {
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..531cb74 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -47,7 +47,10 @@ static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // The functions called below should still be able to use TSS and register other functions to be called
+        pthread_setspecific(tss_key, p);
         tss_mgr->destroy_thread_context(ctx);
+        pthread_setspecific(tss_key, NULL);
     }
 }
 
-- 
2.43.0


From 3c0bba4f1f99250477ba187ad650a7f2dce2b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 12/17] fix: thread exit not detected with
 BOOST_SYNC_USE_COMPILER_TLS on POSIX

---
 src/tss_pthread.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 531cb74..3d49ca7 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// Note: The key is needed even if compiler-supported TLS is used as its destructor is what detects thread termination
+static pthread_key_t tss_key;
 
 extern "C" {
 
@@ -50,6 +50,9 @@ static void tss_cleanup(void* p)
         // The functions called below should still be able to use TSS and register other functions to be called
         pthread_setspecific(tss_key, p);
         tss_mgr->destroy_thread_context(ctx);
+#if defined(BOOST_SYNC_DETAIL_TLS)
+        tss_context = NULL;
+#endif
         pthread_setspecific(tss_key, NULL);
     }
 }
@@ -65,10 +68,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
@@ -81,6 +82,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 }
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
+    pthread_setspecific(tss_key, p);
     tss_context = p;
 }
 
-- 
2.43.0


From 8cea2b88de9b4f189a64862a79afc267e9e1f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:04 +0000
Subject: [PATCH 13/17] fix: thread context lost if pthread_setspecific fails

---
 src/tss_pthread.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 3d49ca7..41abbfe 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <pthread.h>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include <boost/sync/detail/header.hpp>
@@ -80,10 +82,12 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
-    tss_context = p;
+    const int err = pthread_setspecific(tss_key, p);
+    if (err == 0)
+        tss_context = p;
+    return err;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -92,13 +96,26 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+inline tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    const int err = set_thread_context(ctx);
+    if (BOOST_UNLIKELY(err != 0))
+    {
+        // The context would be lost, along with everything registered in it
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("failed to create a thread context in pthread_setspecific"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
@@ -107,10 +124,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -121,10 +135,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -160,10 +171,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->set_value(key, p);
 }
-- 
2.43.0


From c71712cf4b3af2cc146d2ac28b3f36105825ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:53 +0000
Subject: [PATCH 14/17] fix: conversions between lock types do not compile

---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From f12639f8a3d818a5d7fc6e604ccf4412073e187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 15/17] fix: shared_spin_mutex.hpp does not compile on its own

---
 include/boost/sync/detail/mutexes/shared_spin_mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index d957f54..fa1ef0f 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -20,6 +20,7 @@
 #define BOOST_SYNC_DETAIL_MUTEXES_SHARED_SPIN_MUTEX_HPP_INCLUDED_
 
 #include <boost/cstdint.hpp>
+#include <boost/assert.hpp>
 
 #include <boost/sync/detail/atomic.hpp>
 #include <boost/sync/detail/pause.hpp>
-- 
2.43.0


From 434c6042862abdd321a0761b88e489b5dbbd0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:19 +0000
Subject: [PATCH 16/17] fix: lock wrappers do not compile with
 BOOST_SYNC_USE_STD_SYSTEM_ERROR

---
 include/boost/sync/exceptions/lock_error.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/sync/exceptions/lock_error.hpp b/include/boost/sync/exceptions/lock_error.hpp
index 0bd7042..58b9b37 100644
--- a/include/boost/sync/exceptions/lock_error.hpp
+++ b/include/boost/sync/exceptions/lock_error.hpp
@@ -44,6 +44,10 @@ public:
     {
     }
 
+    lock_error(sync::detail::errc_t sys_err, const char* what) : runtime_exception(static_cast<int>(sys_err), what)
+    {
+    }
+
     ~lock_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
-- 
2.43.0


From b90e1c7e344a427cfc6eb61036d5a8dca22cb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:27 +0000
Subject: [PATCH 17/17] fix: timed_mutex leaks its native mutex if
 pthread_cond_init fails

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..1c6d9cd 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0

