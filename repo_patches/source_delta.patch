From c47fb03ce2b3e4352dc7507e858871498e1471a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 1/3] fix: re-check the value after registering as a waiter in
 lock-based timed waits

wait_until_fallback and wait_until_abs_timeout compared the value read
before the wait state was registered. A change made and notified between
that read and the registration was missed, and the wait slept until its
timeout. wait() already reloads the value after registration.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From e613be1906bc1de94df405b0b927cd3f93262e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 2/3] fix: do not round negative durations up past the ceiling
 before C++17

Integer division truncates towards zero, which already is the ceiling of
a negative quotient. Adding one to it made timed waits on clocks finer
than a nanosecond sleep after the deadline had passed.
---
 include/boost/atomic/detail/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..15f9bb7 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -47,7 +47,7 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
     using conv_ratio = std::ratio_divide< Period, typename To::period >;
     using common_rep = typename std::common_type< Rep, typename To::rep, decltype(conv_ratio::num) >::type;
     return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
-        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) != static_cast< common_rep >(0))));
+        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) > static_cast< common_rep >(0))));
 }
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-- 
2.43.0


From 652bbae5f8d1a2c7c45c3fc1f84a08d57b19c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:42 +0000
Subject: [PATCH 3/3] fix: avoid overflow in timed waiting on the pthread lock
 pool with timeouts close to the maximum duration

---
 src/lock_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..1ed3c3d 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -490,8 +490,9 @@ inline bool wait_state::wait_for(lock_state& state, std::chrono::nanoseconds rel
     timespec ts{};
     BOOST_VERIFY(clock_gettime(m_clock_id, &ts) == 0);
 
-    std::chrono::nanoseconds::rep nsec = rel_timeout.count() + ts.tv_nsec;
-    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + nsec / 1000000000;
+    // Split rel_timeout first so that adding the current time to it does not overflow if the timeout is close to the maximum duration
+    std::chrono::nanoseconds::rep nsec = rel_timeout.count() % 1000000000 + ts.tv_nsec;
+    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + rel_timeout.count() / 1000000000 + nsec / 1000000000;
     if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
     {
         ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
-- 
2.43.0

