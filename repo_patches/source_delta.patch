From da9182c1669dc37b3ab9287ef35f5b981b82613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 1/9] fix: make selftest_failed a full word instead of a
 bitfield

jent_selftest() may run on another thread than the one reading from the
collector and sets selftest_failed there. As a bitfield it shares its
storage unit with apt_base_set and in_recovery, which the reading thread
modifies: a concurrent read-modify-write loses the verdict (or the flag).
The comment above the member already demands a full word.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 457e4593710a61e91cf59bc5cc89620497fa737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 2/9] fix: unmark the self test run when the known answer or
 GCD test fails

jent_entropy_init_common_pre() marks the self tests as run even when the
GCD self test failed, and a failing known answer test leaves the mark of
an earlier run in place. Both initialization functions returned without
jent_entropy_init_common_post(), so a collector could be allocated after
a failed power-on test without the tests ever passing.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..8a5833b 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1202,7 +1202,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1230,7 +1230,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From 720be84431787e7ebfa7171bc8d0859e52e3b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 3/9] fix: carry a failed self test verdict over the health
 reset

jent_selftest() failing for a collector is documented to put the
instance permanently out of service. When it fails while
jent_read_entropy_safe() is replacing the collector, the replacement
started without the verdict and delivered data.
---
 src/jitterentropy-base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 8a5833b..984b62f 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,12 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/*
+	 * A failed self test puts the instance out of service permanently: the
+	 * verdict must survive the reallocation.
+	 */
+	new_ec->selftest_failed = (*ec)->selftest_failed;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From 0cb51a1b92e1f143330e2da6be1e6873fc7c6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:54 +0000
Subject: [PATCH 4/9] fix: do not leave partial output behind when a read fails

jent_read_entropy() generates in blocks of 32 bytes. When a later block
fails its health tests (or the bound self test), the error code was
returned but the blocks generated before it stayed in the caller's
buffer, although the request delivered nothing and is accounted so.
---
 src/jitterentropy-base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 984b62f..a1d0c45 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -375,6 +375,12 @@ err:
 	if (!ret) {
 		ec->read_invocations++;
 		ec->bytes_output += orig_len;
+	} else if (p != data) {
+		/*
+		 * A failing request must not hand out the blocks generated
+		 * before the failure was detected.
+		 */
+		jent_memset_secure(data, (size_t)(p - data));
 	}
 
 	return ret ? ret : (ssize_t)orig_len;
-- 
2.43.0


From 5b5c316a6a7f183e9d744e3da1a2a33ba496f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:09 +0000
Subject: [PATCH 5/9] fix: do not fall back to the internal timer when memory
 is missing

A failed allocation of the power-on test instance (lack of memory, a refused
memory lock, a refused oversampling rate) is no verdict on the clock, but it
forced the internal timer for the life of the process.
---
 src/jitterentropy-base.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index a1d0c45..d3b14b1 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1219,7 +1219,8 @@ int jent_entropy_init(void)
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
-	if (ret)
+	/* Not on EMEM - see jent_entropy_init_ex() */
+	if (ret && ret != EMEM)
 		ret = jent_time_entropy_init(0, JENT_FORCE_INTERNAL_TIMER);
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
 
@@ -1275,8 +1276,13 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	 * intermittent health test failure, a normal event with the tighter
 	 * NTG.1 cutoffs, would put NTG.1 out of action for the life of the
 	 * process.
+	 *
+	 * Nor when no test instance could be allocated: that is no verdict on
+	 * the platform clock either, and a lack of memory or a refused memory
+	 * lock would otherwise take the clock out of use for good.
 	 */
-	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
+	if (ret && ret != EMEM &&
+	    !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
 		ret = jent_time_entropy_init(osr,
 					     flags | JENT_FORCE_INTERNAL_TIMER);
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
-- 
2.43.0


From 20dcfe767aeb3b9bfb94bd244fc1722ae3d4ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 6/9] fix: do not read a caller's timer thread context as the
 builtin one

The counting thread interpreted the context of a registered handler as
struct jent_notime_ctx and read the CPU to pin to from it, although that
memory belongs to the handler and may have any layout and size.
---
 src/jitterentropy-timer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-timer.c b/src/jitterentropy-timer.c
index ce5e33a..8377cb1 100644
--- a/src/jitterentropy-timer.c
+++ b/src/jitterentropy-timer.c
@@ -198,8 +198,14 @@ static int jent_notime_sample_timer(void *arg)
 #endif
 {
 	struct rand_data *ec = (struct rand_data *)arg;
-	struct jent_notime_ctx *thread_ctx =
-		(struct jent_notime_ctx *)ec->notime_thread_ctx;
+	struct jent_notime_ctx *thread_ctx = NULL;
+
+	/*
+	 * The context belongs to the registered handler. It is only known to
+	 * be a struct jent_notime_ctx if jent_notime_init() created it.
+	 */
+	if (notime_thread->jent_notime_init == jent_notime_init)
+		thread_ctx = (struct jent_notime_ctx *)ec->notime_thread_ctx;
 
 	/*
 	 * Best-effort pin to a dedicated CPU; a failure here is ignored as
-- 
2.43.0


From 8afeb3e08bc099fdbfe7e2b9cba9261b60819032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:50 +0000
Subject: [PATCH 7/9] fix: do not let another thread take a startup test in
 progress for a passed one

jent_selftest_run was set before the timer tests ran. An allocation on
another thread that happened meanwhile skipped the startup test, was built
with a timer divisor of one instead of the one about to be established, and
was handed out even when that test failed. Mark the test as run when it is
complete; the test instance itself bypasses the gate.
---
 src/jitterentropy-base.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index d3b14b1..76f561b 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -636,8 +636,13 @@ unsigned int jent_hashloop_cnt(unsigned int flags)
  */
 static int jent_selftest_run = 0;
 
+/*
+ * The selftest argument is zero for the one caller that is the startup test
+ * and hence cannot wait for its verdict.
+ */
 static struct rand_data
-*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+*jent_entropy_collector_alloc_one(unsigned int osr, unsigned int flags,
+				  int selftest)
 {
 	struct rand_data *entropy_collector;
 	uint32_t memsize = 0;
@@ -670,7 +675,7 @@ static struct rand_data
 		return NULL;
 
 	/* Force the self test to be run */
-	if (!jent_atomic_load_int(&jent_selftest_run) &&
+	if (selftest && !jent_atomic_load_int(&jent_selftest_run) &&
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
@@ -791,6 +796,12 @@ err:
 	return NULL;
 }
 
+static struct rand_data
+*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_one(osr, flags, 1);
+}
+
 static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 						       unsigned int flags)
 {
@@ -993,7 +1004,7 @@ int jent_time_entropy_init(unsigned int osr, unsigned int flags)
 	 * are really bad.
 	 */
 	flags |= JENT_FORCE_FIPS;
-	ec = jent_entropy_collector_alloc_internal(osr, flags);
+	ec = jent_entropy_collector_alloc_one(osr, flags, 0);
 	if (!ec) {
 		ret = EMEM;
 		goto out;
@@ -1175,18 +1186,17 @@ static inline int jent_entropy_init_common_pre(unsigned int flags)
 	if (ret)
 		return ret;
 
-	ret = jent_gcd_selftest(flags);
-
-	jent_atomic_store_int(&jent_selftest_run, 1);
-
-	return ret;
+	return jent_gcd_selftest(flags);
 }
 
 static inline int jent_entropy_init_common_post(int ret)
 {
-	/* Unmark the execution of the self tests if they failed. */
-	if (ret)
-		jent_atomic_store_int(&jent_selftest_run, 0);
+	/*
+	 * Mark the execution of the self tests only now that they are complete,
+	 * so that no other thread takes a run in progress for a passed one, and
+	 * unmark it if they failed.
+	 */
+	jent_atomic_store_int(&jent_selftest_run, !ret);
 
 	return ret;
 }
-- 
2.43.0


From ecb7415a6afb36589e495f181592f4aea0ad8c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:50 +0000
Subject: [PATCH 8/9] fix: access the self test verdict of a collector
 atomically

jent_selftest() may run on another thread in parallel with entropy
collection; the verdict it leaves was a plain access on both sides.
---
 src/jitterentropy-base.c     | 7 ++++---
 src/jitterentropy-internal.h | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 76f561b..9f1bb50 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -306,7 +306,7 @@ ssize_t jent_read_entropy(struct rand_data *ec, char *data, size_t len)
 		 * self test failing on another thread stops a request already
 		 * in flight.
 		 */
-		if (ec->selftest_failed) {
+		if (jent_atomic_load_u32(&ec->selftest_failed)) {
 			ret = JENT_ERR_SELFTEST;
 			goto err;
 		}
@@ -457,7 +457,8 @@ static int jent_health_failure_reset(
 	 * A failed self test puts the instance out of service permanently: the
 	 * verdict must survive the reallocation.
 	 */
-	new_ec->selftest_failed = (*ec)->selftest_failed;
+	new_ec->selftest_failed =
+		jent_atomic_load_u32(&(*ec)->selftest_failed);
 
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
@@ -1163,7 +1164,7 @@ int jent_selftest(struct rand_data *ec)
 {
 	if (jent_sha3_tester()) {
 		if (ec)
-			ec->selftest_failed = 1;
+			jent_atomic_store_u32(&ec->selftest_failed, 1);
 		return EHASH;
 	}
 
diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index 30a5bcc..24e3ee4 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed;
+	uint32_t selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 541d024fe8dd994ae2d9246270cfef95ed21ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 9/9] fix: publish the timer divisor in one step

A thread that lost the claim on the divisor while the winner had not stored it
yet finished its startup test and allocated collectors with a divisor of one,
instead of the one being established. The divisor fits into 32 bits, so let the
value be its own publication.
---
 arch/jitterentropy-arch-atomic.c | 30 +++++++++----------
 arch/jitterentropy-arch-atomic.h | 11 +++----
 src/jitterentropy-gcd.c          | 49 ++++++++++++--------------------
 3 files changed, 37 insertions(+), 53 deletions(-)

diff --git a/arch/jitterentropy-arch-atomic.c b/arch/jitterentropy-arch-atomic.c
index 510b904..3e866e5 100644
--- a/arch/jitterentropy-arch-atomic.c
+++ b/arch/jitterentropy-arch-atomic.c
@@ -59,9 +59,9 @@
  *
  * The dispatch is:
  *   - Linux kernel                -> smp_load_acquire() / smp_store_release()
- *                                    and xchg()
+ *                                    and cmpxchg()
  *   - GCC / Clang (any target,    -> __atomic_load_n() / __atomic_store_n() /
- *     the FreeBSD kernel and the      __atomic_exchange_n() with
+ *     the FreeBSD kernel and the      __atomic_compare_exchange_n() with
  *     baremetal builds included)      __ATOMIC_ACQUIRE / _RELEASE / _ACQ_REL
  *   - MSVC                        -> the Interlocked intrinsics
  *   - anything else               -> volatile access
@@ -105,9 +105,9 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	smp_store_release(ptr, val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+void jent_atomic_set_once_u32(uint32_t *ptr, uint32_t val)
 {
-	return xchg(ptr, val);
+	(void)cmpxchg(ptr, 0, val);
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
@@ -145,16 +145,19 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 /*
  * The one read-modify-write, and on aarch64 the one place a freestanding build
  * can come apart: GCC 10 and later default to -moutline-atomics there, which
- * compiles this into a call to a libgcc helper - __aarch64_swp4_acq_rel - that
+ * compiles this into a call to a libgcc helper - __aarch64_cas4_acq_rel - that
  * chooses between the LSE and the LL/SC form at run time through an ifunc. A
  * -nostdlib link has no libgcc, the symbol stays undefined, and the first call
  * jumps into nothing. Such a build wants -mno-outline-atomics, as the kernel
  * uses for the same reason; see the note beside JENT_BAREMETAL in
  * jitterentropy.h.
  */
-int jent_atomic_exchange_int(int *ptr, int val)
+void jent_atomic_set_once_u32(uint32_t *ptr, uint32_t val)
 {
-	return __atomic_exchange_n(ptr, val, __ATOMIC_ACQ_REL);
+	uint32_t unset = 0;
+
+	(void)__atomic_compare_exchange_n(ptr, &unset, val, 0,
+					  __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE);
 }
 
 /* The builtins take any scalar, a pointer to a function included. */
@@ -207,9 +210,9 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	(void)_InterlockedExchange((volatile long *)ptr, (long)val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+void jent_atomic_set_once_u32(uint32_t *ptr, uint32_t val)
 {
-	return (int)_InterlockedExchange((volatile long *)ptr, (long)val);
+	(void)_InterlockedCompareExchange((volatile long *)ptr, (long)val, 0);
 }
 
 /*
@@ -259,13 +262,10 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 }
 
 /* Not atomic at all here - see the note on this fallback above. */
-int jent_atomic_exchange_int(int *ptr, int val)
+void jent_atomic_set_once_u32(uint32_t *ptr, uint32_t val)
 {
-	int old = *(volatile int *)ptr;
-
-	*(volatile int *)ptr = val;
-
-	return old;
+	if (!*(volatile uint32_t *)ptr)
+		*(volatile uint32_t *)ptr = val;
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
diff --git a/arch/jitterentropy-arch-atomic.h b/arch/jitterentropy-arch-atomic.h
index d928a25..f4e379b 100644
--- a/arch/jitterentropy-arch-atomic.h
+++ b/arch/jitterentropy-arch-atomic.h
@@ -72,12 +72,9 @@
  * jent_selftest_run stands for the timer GCD and the switch blocks established
  * with it.
  *
- * jent_atomic_exchange_int() is the one read-modify-write, and it exists for
- * the one place that has to know whether it was the thread that set a latch:
- * the common timer GCD is a 64-bit value, and a claim taken on a 32-bit flag
- * lets exactly one thread write it - which keeps these helpers to the widths
- * every target has a lock-free access for. A 64-bit atomic would be a call
- * into libatomic on the 32-bit platforms that cannot do one inline.
+ * jent_atomic_set_once_u32() is the one read-modify-write, and it exists for
+ * the one value of which the first one has to stand: the common timer GCD. It
+ * stores the value if the word still is zero and does nothing otherwise.
  *
  * jent_atomic_load_fnptr() / jent_atomic_store_fnptr() are the one pair for a
  * pointer, and they are the one piece of shared state that is not a latch: the
@@ -116,7 +113,7 @@ void jent_atomic_store_int(int *ptr, int val);
 uint32_t jent_atomic_load_u32(uint32_t *ptr);
 void jent_atomic_store_u32(uint32_t *ptr, uint32_t val);
 
-int jent_atomic_exchange_int(int *ptr, int val);
+void jent_atomic_set_once_u32(uint32_t *ptr, uint32_t val);
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr);
 void jent_atomic_store_fnptr(jent_fnptr *ptr, jent_fnptr val);
diff --git a/src/jitterentropy-gcd.c b/src/jitterentropy-gcd.c
index e5e2169..9e95f58 100644
--- a/src/jitterentropy-gcd.c
+++ b/src/jitterentropy-gcd.c
@@ -22,34 +22,21 @@
 #include "jitterentropy-gcd.h"
 #include "jitterentropy-internal.h"
 
-/* The common divisor for all timestamp deltas */
-static uint64_t jent_common_timer_gcd = 0;
-
 /*
- * The divisor above is established once per process and read by every
- * collector allocated afterwards, from whichever thread allocates it. It is
- * 64 bits wide, which not every 32-bit platform can load or store atomically
- * without a call into libatomic, so it is published through two 32-bit flags
- * instead (see arch/jitterentropy-arch-atomic.h):
+ * The common divisor for all timestamp deltas, zero until it is established.
  *
- *   - claimed is taken with an exchange, so of several threads analyzing at
- *     once exactly one writes the value - they measure their own deltas and
- *     need not arrive at the same divisor, so "they would write the same
- *     thing" does not hold here, and
- *   - set is stored with release after that write and loaded with acquire
- *     before every read, so a reader that is told the divisor is established
- *     also sees the value that was established.
+ * It is established once per process and read by every collector allocated
+ * afterwards, from whichever thread allocates it. jent_gcd_analyze() accepts no
+ * divisor that does not fit into 32 bits, so the value is its own publication
+ * (see arch/jitterentropy-arch-atomic.h): of several threads analyzing at once
+ * exactly one sets it - they measure their own deltas and need not arrive at
+ * the same divisor, so "they would write the same thing" does not hold here -
+ * and there is no moment at which the divisor is taken but not yet readable.
  *
- * A thread that loses the claim carries on with the divisor of the thread that
- * won it, which is the behaviour a second caller has always had.
+ * A thread that comes second carries on with the divisor of the thread that
+ * was first, which is the behaviour a second caller has always had.
  */
-static int jent_common_timer_gcd_claimed = 0;
-static int jent_common_timer_gcd_set = 0;
-
-static inline int jent_gcd_tested(void)
-{
-	return jent_atomic_load_int(&jent_common_timer_gcd_set);
-}
+static uint32_t jent_common_timer_gcd = 0;
 
 /* A straight forward implementation of the Euclidean algorithm for GCD. */
 static inline uint64_t jent_gcd64(uint64_t a, uint64_t b)
@@ -154,11 +141,9 @@ int jent_gcd_analyze(uint64_t *delta_history, size_t nelem, size_t osr)
 	 * this point - the guard states the invariant rather than covering a
 	 * reachable case.
 	 */
-	if (running_gcd && !jent_gcd_tested() &&
-	    !jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1)) {
-		jent_common_timer_gcd = running_gcd;
-		jent_atomic_store_int(&jent_common_timer_gcd_set, 1);
-	}
+	if (running_gcd)
+		jent_atomic_set_once_u32(&jent_common_timer_gcd,
+					 (uint32_t)running_gcd);
 
 out:
 	return ret;
@@ -183,10 +168,12 @@ void jent_gcd_fini(uint64_t *delta_history, size_t nelem)
 
 int jent_gcd_get(uint64_t *value)
 {
-	if (!jent_gcd_tested())
+	uint32_t gcd = jent_atomic_load_u32(&jent_common_timer_gcd);
+
+	if (!gcd)
 		return 1;
 
-	*value = jent_common_timer_gcd;
+	*value = gcd;
 	return 0;
 }
 
-- 
2.43.0

