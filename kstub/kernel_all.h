/* Kernel names on top of kw.h, for the C code under test. */
#ifndef KERNEL_ALL_H
#define KERNEL_ALL_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <limits.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include_next <linux/types.h>
#include_next <linux/version.h>
#include_next <linux/ioctl.h>
#include "kw.h"

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef unsigned short umode_t_; 
#ifndef __aligned_u64
#define __aligned_u64 __u64 __attribute__((aligned(8)))
#endif
#define __user
#define __force
#define __iomem
#define __init
#define __exit
#define __initdata
#define __ro_after_init
#define __read_mostly
#define __maybe_unused __attribute__((unused))
#ifndef __must_check
#define __must_check
#endif
#define __printf(a, b)
#define __always_unused __attribute__((unused))
#define noinline __attribute__((noinline))
#undef __always_inline
#define __always_inline inline __attribute__((always_inline))
#define fallthrough __attribute__((fallthrough))
#define likely(x) (x)
#define unlikely(x) (x)
#define READ_ONCE(x) (*(volatile __typeof__(x) *)&(x))
#define WRITE_ONCE(x, v) (*(volatile __typeof__(x) *)&(x) = (v))
#define ACCESS_ONCE READ_ONCE
#define barrier() __asm__ __volatile__("" ::: "memory")
#define smp_load_acquire(p) __atomic_load_n(p, __ATOMIC_ACQUIRE)
#define smp_store_release(p, v) __atomic_store_n(p, v, __ATOMIC_RELEASE)
#define smp_mb() __sync_synchronize()
#define smp_rmb() __sync_synchronize()
#define smp_wmb() __sync_synchronize()
#define cmpxchg(p, o, n) ({ __typeof__(*(p)) _o = (o); __atomic_compare_exchange_n((p), &_o, (n), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); _o; })
#define xchg(p, v) __atomic_exchange_n((p), (v), __ATOMIC_SEQ_CST)
#define ERESTARTSYS 512
#define ENOTSUPP 524
#define ENOIOCTLCMD 515

#define min_t(t, a, b) ({ t _a = (a); t _b = (b); _a < _b ? _a : _b; })
#define max_t(t, a, b) ({ t _a = (a); t _b = (b); _a > _b ? _a : _b; })
#define min(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a < _b ? _a : _b; })
#define max(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a > _b ? _a : _b; })
#define clamp(v, lo, hi) min(max(v, lo), hi)
#define clamp_t(t, v, lo, hi) min_t(t, max_t(t, v, lo), hi)
#define clamp_val(v, lo, hi) clamp_t(__typeof__(v), v, lo, hi)
#define swap(a, b) do { __typeof__(a) _t = (a); (a) = (b); (b) = _t; } while (0)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define DIV_ROUND_UP(n, d) (((n) + (d) - 1) / (d))
#define round_up(x, y) ((((x) - 1) | ((__typeof__(x))((y) - 1))) + 1)
#define round_down(x, y) ((x) & ~((__typeof__(x))((y) - 1)))
#define BIT(n) (1UL << (n))
#define BIT_ULL(n) (1ULL << (n))
#define GENMASK(h, l) ((~0UL << (l)) & (~0UL >> (63 - (h))))
#define GENMASK_ULL(h, l) GENMASK(h, l)
#define roundup(x, y) ((((x) + ((y) - 1)) / (y)) * (y))
#define rounddown(x, y) ((x) - ((x) % (y)))
#ifndef static_assert
#define static_assert(e, ...) _Static_assert(e, #e)
#endif
#define container_of(p, t, m) ((t *)((char *)(p) - offsetof(t, m)))
#define sizeof_field(t, m) sizeof(((t *)0)->m)
#define BUILD_BUG_ON(c) _Static_assert(!(c), "BUILD_BUG_ON")
#define BUILD_BUG_ON_MSG(c, m) _Static_assert(!(c), m)
#define static_assert_(...) 
#define KW_ARG_PLACEHOLDER_1 0,
#define KW_SECOND(x, y, ...) y
#define KW_DEFD3(x) KW_SECOND(x 1, 0)
#define KW_DEFD2(x) KW_DEFD3(KW_ARG_PLACEHOLDER_##x)
#define KW_DEFD(x) KW_DEFD2(x)
#define IS_ENABLED(x) KW_DEFD(x)
#define IS_BUILTIN(x) KW_DEFD(x)
#define IS_REACHABLE(x) KW_DEFD(x)
#define MAX_ERRNO 4095
static inline int IS_ERR(const void *p) { return (unsigned long)p >= (unsigned long)-MAX_ERRNO; }
static inline int IS_ERR_OR_NULL(const void *p) { return !p || IS_ERR(p); }
static inline long PTR_ERR(const void *p) { return (long)p; }
static inline void *ERR_PTR(long e) { return (void *)e; }
static inline void *ERR_CAST(const void *p) { return (void *)p; }
#define PTR_ERR_OR_ZERO(p) (IS_ERR(p) ? (int)PTR_ERR(p) : 0)
#define WARN_ON(c) ({ int _c = !!(c); if (_c) kw_printk(3, "WARN_ON %s", #c); _c; })
#define WARN_ON_ONCE(c) WARN_ON(c)
#define WARN(c, ...) WARN_ON(c)
#define WARN_ONCE(c, ...) WARN_ON(c)
#define BUG_ON(c) do { if (c) kw_panic("BUG_ON %s", #c); } while (0)
#define BUG() kw_panic("BUG")
#define u64_to_user_ptr(x) ((void *)(uintptr_t)(x))
#define panic kw_panic
#ifndef pr_fmt
#define pr_fmt(f) f
#endif
#define pr_emerg(f, ...) kw_printk(0, f, ##__VA_ARGS__)
#define pr_alert(f, ...) kw_printk(1, f, ##__VA_ARGS__)
#define pr_crit(f, ...) kw_printk(2, f, ##__VA_ARGS__)
#define pr_err(f, ...) kw_printk(3, f, ##__VA_ARGS__)
#define pr_warn(f, ...) kw_printk(4, f, ##__VA_ARGS__)
#define pr_notice(f, ...) kw_printk(5, f, ##__VA_ARGS__)
#define pr_info(f, ...) kw_printk(6, f, ##__VA_ARGS__)
#define pr_debug(f, ...) kw_printk(7, f, ##__VA_ARGS__)
#define pr_err_ratelimited pr_err
#define pr_warn_ratelimited pr_warn
#define pr_notice_ratelimited pr_notice
#define pr_info_ratelimited pr_info
#define pr_err_once pr_err
#define pr_warn_once pr_warn
#define pr_info_once pr_info
#define printk(f, ...) kw_printk(6, f, ##__VA_ARGS__)
#define KERN_ERR ""
#define KERN_WARNING ""
#define KERN_INFO ""
#define KERN_NOTICE ""

struct ratelimit_state { int dummy; };
#define DEFINE_RATELIMIT_STATE(n, a, b) struct ratelimit_state n = {0}
#define DEFAULT_RATELIMIT_INTERVAL 5
#define DEFAULT_RATELIMIT_BURST 10
#define __ratelimit(r) ((void)(r), 1)

#define DEFINE_MUTEX(n) struct mutex n = {KW_MUTEX_MAGIC, 0, 0}
#define __MUTEX_INITIALIZER(n) {KW_MUTEX_MAGIC, 0, 0}
#define mutex_lock_nested(m, s) mutex_lock(m)
#define lockdep_assert_held(m) do { } while (0)
static inline void kw_guard_unlock(struct mutex **m) { if (*m) mutex_unlock(*m); }
static inline struct mutex *kw_guard_lock(struct mutex *m) { mutex_lock(m); return m; }
#define KW_CAT2(a, b) a##b
#define KW_CAT(a, b) KW_CAT2(a, b)
#define guard(x) struct mutex *KW_CAT(kw_g_, __COUNTER__) __attribute__((cleanup(kw_guard_unlock), unused)) = kw_guard_lock
#define scoped_guard(x, m) for (struct mutex *kw_s __attribute__((cleanup(kw_guard_unlock))) = kw_guard_lock(m), *kw_d = NULL; !kw_d; kw_d = (void *)1)

#define GFP_KERNEL 1u
#define GFP_ATOMIC 2u
#define GFP_NOWAIT 4u
#define __GFP_ZERO 8u
#define __GFP_NOWARN 16u
#define GFP_KERNEL_ACCOUNT GFP_KERNEL
#define kvzalloc(n, f) kw_alloc(n, 1)
#define kvmalloc(n, f) kw_alloc(n, !!((f) & __GFP_ZERO))
#define kzalloc(n, f) kw_alloc(n, 1)
#define kmalloc(n, f) kw_alloc(n, !!((f) & __GFP_ZERO))
#define kcalloc(n, s, f) kw_alloc((size_t)(n) * (s), 1)
#define kvcalloc(n, s, f) kw_alloc((size_t)(n) * (s), 1)
#define kmalloc_array(n, s, f) kw_alloc((size_t)(n) * (s), 0)
#define kvmalloc_array(n, s, f) kw_alloc((size_t)(n) * (s), 0)
#define vmalloc(n) kw_alloc(n, 0)
#define vzalloc(n) kw_alloc(n, 1)
#define kvfree(p) kw_free(p)
#define kfree(p) kw_free(p)
#define vfree(p) kw_free(p)
#define kvfree_sensitive(p, n) kw_free_sensitive(p, n)
#define kfree_sensitive(p) kw_free_sensitive(p, kw_size(p))
#define kzfree(p) kfree_sensitive(p)
#define memzero_explicit(p, n) memset(p, 0, n)
#define PAGE_SIZE 4096UL

#define copy_to_user kw_copy_to_user
#define copy_from_user kw_copy_from_user
#define __copy_to_user kw_copy_to_user
#define __copy_from_user kw_copy_from_user
#define put_user(v, p) ({ __typeof__(*(p)) _v = (v); kw_copy_to_user((void *)(p), &_v, sizeof(_v)) ? -EFAULT : 0; })
#define get_user(v, p) ({ __typeof__(*(p)) _v; int _r = kw_copy_from_user(&_v, (p), sizeof(_v)) ? -EFAULT : 0; if (!_r) (v) = _v; _r; })
#define clear_user(p, n) ({ static const char _z[4096]; kw_copy_to_user((p), _z, (n)); })
#define access_ok(p, n) 1
struct task_struct { int dummy; };
extern struct task_struct *kw_current;
#define current kw_current
#define signal_pending(t) ((void)(t), kw_signal_pending())
#define fatal_signal_pending(t) ((void)(t), kw_signal_pending())
#define need_resched() kw_need_resched()
#define cond_resched() (kw_resched(), 0)
#define schedule() kw_resched()
#define might_sleep() do { } while (0)
#define LOCKDOWN_DEBUGFS 5
#ifndef CAP_SYS_ADMIN
#define CAP_SYS_ADMIN 21
#endif

#define HZ 250
#define jiffies kw_jiffies
#define system_wq kw_wq
#define system_power_efficient_wq kw_wq
#define system_long_wq kw_wq
#define system_unbound_wq kw_wq
#define INIT_DELAYED_WORK(w, f) kw_init_work(w, f)
#define INIT_DEFERRABLE_WORK(w, f) kw_init_work(w, f)
#define schedule_delayed_work(w, d) queue_delayed_work(kw_wq, w, d)
#define to_delayed_work(w) container_of(w, struct delayed_work, work)
#define msecs_to_jiffies(m) ((unsigned long)(m) * HZ / 1000)
#define secs_to_jiffies(s) ((unsigned long)(s) * HZ)
#define delayed_work_pending(w) ((w)->pending)

typedef struct { int counter; } atomic_t;
typedef struct { s64 counter; } atomic64_t;
#define ATOMIC_INIT(v) {v}
#define ATOMIC64_INIT(v) {v}
#define atomic_read(a) __atomic_load_n(&(a)->counter, __ATOMIC_SEQ_CST)
#define atomic_set(a, v) __atomic_store_n(&(a)->counter, v, __ATOMIC_SEQ_CST)
#define atomic_inc(a) ((void)__atomic_fetch_add(&(a)->counter, 1, __ATOMIC_SEQ_CST))
#define atomic_dec(a) ((void)__atomic_fetch_sub(&(a)->counter, 1, __ATOMIC_SEQ_CST))
#define atomic_add(v, a) ((void)__atomic_fetch_add(&(a)->counter, v, __ATOMIC_SEQ_CST))
#define atomic_sub(v, a) ((void)__atomic_fetch_sub(&(a)->counter, v, __ATOMIC_SEQ_CST))
#define atomic_inc_return(a) __atomic_add_fetch(&(a)->counter, 1, __ATOMIC_SEQ_CST)
#define atomic_dec_return(a) __atomic_sub_fetch(&(a)->counter, 1, __ATOMIC_SEQ_CST)
#define atomic_dec_and_test(a) (atomic_dec_return(a) == 0)
#define atomic_cmpxchg(a, o, n) cmpxchg(&(a)->counter, o, n)
#define atomic_xchg(a, n) xchg(&(a)->counter, n)
#define atomic64_read atomic_read
#define atomic64_set atomic_set
#define atomic64_inc atomic_inc
#define atomic64_dec atomic_dec
#define atomic64_add atomic_add
#define atomic64_sub atomic_sub
#define atomic64_inc_return atomic_inc_return

#define private_data_alias private_
#define proc_create_single(n, m, p, s) proc_create_single_data(n, m, p, s, NULL)
#define debugfs_remove_recursive debugfs_remove
#define crypto_tfm_ctx(t) ((t)->kw_ctx)
#define crypto_rng_ctx(t) ((t)->base.kw_ctx)
#define MISC_DYNAMIC_MINOR 255
#define THIS_MODULE ((struct module *)0)
#ifndef KBUILD_MODNAME
#define KBUILD_MODNAME "jitter_rng"
#endif
#define module_param(n, t, p) module_param_named(n, n, t, p)
#define module_param_named(n, v, t, p) __attribute__((constructor)) static void kw_param_##n(void) { kw_param(#n, #t, &v, p); } struct kw_swallow_##n
#define module_init(f) static void (*kw_exit_fn)(void); static int (*kw_init_fn)(void); __attribute__((constructor)) static void kw_mod_init(void) { kw_module(f, 0); } struct kw_sw_i
#define module_exit(f) __attribute__((constructor)) static void kw_mod_exit(void) { kw_module(0, f); } struct kw_sw_e
#define MODULE_PARM_DESC(...) struct kw_swallow_desc
#define MODULE_LICENSE(...) struct kw_swallow_desc
#define MODULE_AUTHOR(...) struct kw_swallow_desc
#define MODULE_DESCRIPTION(...) struct kw_swallow_desc
#define MODULE_VERSION(...) struct kw_swallow_desc
#define MODULE_ALIAS(...) struct kw_swallow_desc
#define MODULE_ALIAS_CRYPTO(...) struct kw_swallow_desc
#define EXPORT_SYMBOL(...) struct kw_swallow_desc
#define EXPORT_SYMBOL_GPL(...) struct kw_swallow_desc
#define late_initcall(f) module_init(f)
#define subsys_initcall(f) module_init(f)
#define scnprintf kw_scnprintf
static inline int kw_scnprintf(char *b, size_t n, const char *f, ...) {
    va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap);
    return n == 0 ? 0 : r >= (int)n ? (int)n - 1 : r;
}
#define kstrtouint(s, b, r) ({ *(r) = (unsigned)strtoul(s, 0, b); 0; })
static inline ssize_t strscpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (!n) return -E2BIG; if (l >= n) { memcpy(d, s, n - 1); d[n - 1] = 0; return -E2BIG; } memcpy(d, s, l + 1); return (ssize_t)l; }
char *strsep(char **s, const char *d);

static inline u64 div64_u64(u64 a, u64 b) { return a / b; }
static inline u64 div64_u64_rem(u64 a, u64 b, u64 *r) { *r = a % b; return a / b; }
static inline u64 div_u64(u64 a, u32 b) { return a / b; }

#define num_online_cpus() ((unsigned)kw_ncpu())
#define num_possible_cpus() ((unsigned)kw_ncpu())
#define nr_cpu_ids ((unsigned)kw_ncpu())
#define for_each_online_cpu(c) for ((c) = kw_next_online(-1); (int)(c) >= 0; (c) = kw_next_online((int)(c)))
#define for_each_present_cpu(c) for_each_online_cpu(c)
#define for_each_cpu(c, m) for_each_online_cpu(c)
#define cpu_online_mask ((void *)0)
#define cpu_online(c) ((int)(c) >= 0 && kw_next_online((int)(c) - 1) == (int)(c))
#define read_sysreg(r) kw_read_sysreg(#r)
#define read_sysreg_s(r) kw_read_sysreg(#r)
#define write_sysreg(v, r) kw_write_sysreg(#r, (v))
#define isb() kw_isb()
#define for_each_possible_cpu(c) for_each_online_cpu(c)
#define cpus_read_lock() do { } while (0)
#define cpus_read_unlock() do { } while (0)
#define get_cpu() kw_this_cpu()
#define put_cpu() do { } while (0)
#define smp_processor_id() kw_this_cpu()
#define raw_smp_processor_id() kw_this_cpu()
static inline int smp_call_function_single(int cpu, void (*f)(void *), void *a, int wait) { return kw_smp_call(cpu, f, a); }
#define cpuid_count(l, s, a, b, c, d) kw_cpuid(l, s, a, b, c, d)

/* further names that rewritten code may use */
typedef struct mutex spinlock_t;
#define DEFINE_SPINLOCK(n) spinlock_t n = {KW_MUTEX_MAGIC, 0, 0}
#define spin_lock_init(l) mutex_init(l)
#define spin_lock(l) mutex_lock(l)
#define spin_unlock(l) mutex_unlock(l)
#define spin_lock_irqsave(l, f) do { (f) = 0; mutex_lock(l); } while (0)
#define spin_unlock_irqrestore(l, f) do { (void)(f); mutex_unlock(l); } while (0)
#define spin_lock_irq(l) mutex_lock(l)
#define spin_unlock_irq(l) mutex_unlock(l)
#define struct_size(p, m, n) (sizeof(*(p)) + sizeof((p)->m[0]) * (size_t)(n))
#define array_size(a, b) ((size_t)(a) * (size_t)(b))
#define size_add(a, b) ((size_t)(a) + (size_t)(b))
#define size_mul(a, b) ((size_t)(a) * (size_t)(b))
#define check_add_overflow(a, b, d) __builtin_add_overflow(a, b, d)
#define check_mul_overflow(a, b, d) __builtin_mul_overflow(a, b, d)
#define check_sub_overflow(a, b, d) __builtin_sub_overflow(a, b, d)
static inline void *kw_memdup(const void *s, size_t n) { void *p = kw_alloc(n, 0); if (p) memcpy(p, s, n); return p; }
#define kmemdup(s, n, f) kw_memdup(s, n)
#define kstrdup(s, f) kw_memdup(s, strlen(s) + 1)
static inline char *kw_asprintf(const char *f, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	return (char *)kw_memdup(b, strlen(b) + 1);
}
#define kasprintf(g, ...) kw_asprintf(__VA_ARGS__)
static inline void *memchr_inv(const void *p, int c, size_t n) {
	const unsigned char *b = (const unsigned char *)p;
	for (; n; n--, b++)
		if (*b != (unsigned char)c) return (void *)b;
	return 0;
}
#define kzalloc_obj(x, ...) ((__typeof__(x) *)kw_alloc(sizeof(x), 1))
#define kmalloc_obj(x, ...) ((__typeof__(x) *)kw_alloc(sizeof(x), 0))
#define krealloc_unused_
#define usleep_range(a, b) kw_resched()
#define msleep(a) kw_resched()
#define cpu_relax() kw_resched()
#define round_jiffies_relative(j) (j)
#define time_after(a, b) ((long)((b) - (a)) < 0)
#define time_before(a, b) time_after(b, a)
#define sysfs_emit(b, ...) kw_scnprintf(b, PAGE_SIZE, __VA_ARGS__)
#define seq_bool_unused_
#define str_yes_no(v) ((v) ? "yes" : "no")
#define str_true_false(v) ((v) ? "true" : "false")
#define str_enabled_disabled(v) ((v) ? "enabled" : "disabled")
#define U8_MAX ((u8)~0U)
#define U16_MAX ((u16)~0U)
#define U32_MAX ((u32)~0U)
#define U64_MAX ((u64)~0ULL)
#ifndef SIZE_MAX
#define SIZE_MAX (~(size_t)0)
#endif
#define is_power_of_2(n) ((n) != 0 && (((n) & ((n) - 1)) == 0))
#define ilog2(n) (63 - __builtin_clzll((unsigned long long)(n)))
#define fls(x) ((x) ? 32 - __builtin_clz(x) : 0)
#define IS_ALIGNED(x, a) (((x) & ((__typeof__(x))(a) - 1)) == 0)
#define ALIGN(x, a) round_up(x, a)
static inline unsigned long kw_ctu(void *to, const void *from, unsigned long n) { return kw_copy_to_user(to, from, n); }
static inline ssize_t simple_read_from_buffer(void *to, size_t count, loff_t *ppos, const void *from, size_t available)
{
    loff_t pos = *ppos; size_t r;
    if (pos < 0) return -EINVAL;
    if ((size_t)pos >= available || !count) return 0;
    if (count > available - pos) count = available - pos;
    r = kw_ctu(to, (const char *)from + pos, count);
    if (r == count) return -EFAULT;
    count -= r; *ppos = pos + count; return count;
}
static inline void *memdup_user(const void *s, size_t n) { void *p = kw_alloc(n, 0); if (!p) return ERR_PTR(-ENOMEM); if (kw_copy_from_user(p, s, n)) { kw_free(p); return ERR_PTR(-EFAULT); } return p; }
static inline void kw_kv_cleanup(void *p) { void *q = *(void **)p; if (!IS_ERR_OR_NULL(q)) kw_free(q); }
#define __free(x) __attribute__((cleanup(kw_cleanup_##x)))
#define kw_cleanup_kfree kw_kv_cleanup
#define kw_cleanup_kvfree kw_kv_cleanup
#define kw_cleanup_kfree_sensitive kw_kv_cleanup_s
#define kw_cleanup_kvfree_sensitive kw_kv_cleanup_s
static inline void kw_kv_cleanup_s(void *p) { void *q = *(void **)p; if (!IS_ERR_OR_NULL(q)) kw_free_sensitive(q, kw_size(q)); }
#define no_free_ptr(p) ({ __typeof__(p) _np = (p); (p) = NULL; _np; })
#define return_ptr(p) return no_free_ptr(p)
#endif
