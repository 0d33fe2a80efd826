/* The part of the kernel that the kernel interface of the library uses, as a
 * simulation in user space. Shared by the C code under test and the harness.
 * The implementation is lib/kworld.cpp. */
#ifndef KW_H
#define KW_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <sys/types.h>
#ifdef __cplusplus
#define KW_PRIVATE private_
#else
#define KW_PRIVATE private
#endif
#ifdef __cplusplus
extern "C" {
#else
#include <stdbool.h>
#endif

/* ---- locks ---- */
struct mutex { unsigned long magic; long owner; unsigned long serial; };
#define KW_MUTEX_MAGIC 0x6d757465782121ul
void mutex_init(struct mutex *m);
void mutex_destroy(struct mutex *m);
void mutex_lock(struct mutex *m);
int mutex_lock_interruptible(struct mutex *m);
int mutex_lock_killable(struct mutex *m);
int mutex_trylock(struct mutex *m);
void mutex_unlock(struct mutex *m);
int mutex_is_locked(struct mutex *m);

/* ---- memory ---- */
typedef unsigned int gfp_t;
void *kw_alloc(size_t n, int zero);
void kw_free(const void *p);
void kw_free_sensitive(const void *p, size_t n);
size_t kw_size(const void *p);

/* ---- users ---- */
unsigned long kw_copy_to_user(void *to, const void *from, unsigned long n);
unsigned long kw_copy_from_user(void *to, const void *from, unsigned long n);
int kw_signal_pending(void);
int kw_need_resched(void);
void kw_resched(void);
int capable(int cap);
int security_locked_down(int what);
void kw_panic(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
int kw_printk(int level, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void get_random_bytes(void *buf, size_t n);
extern int fips_enabled;

/* ---- delayed work, virtual time ---- */
struct work_struct;
typedef void (*work_func_t)(struct work_struct *);
struct work_struct { work_func_t func; unsigned long magic; };
struct workqueue_struct;
struct delayed_work { struct work_struct work; int pending, running; unsigned long expires; struct workqueue_struct *wq; };
extern struct workqueue_struct *kw_wq;
extern unsigned long kw_jiffies;
void kw_init_work(struct delayed_work *w, work_func_t f);
bool queue_delayed_work(struct workqueue_struct *wq, struct delayed_work *w, unsigned long delay);
bool mod_delayed_work(struct workqueue_struct *wq, struct delayed_work *w, unsigned long delay);
bool cancel_delayed_work(struct delayed_work *w);
bool cancel_delayed_work_sync(struct delayed_work *w);
bool flush_delayed_work(struct delayed_work *w);

/* ---- files ---- */
struct inode { int dummy; };
struct file { void *private_data; unsigned int f_flags; loff_t f_pos; };
struct module;
struct file_operations {
    struct module *owner;
    loff_t (*llseek)(struct file *, loff_t, int);
    ssize_t (*read)(struct file *, char *, size_t, loff_t *);
    ssize_t (*write)(struct file *, const char *, size_t, loff_t *);
    long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
    long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
    int (*open)(struct inode *, struct file *);
    int (*release)(struct inode *, struct file *);
};
long compat_ptr_ioctl(struct file *, unsigned int, unsigned long);
struct miscdevice { int minor; const char *name; const struct file_operations *fops; unsigned short mode; const char *nodename; void *parent; };
int misc_register(struct miscdevice *m);
void misc_deregister(struct miscdevice *m);

struct seq_file { void *KW_PRIVATE; char *buf; size_t len, cap; int err; };
void kw_seq_vprintf(struct seq_file *m, const char *fmt, va_list ap);
void seq_printf(struct seq_file *m, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void seq_puts(struct seq_file *m, const char *s);
void seq_putc(struct seq_file *m, char c);
void seq_write(struct seq_file *m, const void *p, size_t n);

struct proc_dir_entry;
typedef int (*kw_show_t)(struct seq_file *, void *);
struct proc_dir_entry *proc_mkdir(const char *name, struct proc_dir_entry *parent);
struct proc_dir_entry *proc_mkdir_mode(const char *name, unsigned short mode, struct proc_dir_entry *parent);
struct proc_dir_entry *proc_create_single_data(const char *name, unsigned short mode, struct proc_dir_entry *parent, kw_show_t show, void *data);
void proc_remove(struct proc_dir_entry *e);
void remove_proc_entry(const char *name, struct proc_dir_entry *parent);
int remove_proc_subtree(const char *name, struct proc_dir_entry *parent);

struct dentry;
struct dentry *debugfs_create_dir(const char *name, struct dentry *parent);
struct dentry *debugfs_create_file(const char *name, unsigned short mode, struct dentry *parent, void *data, const struct file_operations *fops);
void debugfs_remove(struct dentry *d);

/* ---- hardware random number framework ---- */
struct hwrng {
    const char *name;
    int (*init)(struct hwrng *);
    void (*cleanup)(struct hwrng *);
    int (*data_present)(struct hwrng *, int);
    int (*data_read)(struct hwrng *, uint32_t *);
    int (*read)(struct hwrng *, void *, size_t, bool);
    unsigned long priv;
    unsigned short quality;
};
int hwrng_register(struct hwrng *r);
void hwrng_unregister(struct hwrng *r);

/* ---- crypto API ---- */
struct crypto_tfm { unsigned crt_flags; void *kw_ctx; };
struct crypto_rng { struct crypto_tfm base; };
struct crypto_alg {
    char cra_name[128], cra_driver_name[128];
    int cra_priority;
    unsigned cra_flags, cra_blocksize, cra_ctxsize, cra_alignmask;
    struct module *cra_module;
    int (*cra_init)(struct crypto_tfm *);
    void (*cra_exit)(struct crypto_tfm *);
};
struct rng_alg {
    int (*generate)(struct crypto_rng *, const uint8_t *, unsigned, uint8_t *, unsigned);
    int (*seed)(struct crypto_rng *, const uint8_t *, unsigned);
    void (*set_ent)(struct crypto_rng *, const uint8_t *, unsigned);
    unsigned seedsize;
    struct crypto_alg base;
};
int crypto_register_rng(struct rng_alg *a);
void crypto_unregister_rng(struct rng_alg *a);

/* ---- module ---- */
void kw_param(const char *name, const char *type, void *p, int perm);
void kw_module(int (*init)(void), void (*exit)(void));

/* ---- CPUs ---- */
int kw_smp_call(int cpu, void (*f)(void *), void *arg);
int kw_ncpu(void);
int kw_next_online(int cpu);
int kw_this_cpu(void);
unsigned long long kw_read_sysreg(const char *name);
void kw_write_sysreg(const char *name, unsigned long long v);
void kw_isb(void);
void kw_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
struct kw_cpuinfo { int cpuid_level; unsigned extended_cpuid_level; };
extern struct kw_cpuinfo boot_cpu_data;
#ifdef __cplusplus
}
#endif
#endif
