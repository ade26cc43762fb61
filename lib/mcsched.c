#define _GNU_SOURCE
#include "mcsched.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef struct {
    pthread_t id;
    int used;               /* There is a persistent thread */
    int go, done, active;
    int exiting;
    SchedFunc fn;
    void* arg;
    int (*pred)(void*);
    void* parg;
    uintptr_t lo, hi;       /* Stack */
} Th;

static Th th[SCHED_MAX];
static void* in_once[16];
static int nlocked;
static int nth, running, main_go;
static __thread int me = -1;
static __thread int atomic_depth;
static __thread const void* where;
static pthread_key_t exit_key;

int sched_me(void) { return me; }
void sched_atomic_begin(void) { atomic_depth++; }
void sched_atomic_end(void) { atomic_depth--; }

/* These may get called between setting errno and looking at it */
static void post(int* f)
{
    const int err = errno;
    __atomic_store_n(f, 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
    errno = err;
}

static void wait_for(int* f)
{
    const int err = errno;
    while (!__atomic_load_n(f, __ATOMIC_SEQ_CST)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(f, 0, __ATOMIC_SEQ_CST);
    errno = err;
}

static int enabled(int k)
{
    return th[k].active && (!th[k].pred || th[k].pred(th[k].parg));
}

static void switch_to(int k)
{
    const int self = me;
    if (k == self) return;
    post(&th[k].go);
    wait_for(&th[self].go);
}

static void point_(const void* at, const char* what)
{
    int alt[SCHED_MAX], n = 0, k, c;
    if (!running || me < 0 || atomic_depth) return;
    if (!mc_dev_left()) {
        mc_choose_dev(2, "preempt");
        return;
    }
    mc_step();
    for (k = 0; k < nth; k++) if (k != me && enabled(k)) alt[n++] = k;
    if (!n) return;
    c = mc_choose_dev(n + 1, "preempt");
    if (c) {
        if (what) mc_note("  [thread %d is preempted by %d before %s, called from @%p]", me, alt[c - 1], what, at);
        else mc_note("  [thread %d is preempted by %d at @%p]", me, alt[c - 1], at);
        switch_to(alt[c - 1]);
    }
}

static void point(const void* at, const char* what)
{
    const int err = errno;
    point_(at, what);
    errno = err;
}

void sched_point(const char* what) { point(__builtin_return_address(0), what); }

/* Somebody has to be picked */
static int pick(void)
{
    int alt[SCHED_MAX], n = 0, k;
    for (k = 0; k < nth; k++) if (k != me && enabled(k)) alt[n++] = k;
    if (!n) {
        for (k = 0; k < nth; k++) if (th[k].active) mc_fail("deadlock: thread %d is waiting forever", k);
        return -1;
    }
    return alt[mc_choose(n, "next thread")];
}

void sched_wait(int (*pred)(void*), void* arg)
{
    while (!pred(arg)) {
        int k;
        th[me].pred = pred;
        th[me].parg = arg;
        k = pick();
        mc_note("  [thread %d is waiting, running %d]", me, k);
        switch_to(k);
    }
    th[me].pred = NULL;
}

static void finished(int k)
{
    th[k].done = 1;
    post(&main_go);
}

static void at_exit(void* arg)
{
    const long n = (long)arg;
    /* Let the other destructors run first */
    if (n < 2) pthread_setspecific(exit_key, (void*)(n + 1));
    else { const int k = me; me = -1; finished(k); }
}

static void* thread_proc(void* arg)
{
    const int k = (int)(long)arg;
    Th* t = th + k;
    pthread_attr_t a;
    void* lo;
    size_t size;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &lo, &size);
    pthread_attr_destroy(&a);
    t->lo = (uintptr_t)lo;
    t->hi = t->lo + size;
    g_thread_self();                /* Creates GThread structure */
    finished(k);                    /* Ready */
    if (t->exiting) {
        wait_for(&t->go);
        me = k;
        atomic_depth = 0;
        pthread_setspecific(exit_key, (void*)1);
        t->fn(t->arg);
    } else for (;;) {
        wait_for(&t->go);
        me = k;
        atomic_depth = 0;
        t->fn(t->arg);
        me = -1;
        finished(k);
    }
    return NULL;
}

static void start(int k, int exiting)
{
    static pthread_attr_t* attr;
    if (!attr) {
        static pthread_attr_t a;
        pthread_attr_init(attr = &a);
        pthread_attr_setstacksize(attr, 256 * 1024);
        pthread_key_create(&exit_key, at_exit);
    }
    th[k].exiting = exiting;
    th[k].done = 0;
    if (pthread_create(&th[k].id, attr, thread_proc, (void*)(long)k)) mc_fail("pthread_create");
    wait_for(&main_go);
    th[k].done = 0;
}

void sched_run(int n, const SchedFunc* fn, void* const* arg, int exiting)
{
    int k, left = n;
    for (k = 0; k < n; k++) {
        if (exiting || !th[k].used) {
            if (exiting && th[k].used) mc_fail("persistent threads are there already");
            start(k, exiting);
            th[k].used = !exiting;
        }
        th[k].fn = fn[k];
        th[k].arg = arg ? arg[k] : NULL;
        th[k].pred = NULL;
        th[k].done = 0;
        th[k].active = 1;
        th[k].go = 0;
    }
    nth = n;
    memset(in_once, 0, sizeof(in_once));
    nlocked = 0;
    running = 1;
    while (left) {
        k = pick();
        mc_note("  [running thread %d]", k);
        post(&th[k].go);
        wait_for(&main_go);
        for (k = 0; k < n; k++) if (th[k].active && th[k].done) {
            mc_note("  [thread %d has finished]", k);
            th[k].active = 0;
            left--;
            if (exiting) pthread_join(th[k].id, NULL);
        }
    }
    running = 0;
}

/*==========================================================================*
 * Calls which may block. BLOCKING(name, argument type, try, undo)
 *==========================================================================*/

#define BLOCKING(name, T, try_, undo) \
static int can_##name(void* p) { T m = p; if (!(try_)) return FALSE; undo; return TRUE; } \
void sched_##name(T m) { if (running && me >= 0) sched_wait(can_##name, m); name(m); }
BLOCKING(g_mutex_lock, GMutex*, g_mutex_trylock(m), g_mutex_unlock(m))
BLOCKING(g_rec_mutex_lock, GRecMutex*, g_rec_mutex_trylock(m), g_rec_mutex_unlock(m))
BLOCKING(g_rw_lock_reader_lock, GRWLock*, g_rw_lock_reader_trylock(m), g_rw_lock_reader_unlock(m))
BLOCKING(g_rw_lock_writer_lock, GRWLock*, g_rw_lock_writer_trylock(m), g_rw_lock_writer_unlock(m))
BLOCKING(pthread_mutex_lock, pthread_mutex_t*, !pthread_mutex_trylock(m), pthread_mutex_unlock(m))

/* Streams locked by the library. Any output by other threads has to wait */
static FILE* locked[8];
static int locked_by[8];

static int output_is_free(void* p)
{
    int i;
    for (i = 0; i < nlocked; i++) if (locked_by[i] != (int)(long)p) return FALSE;
    return TRUE;
}

void sched_flockfile(FILE* f)
{
    if (running && me >= 0) {
        sched_wait(output_is_free, (void*)(long)me);
        if (nlocked < 8) { locked[nlocked] = f; locked_by[nlocked++] = me; }
    }
    flockfile(f);
}

void sched_funlockfile(FILE* f)
{
    int i;
    funlockfile(f);
    for (i = nlocked; running && me >= 0 && i > 0; i--) if (locked[i - 1] == f && locked_by[i - 1] == me) {
        nlocked--;
        memmove(locked + i - 1, locked + i, sizeof(locked[0]) * (nlocked - i + 1));
        memmove(locked_by + i - 1, locked_by + i, sizeof(locked_by[0]) * (nlocked - i + 1));
        break;
    }
}

void sched_call_point(const char* what, const void* at)
{
    point(at, what);
    if (running && me >= 0 && nlocked && !output_is_free((void*)(long)me) &&
        (strstr(what, "printf") || strstr(what, "put") || !strcmp(what, "fwrite") || !strcmp(what, "fflush")) && !strstr(what, "snprintf")) {
        sched_wait(output_is_free, (void*)(long)me);
    }
}

/* Clock */
#include <sys/time.h>
time_t (*sched_clock)(void);
static int fake(void) { return running && me >= 0 && sched_clock; }

time_t sched_time(time_t* t)
{
    time_t x = fake() ? sched_clock() : time(NULL);
    if (t) *t = x;
    return x;
}

int sched_gettimeofday(struct timeval* tv, void* tz)
{
    if (!fake()) return gettimeofday(tv, tz);
    tv->tv_sec = sched_clock();
    tv->tv_usec = 0;
    return 0;
}

int sched_clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!fake() || id != CLOCK_REALTIME) return clock_gettime(id, ts);
    ts->tv_sec = sched_clock();
    ts->tv_nsec = 0;
    return 0;
}

gint64 sched_g_get_real_time(void) { return fake() ? sched_clock() * G_USEC_PER_SEC : g_get_real_time(); }

/* One time initialisation */

static int find_once(void* p)
{
    int i;
    for (i = 0; i < 16; i++) if (in_once[i] == p) return i;
    return -1;
}

static int once_over(void* p) { return find_once(p) < 0; }

gboolean sched_g_once_init_enter(volatile void* loc)
{
    if (!running || me < 0) return g_once_init_enter((gsize*)loc);
    if (*(volatile gsize*)loc) return FALSE;
    sched_wait(once_over, (void*)loc);
    if (*(volatile gsize*)loc) return FALSE;
    in_once[find_once(NULL)] = (void*)loc;
    return g_once_init_enter((gsize*)loc);
}

void sched_g_once_init_leave(volatile void* loc, gsize value)
{
    const int i = find_once((void*)loc);
    (g_once_init_leave)(loc, value);
    if (i >= 0) in_once[i] = NULL;
}

gpointer sched_g_once_impl(GOnce* once, GThreadFunc fn, gpointer arg)
{
    gpointer ret;
    if (!running || me < 0) return g_once_impl(once, fn, arg);
    sched_wait(once_over, once);
    if (once->status == G_ONCE_STATUS_READY) return once->retval;
    in_once[find_once(NULL)] = once;
    ret = g_once_impl(once, fn, arg);
    in_once[find_once(once)] = NULL;
    return ret;
}

/*==========================================================================*
 * Hooks
 *==========================================================================*/

int __asan_address_is_poisoned(void const volatile*);
void* __asan_region_is_poisoned(void*, size_t);

static inline void access_(void* p, size_t n, const void* at, int wr)
{
    if (me >= 0 && (uintptr_t)p >= th[me].lo && (uintptr_t)p < th[me].hi) return;
    point(at, NULL);
    if (__asan_region_is_poisoned(p, n)) {
        mc_fail("thread %d %s freed or not allocated memory at @%p", me, wr ? "writes" : "reads", at);
    }
}

#define RET __builtin_return_address(0)
#define HOOK(n) \
    void __tsan_read##n(void* p) { access_(p, n, RET, 0); } \
    void __tsan_write##n(void* p) { access_(p, n, RET, 1); } \
    void __tsan_read_write##n(void* p) { access_(p, n, RET, 1); } \
    void __tsan_unaligned_read##n(void* p) { access_(p, n, RET, 0); } \
    void __tsan_unaligned_write##n(void* p) { access_(p, n, RET, 1); } \
    void __tsan_unaligned_read_write##n(void* p) { access_(p, n, RET, 1); } \
    void __tsan_volatile_read##n(void* p) { access_(p, n, RET, 0); } \
    void __tsan_volatile_write##n(void* p) { access_(p, n, RET, 1); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access_(p, n, RET, 0); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access_(p, n, RET, 1); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)

void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void* v) {}
void __tsan_vptr_read(void** p) {}
void __tsan_read_range(void* p, size_t n) { if (n) access_(p, n, RET, 0); }
void __tsan_write_range(void* p, size_t n) { if (n) access_(p, n, RET, 1); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (n) { access_((void*)s, n, RET, 0); access_(d, n, RET, 1); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (n) { access_((void*)s, n, RET, 0); access_(d, n, RET, 1); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (n) access_(d, n, RET, 1);
    return memset(d, c, n);
}

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { access_((void*)p, sizeof(T), RET, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { access_((void*)p, sizeof(T), RET, 1); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { access_((void*)p, sizeof(T), RET, 1); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { point(RET, "fence"); }
void __tsan_atomic_signal_fence(int mo) {}
