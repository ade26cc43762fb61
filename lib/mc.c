#define _GNU_SOURCE
#include "mc.h"
#include "gutil_log.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

#define MAXPATH 8192
#define MSGSIZE 8192
#define NOTESIZE 60000

typedef struct shm {
    volatile u64 progress;
    volatile u64 idx;
    volatile int npath;
    int path[MAXPATH];
    int nalt[MAXPATH];
    char msg[MSGSIZE];
    int finished;
    /* Statistics */
    u64 states, transitions, execs, outcomes, maxlen;
    int capped;             /* 1: depth bound, 2: time, 4: size */
    int depth_done;
    u64 frontier;           /* states beyond the depth bound */
    int notelen;
    char notes[NOTESIZE];
} Shm;

static Shm* S;
McTier mc_tier = MC_QUICK;
int mc_verbose;
int mc_quiet_criticals;
int mc_num_criticals;
static const McSuite* cur;
static int shard_i, shard_n = 1;
static double time_limit = 400;
static double t0;

static double now_s(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

u64 mc_hash(const void* data, gsize n, u64 seed)
{
    const unsigned char* p = data;
    u64 h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
    while (n >= 8) {
        u64 k;
        memcpy(&k, p, 8);
        k *= 0x87c37b91114253d5ULL; k = (k << 31) | (k >> 33); k *= 0x4cf5ad432745937fULL;
        h ^= k; h = (h << 27) | (h >> 37); h = h * 5 + 0x52dce729;
        p += 8; n -= 8;
    }
    u64 k = 0;
    memcpy(&k, p, n);
    k *= 0x87c37b91114253d5ULL; k = (k << 31) | (k >> 33); k *= 0x4cf5ad432745937fULL;
    h ^= k;
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}

/*==========================================================================*
 * Live block tracking
 *==========================================================================*/

#ifndef MC_NO_ASAN
typedef struct blk { uintptr_t p; size_t n; } Blk;
#define TBL_BITS 18
#define TBL (1u << TBL_BITS)
static Blk* tbl;            /* open addressing, p == 0 empty, p == 1 deleted */
static u64 live_cnt;
static uintptr_t heap_lo = (uintptr_t)-1, heap_hi;
static volatile int tracking;
static int tbl_used;

static unsigned tbl_slot(uintptr_t p)
{
    u64 h = (u64)p * 0x9E3779B97F4A7C15ULL;
    return (unsigned)(h >> (64 - TBL_BITS));
}

static void tbl_rehash(void)
{
    static Blk* tmp;
    unsigned i, k = 0;
    if (!tmp) tmp = mmap(NULL, sizeof(Blk) * TBL, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    for (i = 0; i < TBL; i++) if (tbl[i].p > 1) tmp[k++] = tbl[i];
    memset(tbl, 0, sizeof(Blk) * TBL);
    tbl_used = k;
    while (k--) {
        unsigned s = tbl_slot(tmp[k].p);
        while (tbl[s].p) s = (s + 1) & (TBL - 1);
        tbl[s] = tmp[k];
    }
}

static __thread int in_framework;

/*
 * ASan doesn't see what GLib does to freed memory because GLib isn't instrumented. Freed blocks are filled with a
 * known byte (see env_for in run.py) and those freed by the current execution are looked at when it ends, unless
 * they are in use again. The first 8 bytes are overwritten by ASan itself, they are sampled later on.
 */
#define FREED 1024
#define FREED_MAX 2048
#define FREED_BYTE 0xdd
typedef struct freed { uintptr_t p; u32 n; int sampled; u64 first; } Freed;
static Freed freed[FREED];
static unsigned freed_list[FREED];
static unsigned nfreed;
static Freed* freed_last;

#define FREED_SLOT(p) ((unsigned)((((u64)(p)) * 0x9E3779B97F4A7C15ULL) >> (64 - 10)))

__attribute__((no_sanitize("address")))
static int freed_still(uintptr_t p, u32 n)
{
    const u32 len = n & ~7u;
    u32 i;
    for (i = 0; i < len; i += 8) if (*(volatile unsigned char*)(((p + i) >> 3) + 0x7fff8000) != 0xfd) return 0;
    return 1;
}

__attribute__((no_sanitize("address")))
static u64 freed_word(uintptr_t p) { return *(volatile u64*)p; }

static void freed_sample(void)
{
    if (freed_last) {
        if (freed_last->p && freed_still(freed_last->p, freed_last->n)) {
            freed_last->first = freed_word(freed_last->p);
            freed_last->sampled = 1;
        }
        freed_last = NULL;
    }
}

static void freed_check(void)
{
    unsigned i;
    freed_sample();
    for (i = 0; i < nfreed; i++) {
        Freed* f = freed + freed_list[i];
        const uintptr_t p = f->p;
        const u32 len = f->n & ~7u;
        u32 o;
        f->p = 0;
        if (p && f->sampled && freed_still(p, f->n)) {
            for (o = 0; o < len; o += 8) {
                if (freed_word(p + o) != (o ? 0x0101010101010101ULL * FREED_BYTE : f->first)) {
                    mc_fail("freed memory was written to: byte %u of a block of %u", o, f->n);
                }
            }
        }
    }
    nfreed = 0;
}

static void freed_add(uintptr_t p, size_t n)
{
    freed_sample();
    if (n >= 8 && n <= FREED_MAX) {
        const unsigned s = FREED_SLOT(p);
        if (!freed[s].p) {
            if (nfreed == FREED) return;
            freed_list[nfreed++] = s;
        }
        freed[s].p = p; freed[s].n = n; freed[s].sampled = 0;
        freed_last = freed + s;
    }
}

static void hook_malloc(const volatile void* ptr, size_t n)
{
    freed_sample();
    if (freed[FREED_SLOT(ptr)].p == (uintptr_t)ptr) freed[FREED_SLOT(ptr)].p = 0;
    if (tracking && ptr && !in_framework) {
        unsigned s = tbl_slot((uintptr_t)ptr);
        while (tbl[s].p > 1) s = (s + 1) & (TBL - 1);
        if (!tbl[s].p) tbl_used++;
        tbl[s].p = (uintptr_t)ptr;
        tbl[s].n = n;
        live_cnt++;
        if ((uintptr_t)ptr < heap_lo) heap_lo = (uintptr_t)ptr;
        if ((uintptr_t)ptr + n > heap_hi) heap_hi = (uintptr_t)ptr + n;
        if (tbl_used > (int)(TBL * 3 / 4)) tbl_rehash();
    }
}

static void hook_free(const volatile void* ptr)
{
    if (tracking && ptr) {
        unsigned s = tbl_slot((uintptr_t)ptr);
        while (tbl[s].p && tbl[s].p != (uintptr_t)ptr) s = (s + 1) & (TBL - 1);
        if (tbl[s].p) {
            freed_add(tbl[s].p, tbl[s].n);
            tbl[s].p = 1;
            live_cnt--;
        }
    }
}

static Blk* blk_find(uintptr_t p)
{
    unsigned s = tbl_slot(p);
    while (tbl[s].p && tbl[s].p != p) s = (s + 1) & (TBL - 1);
    return tbl[s].p ? tbl + s : NULL;
}

int __sanitizer_install_malloc_and_free_hooks(
    void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));

static void heap_init(void)
{
    tbl = mmap(NULL, sizeof(Blk) * TBL, PROT_READ|PROT_WRITE,
        MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
    tracking = 1;
}

u64 mc_heap_live(void) { return live_cnt; }
#else
/* The scheduler build has its own allocator (sched.c) */
u64 mc_heap_live(void);
static void heap_init(void) {}
static void freed_check(void) {}
static int in_framework G_GNUC_UNUSED;
#endif

#ifndef MC_NO_ASAN
void __asan_poison_memory_region(void const volatile*, size_t);
#endif

/* Exactly n accessible bytes, even if there are none */
void* mc_exact(const void* data, gsize n)
{
    void* p = malloc(n ? n : 1);
    if (n && data) memcpy(p, data, n);
#ifndef MC_NO_ASAN
    if (!n) __asan_poison_memory_region(p, 1);
#endif
    return p;
}

/*==========================================================================*
 * State keys
 *==========================================================================*/

#define KEYMAX (1 << 18)
static u64* keybuf;
static int keylen;

static void key_word(u64 w)
{
    if (keylen >= KEYMAX) { fprintf(stderr, "mc: key too large\n"); _exit(3); }
    keybuf[keylen++] = w;
}

void mc_key_int(gint64 v)
{
    key_word(0x1111); key_word((u64)v);
}

void mc_key_bytes(const void* data, gsize size)
{
    key_word(0x2222 + size);
    key_word(mc_hash(data, size, 1));
    key_word(mc_hash(data, size, 2));
}

#ifndef MC_NO_ASAN
#define MAXNODES 4096
static uintptr_t nodes[MAXNODES];
static size_t nodesz[MAXNODES];
static int nnodes;

static int node_of(uintptr_t p, size_t* off)
{
    Blk* b = blk_find(p);
    uintptr_t start = 0;
    size_t n = 0;
    int i;

    if (b) {
        start = b->p;
        n = b->n;
    } else if (p >= heap_lo && p < heap_hi) {
        /* Interior pointer? Known nodes first, then all live blocks */
        for (i = 0; i < nnodes; i++) {
            if (p > nodes[i] && p < nodes[i] + nodesz[i]) {
                *off = p - nodes[i];
                return i;
            }
        }
        if (live_cnt < 512) {
            unsigned k;
            for (k = 0; k < TBL; k++) {
                if (tbl[k].p > 1 && p > tbl[k].p && p < tbl[k].p + tbl[k].n) {
                    start = tbl[k].p; n = tbl[k].n;
                    break;
                }
            }
        }
    }
    if (!start) return -1;
    *off = p - start;
    for (i = 0; i < nnodes; i++) if (nodes[i] == start) return i;
    if (nnodes >= MAXNODES) return -1;
    nodes[nnodes] = start;
    nodesz[nnodes] = n;
    return nnodes++;
}

__attribute__((no_sanitize("address")))
static void key_region(const void* start, size_t n)
{
    const u64* w = start;
    size_t i;
    for (i = 0; i < n / 8; i++) {
        const u64 v = w[i];
        size_t off;
        int id;
        if (v < 4096) {
            key_word(v);
        } else if ((id = node_of(v, &off)) >= 0) {
            key_word(0xA5A5000000000000ULL + id);
            key_word(off);
        } else if (v >= heap_lo && v < heap_hi) {
            key_word(0xDEADDEADDEAD0000ULL);
        } else {
            key_word(v);
        }
    }
    if (n & 7) {
        u64 v = 0;
        const unsigned char* t = (const unsigned char*)start + (n & ~7UL);
        size_t k;
        for (k = 0; k < (n & 7); k++) v |= ((u64)t[k]) << (8 * k);
        key_word(v);
    }
}

static int nodes_done;

static void key_walk(void)
{
    while (nodes_done < nnodes) {
        int i = nodes_done++;
        key_word(0x3333 + nodesz[i]);
        key_region((void*)nodes[i], nodesz[i]);
    }
}

void mc_key_ptr(const void* root)
{
    u64 r = (u64)(uintptr_t)root;
    key_word(0x4444);
    key_region(&r, 8);
    key_walk();
}

extern char __start_sut_data[] __attribute__((weak));
extern char __stop_sut_data[] __attribute__((weak));
extern char __start_sut_bss[] __attribute__((weak));
extern char __stop_sut_bss[] __attribute__((weak));

static void key_statics(void)
{
    if (__start_sut_data) key_region(__start_sut_data, __stop_sut_data - __start_sut_data);
    if (__start_sut_bss) key_region(__start_sut_bss, __stop_sut_bss - __start_sut_bss);
    key_walk();
}

static void key_begin(void)
{
    keylen = 0; nnodes = 0; nodes_done = 0;
}
#else
void mc_key_ptr(const void* root) { mc_key_int((gint64)(uintptr_t)root); }
static void key_statics(void) {}
static void key_begin(void) { keylen = 0; }
#endif

/*==========================================================================*
 * Reporting
 *==========================================================================*/

void mc_note_(const char* fmt, ...)
{
    va_list va;
    int n;
    if (!mc_verbose || S->notelen > NOTESIZE - 1024) return;
    va_start(va, fmt);
    n = vsnprintf(S->notes + S->notelen, 1000, fmt, va);
    va_end(va);
    if (n > 999) n = 999;
    S->notelen += n;
    S->notes[S->notelen++] = '\n';
    S->notes[S->notelen] = 0;
}

void mc_fail(const char* fmt, ...)
{
    va_list va;
    va_start(va, fmt);
    vsnprintf(S->msg, MSGSIZE, fmt, va);
    va_end(va);
    _exit(77);
}

#define OUT_BITS 21
static u64 outset[1 << OUT_BITS];

void mc_outcome(u64 h)
{
    unsigned s;
    if (!h) h = 1;
    if (S->outcomes >= (1 << OUT_BITS) / 2) return;
    s = (unsigned)(h * 0x9E3779B97F4A7C15ULL >> (64 - OUT_BITS));
    while (outset[s] && outset[s] != h) s = (s + 1) & ((1 << OUT_BITS) - 1);
    if (!outset[s]) { outset[s] = h; S->outcomes++; }
}

void mc_step(void) { S->transitions++; }
void mc_steps(u64 n) { S->transitions += n; }

static void glib_log(const gchar* domain, GLogLevelFlags level, const gchar* msg, gpointer data)
{
    if (level & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR | G_LOG_LEVEL_WARNING)) {
        mc_num_criticals++;
        if (!mc_quiet_criticals) {
            mc_fail("GLib %s: %s", (level & G_LOG_LEVEL_WARNING) ? "warning" : "critical", msg);
        }
    }
}

/*==========================================================================*
 * DFS over choices
 *==========================================================================*/

static int dfs_prefix;              /* choices in S->path to be replayed */
static int dfs_pos;
static int dfs_dev, dfs_bound;      /* deviations used in this run / allowed */
static char dfs_isdev[MAXPATH];

static int choose_common(int n, const char* what, int dev)
{
    int c;
    if (n <= 0) { snprintf(S->msg, MSGSIZE, "mc_choose(%d)", n); _exit(3); }
    if (dfs_pos >= MAXPATH) { fprintf(stderr, "mc: path too long\n"); _exit(3); }
    if (dfs_pos < dfs_prefix) {
        c = S->path[dfs_pos];
        if (c >= n || (S->nalt[dfs_pos] && S->nalt[dfs_pos] != n)) {
            snprintf(S->msg, MSGSIZE, "mc: replay diverged at choice %d (%s): %d of %d, was of %d",
                dfs_pos, what, c, n, S->nalt[dfs_pos]);
            _exit(3);
        }
    } else {
        c = 0;
        S->path[dfs_pos] = 0;
        S->states++;
    }
    S->nalt[dfs_pos] = n;
    dfs_isdev[dfs_pos] = dev;
    if (dev && c) dfs_dev++;
    dfs_pos++;
    S->npath = dfs_pos;
    return c;
}

int mc_choose(int n, const char* what) { return n == 1 ? 0 : choose_common(n, what, 0); }
int mc_choose_dev(int n, const char* what)
{
    /* Once the budget is used up there's no choice */
    if (dfs_bound >= 0 && dfs_dev >= dfs_bound) {
        if (n > 1) S->capped |= 8;
        return 0;
    }
    return n == 1 ? 0 : choose_common(n, what, 1);
}
int mc_dev_left(void) { return dfs_bound < 0 ? INT_MAX : dfs_bound - dfs_dev; }

static gint64 exec_dfs(void)
{
    const u64 live = mc_heap_live();
    dfs_pos = 0;
    dfs_dev = 0;
    S->npath = 0;
    S->progress++;
    S->execs++;
    cur->body();
    if (dfs_pos < dfs_prefix) {
        snprintf(S->msg, MSGSIZE, "mc: replay ended early (%d of %d choices)", dfs_pos, dfs_prefix);
        _exit(3);
    }
    freed_check();
    return (gint64)(mc_heap_live() - live);
}

static void leak_confirm(gint64 (*again)(void))
{
    int i;
    gint64 d = 0;
    const u64 st = S->states, tr = S->transitions, ex = S->execs;
    for (i = 0; i < 3; i++) {
        d = again();
        if (d <= 0) { S->states = st; S->transitions = tr; S->execs = ex; return; }
    }
    mc_fail("leak: %d block(s) still allocated after everything was released", (int)d);
}

static gint64 again_dfs(void)
{
    dfs_prefix = S->npath;
    return exec_dfs();
}

static int out_of_time(void)
{
    return now_s() - t0 > time_limit;
}

static void run_dfs(void)
{
    const int devs[2] = { cur->dev_quick, cur->dev_thorough };
    int firstn = 0;
    dfs_bound = devs[mc_tier];
    dfs_prefix = 0;
    if (shard_n > 1) {
        /* Shard by the first choice: learn how many there are */
        exec_dfs();
        firstn = S->npath ? S->nalt[0] : 0;
        S->states = S->transitions = S->execs = 0;
        if (!firstn) { if (shard_i) { S->finished = 1; return; } }
        else {
            if (shard_i >= firstn) { S->finished = 1; return; }
            S->path[0] = shard_i;
            dfs_prefix = 1;
            S->nalt[0] = firstn;
        }
    }
    for (;;) {
        int i;
        const gint64 d = exec_dfs();
        if (d > 0 && !cur->no_leak_check) leak_confirm(again_dfs);
        if ((u64)S->npath > S->maxlen) S->maxlen = S->npath;
        /* Backtrack */
        {
            int used[2] = { 0, 0 };
            int dev = dfs_dev;
            (void)used;
            for (i = S->npath - 1; i >= 0; i--) {
                if (dfs_isdev[i] && S->path[i]) dev--; /* deviations before i */
                if (i == 0 && firstn) {
                    if (S->path[0] + shard_n < S->nalt[0]) {
                        S->path[0] += shard_n;
                        break;
                    }
                } else if (S->path[i] + 1 < S->nalt[i] &&
                    (!dfs_isdev[i] || dfs_bound < 0 || dev < dfs_bound)) {
                    S->path[i]++;
                    break;
                }
            }
        }
        if (i < 0) break;
        S->states++;
        dfs_prefix = i + 1;
        if ((S->execs & 0xff) == 0 && out_of_time()) { S->capped |= 2; break; }
    }
    S->finished = 1;
}

/*==========================================================================*
 * Families
 *==========================================================================*/

static gint64 exec_family(void)
{
    const u64 live = mc_heap_live();
    cur->run(S->idx);
    freed_check();
    return (gint64)(mc_heap_live() - live);
}

static void run_family(void)
{
    const u64 n = cur->count();
    u64 i;
    for (i = shard_i; i < n; i += shard_n) {
        gint64 d;
        S->idx = i;
        S->progress++;
        S->execs++;
        d = exec_family();
        if (d > 0 && !cur->no_leak_check) leak_confirm(exec_family);
        if ((i & 0xfff) < (u64)shard_n && out_of_time()) { S->capped |= 2; break; }
    }
    /* Distinct observations (if there were any) are the states of a family */
    S->states += S->outcomes ? S->outcomes : S->execs;
    if (!S->transitions) S->transitions = S->execs;
    S->finished = 1;
}

/*==========================================================================*
 * BFS
 *==========================================================================*/

typedef struct { u32 parent; short op; short depth; } Node;
typedef struct { u64 a, b; } Key;
#define VIS_BITS 24
#define MAXSTATES (6u << 20)
static Node* bnode;
static u32 nbnode;
static Key* vis;

static void bfs_key(Key* k)
{
    key_begin();
    in_framework = 1;
    cur->key();
    key_statics();
    in_framework = 0;
    k->a = mc_hash(keybuf, keylen * 8, 11);
    k->b = mc_hash(keybuf, keylen * 8, 23);
    if (!k->a) k->a = 1;
}

static int vis_add(const Key* k)
{
    u64 s = k->a >> (64 - VIS_BITS);
    while (vis[s].a) {
        if (vis[s].a == k->a && vis[s].b == k->b) return 0;
        s = (s + 1) & ((1u << VIS_BITS) - 1);
    }
    vis[s] = *k;
    return 1;
}

/* Runs the history in S->path; returns leak delta. The last op may be
 * disabled in which case *enabled is set to zero */
static int bfs_enabled;
static Key bfs_k;
static int bfs_nops;

static gint64 exec_bfs(void)
{
    const u64 live = mc_heap_live();
    int i;
    S->progress++;
    S->execs++;
    cur->create();
    bfs_enabled = 1;
    for (i = 0; i < S->npath; i++) {
        if (!cur->apply(S->path[i])) {
            if (i + 1 < S->npath) { snprintf(S->msg, MSGSIZE, "mc: replay diverged"); _exit(3); }
            bfs_enabled = 0;
        }
    }
    if (bfs_enabled) {
        bfs_nops = cur->nops();
        bfs_key(&bfs_k);
    }
    cur->destroy();
    freed_check();
    return (gint64)(mc_heap_live() - live);
}

static void run_bfs(void)
{
    const int maxdepth = mc_tier == MC_QUICK ? cur->depth_quick : cur->depth_thorough;
    u32 head = 0;
    gint64 d;

    bnode = mmap(NULL, sizeof(Node) * (MAXSTATES + 1), PROT_READ|PROT_WRITE,
        MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    vis = mmap(NULL, sizeof(Key) << VIS_BITS, PROT_READ|PROT_WRITE,
        MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    S->npath = 0;
    /* Warm up, then check that the same history gives the same key */
    exec_bfs();
    exec_bfs();
    {
        Key k1 = bfs_k;
        exec_bfs();
        if (memcmp(&k1, &bfs_k, sizeof(k1))) {
            snprintf(S->msg, MSGSIZE, "mc: initial state key isn't reproducible");
            _exit(3);
        }
    }
    S->execs = 0;
    d = exec_bfs();
    if (d > 0 && !cur->no_leak_check) leak_confirm(exec_bfs);
    vis_add(&bfs_k);
    bnode[0].parent = 0; bnode[0].op = -1; bnode[0].depth = 0;
    nbnode = 1;
    while (head < nbnode) {
        const u32 me = head++;
        int op, nops, i;
        u32 p;
        if (bnode[me].depth >= maxdepth) { S->frontier++; S->capped |= 1; continue; }
        S->depth_done = bnode[me].depth + 1;
        /* Reconstruct the history */
        S->npath = bnode[me].depth;
        for (p = me, i = S->npath - 1; i >= 0; i--) { S->path[i] = bnode[p].op; p = bnode[p].parent; }
        exec_bfs();
        nops = bfs_nops;
        for (op = 0; op < nops; op++) {
            S->path[bnode[me].depth] = op;
            S->npath = bnode[me].depth + 1;
            d = exec_bfs();
            if (!bfs_enabled) continue;
            S->transitions++;
            if (d > 0 && !cur->no_leak_check) leak_confirm(exec_bfs);
            if (vis_add(&bfs_k)) {
                if (nbnode >= MAXSTATES) { S->capped |= 4; break; }
                bnode[nbnode].parent = me;
                bnode[nbnode].op = op;
                bnode[nbnode].depth = bnode[me].depth + 1;
                if ((u64)bnode[nbnode].depth > S->maxlen) S->maxlen = bnode[nbnode].depth;
                nbnode++;
            }
        }
        S->states = nbnode;
        if ((S->capped & 4)) break;
        if ((me & 0x3f) == 0 && out_of_time()) { S->capped |= 2; break; }
    }
    S->states = nbnode;
    /* A sample: history of the last state found */
    {
        u32 p = nbnode - 1;
        int i;
        S->npath = bnode[p].depth;
        for (i = S->npath - 1; i >= 0; i--) { S->path[i] = bnode[p].op; p = bnode[p].parent; }
    }
    S->finished = 1;
}

/*==========================================================================*
 * Driver
 *==========================================================================*/

static void child_init(void)
{
    g_log_set_default_handler(glib_log, NULL);
    gutil_log_default.level = GLOG_LEVEL_NONE;
    keybuf = mmap(NULL, KEYMAX * 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    heap_init();
    if (cur->setup) cur->setup();
    t0 = now_s();
}

static char* slurp(const char* path, int max)
{
    static char buf[20000];
    int fd = open(path, O_RDONLY);
    int n = 0;
    if (fd >= 0) { n = read(fd, buf, MIN(max, (int)sizeof(buf) - 1)); close(fd); }
    buf[MAX(n, 0)] = 0;
    return buf;
}

/* Runs fn in a child. Returns wait status, -1 on a hang */
static int spawn(void (*fn)(void), const char* errfile, int hang_s)
{
    pid_t pid;
    fflush(stdout);
    fflush(stderr);
    pid = fork();
    if (!pid) {
        int fd = open(errfile, O_CREAT|O_WRONLY|O_TRUNC, 0600);
        int nul = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(nul, 1);
        close(fd);
        close(nul);
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        child_init();
        fn();
        _exit(0);
    } else {
        u64 last = (u64)-1;
        double since = now_s();
        int status;
        for (;;) {
            struct timespec ts = { 0, 5000000 };
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) { kill(-pid, SIGKILL); return status; }
            if (S->progress != last) { last = S->progress; since = now_s(); }
            else if (now_s() - since > hang_s) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return -1;
            }
            nanosleep(&ts, NULL);
        }
    }
}

static void explore(void)
{
    switch (cur->kind) {
    case MC_FAMILY: run_family(); break;
    case MC_DFS: run_dfs(); break;
    case MC_BFS: run_bfs(); break;
    }
}

static void replay_one(void)
{
    gint64 d = 0;
    gint64 (*fn)(void) = NULL;
    mc_verbose = 1;
    dfs_bound = mc_tier == MC_QUICK ? cur->dev_quick : cur->dev_thorough;
    switch (cur->kind) {
    case MC_FAMILY: fn = exec_family; break;
    case MC_DFS: dfs_prefix = S->npath; memset(S->nalt, 0, sizeof(S->nalt)); fn = exec_dfs; break;
    case MC_BFS: fn = exec_bfs; break;
    }
    d = fn();
    if (d > 0 && !cur->no_leak_check) {
        S->notelen = 0;
        leak_confirm(cur->kind == MC_DFS ? again_dfs : fn);
    }
    S->finished = 1;
}

static void json_str(const char* s)
{
    putchar('"');
    for (; *s; s++) {
        const unsigned char c = *s;
        if (c == '"' || c == '\\') { putchar('\\'); putchar(c); }
        else if (c == '\n') fputs("\\n", stdout);
        else if (c < 0x20 || c > 0x7e) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}

static void print_spec(void)
{
    int i;
    printf("\"%s ", cur->name);
    if (cur->kind == MC_FAMILY) printf("%llu", (unsigned long long)S->idx);
    else for (i = 0; i < S->npath; i++) printf("%s%d", i ? "," : "", S->path[i]);
    printf("\"");
}

static const char* describe(int status, char* buf, size_t n, const char* err)
{
    if (status == -1) {
        snprintf(buf, n, "hang: no progress (endless loop or deadlock)");
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
        snprintf(buf, n, "%s", S->msg);
    } else {
        const char* e = strstr(err, "ERROR: ");
        char line[600];
        int i = 0;
        if (!e) e = err;
        while (e[i] && e[i] != '\n' && i < 500) { line[i] = e[i]; i++; }
        line[i] = 0;
        snprintf(buf, n, "crash (%s %d) %s", WIFSIGNALED(status) ? "signal" : "exit",
            WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), line);
    }
    return buf;
}

/* For the harnesses which start themselves anew */
int mc_alt_main(int argc, char** argv) __attribute__((weak));

int main(int argc, char** argv)
{
    int i;
    const char* name = NULL;
    const char* replay = NULL;
    int list = 0, hang, status;
    char errfile[256];
    static char desc[MSGSIZE + 1000], desc2[MSGSIZE + 1000];

    if (mc_alt_main && (i = mc_alt_main(argc, argv)) >= 0) return i;
    setenv("G_SLICE", "always-malloc", 1);
    setenv("TZ", "UTC", 1);
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--list")) list = 1;
        else if (!strcmp(argv[i], "--run")) name = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) mc_tier = MC_THOROUGH;
        else if (!strcmp(argv[i], "--shard")) sscanf(argv[++i], "%d/%d", &shard_i, &shard_n);
        else if (!strcmp(argv[i], "--replay")) { name = argv[++i]; replay = argv[++i]; }
        else if (!strcmp(argv[i], "--time")) time_limit = atof(argv[++i]);
    }
    if (list) {
        const McSuite* s;
        for (s = mc_suites; s->name; s++) printf("%s %d %d\n", s->name, s->split, s->only);
        return 0;
    }
    for (cur = mc_suites; cur->name && strcmp(cur->name, name); cur++);
    if (!cur->name) { fprintf(stderr, "No such suite %s\n", name); return 2; }
    S = mmap(NULL, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    snprintf(errfile, sizeof(errfile), "%s/mc.%d.err", getenv("MC_TMP") ? getenv("MC_TMP") : "/tmp", (int)getpid());
    hang = cur->slow_s ? cur->slow_s : 20;

    if (replay) {
        if (cur->kind == MC_FAMILY) S->idx = strtoull(replay, NULL, 10);
        else while (*replay) {
            char* end;
            S->path[S->npath++] = strtol(replay, &end, 10);
            replay = (*end == ',') ? end + 1 : end;
        }
        status = spawn(replay_one, errfile, 3 * hang);
        printf("%s\n", S->notes);
        if (status == 0) { printf("result: ok\n"); unlink(errfile); return 0; }
        printf("result: %s\n", describe(status, desc, sizeof(desc), slurp(errfile, 20000)));
        printf("%s\n", slurp(errfile, 20000));
        unlink(errfile);
        return (status == -1 || !WIFEXITED(status) || WEXITSTATUS(status) != 3) ? 1 : 2;
    }

    {
        const double start = now_s();
        status = spawn(explore, errfile, hang);
        if (status == 0 && S->finished) {
            /* Sample: replay whatever was explored last */
            S->notelen = 0;
            S->notes[0] = 0;
            if (S->execs) {
                const u64 st = S->states, tr = S->transitions, ex = S->execs, oc = S->outcomes;
                if (cur->kind == MC_FAMILY && S->idx > 7) S->idx = S->idx / 7 * 5;
                status = spawn(replay_one, errfile, 3 * hang);
                S->states = st; S->transitions = tr; S->execs = ex; S->outcomes = oc;
            }
            printf("{\"suite\":\"%s\",\"ok\":true,\"states\":%llu,\"transitions\":%llu,"
                "\"execs\":%llu,\"outcomes\":%llu,\"maxlen\":%llu,\"capped\":%d,\"frontier\":%llu,\"depth\":%d,\"wall\":%.3f,\"spec\":",
                cur->name, (unsigned long long)S->states, (unsigned long long)S->transitions,
                (unsigned long long)S->execs, (unsigned long long)S->outcomes,
                (unsigned long long)S->maxlen, S->capped, (unsigned long long)S->frontier, S->depth_done, now_s() - start);
            print_spec();
            printf(",\"sample\":");
            if (S->notelen > 3000) S->notes[3000] = 0;
            json_str(S->notes);
            printf(",\"about\":");
            json_str(cur->about ? cur->about : "");
            printf("}\n");
            unlink(errfile);
            return 0;
        }
        if (status != -1 && WIFEXITED(status) && WEXITSTATUS(status) == 3) {
            fprintf(stderr, "%s: machinery error: %s %s\n", cur->name, S->msg, slurp(errfile, 4000));
            unlink(errfile);
            return 2;
        }
        /* Something bad happened. Confirm by replaying it (twice) */
        {
            const int np = S->npath;
            const u64 idx = S->idx;
            int ok = 1, k;
            static int path[MAXPATH];
            memcpy(path, S->path, sizeof(path));
            describe(status, desc, sizeof(desc), slurp(errfile, 20000));
            for (k = 0; k < 2 && ok; k++) {
                int st2;
                S->npath = np;
                S->idx = idx;
                memcpy(S->path, path, sizeof(path));
                S->notelen = 0;
                S->notes[0] = 0;
                S->finished = 0;
                st2 = spawn(replay_one, errfile, 3 * hang);
                if (st2 == 0) ok = 0;
                else if (st2 != -1 && WIFEXITED(st2) && WEXITSTATUS(st2) == 3) ok = 0;
                describe(st2, desc2, sizeof(desc2), slurp(errfile, 20000));
            }
            S->npath = np;
            S->idx = idx;
            memcpy(S->path, path, sizeof(path));
            printf("{\"suite\":\"%s\",\"ok\":false,\"confirmed\":%s,\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,"
                "\"message\":", cur->name, ok ? "true" : "false", (unsigned long long)S->states,
                (unsigned long long)S->transitions, (unsigned long long)S->execs);
            json_str(ok ? desc2 : desc);
            printf(",\"spec\":");
            print_spec();
            printf(",\"trace\":");
            json_str(S->notes);
            printf(",\"stderr\":");
            json_str(slurp(errfile, 6000));
            printf("}\n");
            unlink(errfile);
            return ok ? 1 : 2;
        }
    }
}
