/* Shared objects (C19), weak references (C20) and distinct data (C27) */
#include "mc.h"
#ifdef MC_SCHED
#include "mcsched.h"
#endif
#include "gutil_datapack.h"
#include "gutil_history.h"
#include "gutil_idlepool.h"
#include "gutil_idlequeue.h"
#include "gutil_intarray.h"
#include "gutil_ints.h"
#include "gutil_misc.h"
#include "gutil_objv.h"
#include "gutil_ring.h"
#include "gutil_strv.h"
#include "gutil_weakref.h"
#include <glib-object.h>
#include <sys/wait.h>
#include <unistd.h>

static int T(int q, int t) { return mc_tier == MC_QUICK ? q : t; }
int __asan_address_is_poisoned(void const volatile*);

static GType obj_type;
static void setup(void)
{
    obj_type = G_TYPE_OBJECT;
    g_object_unref(g_object_new(obj_type, NULL));
    g_main_context_default();
    g_type_class_ref(obj_type);
    /* Initialises whatever is initialised once */
    gutil_idle_pool_drain(NULL);
    g_main_context_iteration(NULL, FALSE);
    g_free(g_strdup_printf("%s %d %g", "x", 1, 1.0));
}

static void iterate(void)
{
    int n = 0;
    while (g_main_context_iteration(NULL, FALSE)) MC_CHECK(++n < 100, "main loop is never idle");
}

#ifdef MC_SCHED
/*==========================================================================*
 * C19 Shared objects
 *==========================================================================*/

typedef enum { K_HISTORY, K_RING, K_RING_PLAIN, K_INTS, K_INTS_TAKE, K_INTS_SLICE, K_INTARRAY, K_POOL, K_POOL_EMPTY, K_POOL_SHARED,
    K_QUEUE, K_QUEUE_EMPTY, K_WEAKREF, K_COUNT } Kind;
static const char* const kind_name[] = { "history", "ring", "ring without elements", "ints with a free function", "ints owning data",
    "ints with a slice", "int array", "idle pool with items", "idle pool", "shared idle pool", "idle queue with callbacks", "idle queue", "weak reference" };
static Kind kind;
static void* obj;
static int ints_data[3] = { 5, -7, 9 };
static int held;                /* References (other than internal ones) */
static int gone[4];
static GObject* target;
static GUtilIdlePool* shared_pool;

static void content_gone(gpointer p)
{
    const int i = GPOINTER_TO_INT(p);
    mc_note("    content %d is released by %d", i, sched_me());
    MC_CHECK(!gone[i]++, "content %d is released twice", i);
    MC_CHECK(!held, "content %d is released while %d reference(s) exist", i, held);
}

static void data_gone(gpointer p)
{
    MC_CHECK(p == ints_data, "wrong data is released");
    content_gone(GINT_TO_POINTER(0));
}

static void pool_item_gone(gpointer p)
{
    const int i = GPOINTER_TO_INT(p);
    MC_CHECK(!gone[i]++, "item %d is released twice", i);
}

static gboolean run_it(gpointer p) { mc_fail("cancelled callback is invoked"); return FALSE; }

static void* ref(void* o)
{
    switch (kind) {
    case K_HISTORY: return gutil_int_history_ref(o);
    case K_RING: case K_RING_PLAIN: return gutil_ring_ref(o);
    case K_INTS: case K_INTS_TAKE: case K_INTS_SLICE: return gutil_ints_ref(o);
    case K_INTARRAY: return gutil_int_array_ref(o);
    case K_POOL: case K_POOL_EMPTY: case K_POOL_SHARED: return gutil_idle_pool_ref(o);
    case K_QUEUE: case K_QUEUE_EMPTY: return gutil_idle_queue_ref(o);
    default: return gutil_weakref_ref(o);
    }
}

static void unref(void* o)
{
    switch (kind) {
    case K_HISTORY: gutil_int_history_unref(o); break;
    case K_RING: case K_RING_PLAIN: gutil_ring_unref(o); break;
    case K_INTS: case K_INTS_TAKE: case K_INTS_SLICE: gutil_ints_unref(o); break;
    case K_INTARRAY: gutil_int_array_unref(o); break;
    case K_POOL: case K_POOL_EMPTY: case K_POOL_SHARED: gutil_idle_pool_unref(o); break;
    case K_QUEUE: case K_QUEUE_EMPTY: gutil_idle_queue_unref(o); break;
    default: gutil_weakref_unref(o); break;
    }
}

static void alive(void* o)
{
    MC_CHECK(!__asan_address_is_poisoned(o), "the object is gone while there are %d reference(s)", held);
}

static gint64 clk(void) { return 10; }

static void create_obj(void)
{
    memset(gone, 0, sizeof(gone));
    switch (kind) {
    case K_HISTORY:
        obj = gutil_int_history_new_full(2, 100, clk);
        gutil_int_history_add(obj, 42);
        break;
    case K_RING: case K_RING_PLAIN:
        obj = gutil_ring_new_full(0, 3, content_gone);
        if (kind == K_RING) {
            gutil_ring_put(obj, GINT_TO_POINTER(1));
            gutil_ring_put(obj, GINT_TO_POINTER(2));
        }
        break;
    case K_INTS: obj = gutil_ints_new_with_free_func(ints_data, 3, data_gone, ints_data); break;
    case K_INTS_TAKE: obj = gutil_ints_new(ints_data, 3); break;
    case K_INTS_SLICE: obj = gutil_ints_new_with_free_func(ints_data, 3, data_gone, ints_data); break;
    case K_INTARRAY: obj = gutil_int_array_new_from_vals(ints_data, 3); break;
    case K_POOL: case K_POOL_EMPTY:
        obj = gutil_idle_pool_new();
        if (kind == K_POOL) {
            gutil_idle_pool_add(obj, GINT_TO_POINTER(1), pool_item_gone);
            gutil_idle_pool_add(obj, GINT_TO_POINTER(2), pool_item_gone);
        }
        break;
    case K_POOL_SHARED:
        shared_pool = NULL;
        obj = gutil_idle_pool_ref(gutil_idle_pool_get(&shared_pool));
        break;
    case K_QUEUE: case K_QUEUE_EMPTY:
        obj = gutil_idle_queue_new();
        if (kind == K_QUEUE) {
            gutil_idle_queue_add_tag_full(obj, 1, (GUtilIdleFunc)run_it, GINT_TO_POINTER(1), content_gone);
            gutil_idle_queue_add_tag_full(obj, 2, (GUtilIdleFunc)run_it, GINT_TO_POINTER(2), content_gone);
        }
        break;
    default:
        target = g_object_new(obj_type, NULL);
        obj = gutil_weakref_new(target);
        break;
    }
}

/* Reads it without changing anything */
static void use(void* o)
{
    guint n = 0;
    alive(o);
    switch (kind) {
    case K_HISTORY: break;          /* Queries may drop what has expired */
    case K_RING: case K_RING_PLAIN:
        MC_EXPECT(gutil_ring_size(o) == (kind == K_RING ? 2 : 0));
        MC_EXPECT(gutil_ring_data_at(o, 1) == (kind == K_RING ? GINT_TO_POINTER(2) : NULL));
        break;
    case K_INTS: case K_INTS_TAKE: case K_INTS_SLICE: {
        const int* d = gutil_ints_get_data(o, &n);
        MC_EXPECT(n == 3 && d[0] == 5 && d[1] == -7 && d[2] == 9);
        break;
    }
    case K_INTARRAY: {
        GUtilIntArray* a = o;
        MC_EXPECT(a->count == 3 && gutil_int_array_find(a, 9) == 2);
        break;
    }
    case K_QUEUE:
        MC_EXPECT(gutil_idle_queue_contains_tag(o, 2) && !gutil_idle_queue_contains_tag(o, 3));
        break;
    case K_WEAKREF: {
        GObject* t = gutil_weakref_get(o);
        MC_EXPECT(t == target);
        g_object_unref(t);
        break;
    }
    default: break;
    }
    alive(o);
}

typedef enum { P_UNREF, P_REF, P_USE, P_SPECIAL } Op;
#define MAXPROG 8
static int prog[SCHED_MAX][MAXPROG], nprog[SCHED_MAX];

/* The kind specific operation */
static const char* special_name(void)
{
    switch (kind) {
    case K_INTS: case K_INTS_TAKE: return "unref_to_data";
    case K_INTS_SLICE: return "slice";
    default: return NULL;
    }
}

static void special(void* o, int* refs)
{
    guint n = 0;
    alive(o);
    if (kind == K_INTS_SLICE) {
        GUtilInts* s = gutil_ints_new_from_ints(o, 1, 5);
        held--; (*refs)--;
        held++;             /* The slice */
        gutil_ints_unref(o);
        {
            const int* d = gutil_ints_get_data(s, &n);
            MC_EXPECT(n == 2 && d[0] == -7 && d[1] == 9);
            MC_EXPECT(gutil_ints_contains(s, 9));
        }
        held--;
        gutil_ints_unref(s);
    } else {
        int* d;
        held--; (*refs)--;
        d = gutil_ints_unref_to_data(o, &n);
        MC_EXPECT(n == 3 && !__asan_address_is_poisoned(d) && d[0] == 5 && d[1] == -7 && d[2] == 9);
        MC_EXPECT(d != ints_data);
        d[0] = 1;           /* It's an independent copy */
        g_free(d);
    }
}

static int borrow;      /* Threads start with the reference which belongs to the main one */

static void ref_thread(void* arg)
{
    const int me = (int)(long)arg;
    int i, refs = !borrow;
    for (i = 0; i < nprog[me]; i++) {
        switch (prog[me][i]) {
        case P_UNREF:
            refs--; held--;
            unref(obj);
            break;
        case P_REF:
            MC_EXPECT(ref(obj) == obj);
            refs++; held++;
            alive(obj);
            break;
        case P_USE: use(obj); break;
        case P_SPECIAL: special(obj, &refs); break;
        }
        mc_step();
    }
}

static void c19_(int nthreads, int maxlen, int maxrefs)
{
    static const SchedFunc fns[SCHED_MAX] = { ref_thread, ref_thread, ref_thread, ref_thread };
    static void* const args[SCHED_MAX] = { (void*)0, (void*)1, (void*)2, (void*)3 };
    static const char* const op_name[] = { "unref", "ref", "use", "special" };
    u64 h;
    int i, keep;
    kind = mc_choose(K_COUNT, "kind");
    keep = mc_choose(3, "keep");
    borrow = keep == 2;
    mc_note("%s%s", kind_name[kind], borrow ? ", there's only the reference kept by the main thread" : keep ? ", one reference is kept by the main thread" : "");
    create_obj();
    keep = !!keep;
    held = borrow ? 1 : nthreads + keep;
    for (i = 1; i < held; i++) MC_EXPECT(ref(obj) == obj);
    for (i = 0; i < nthreads; i++) {
        int refs = 1, n = 0;
        if (borrow) {
            prog[i][n++] = P_REF;
            mc_note("  thread %d: ref", i);
        }
        while (refs) {
            int alt[4], na = 0, op;
            alt[na++] = P_UNREF;
            if (special_name()) alt[na++] = P_SPECIAL;
            if (n + refs < maxlen + borrow) {
                if (n + refs + 2 <= maxlen + borrow && refs < maxrefs) alt[na++] = P_REF;
                if (kind != K_HISTORY && kind != K_POOL && kind != K_POOL_EMPTY && kind != K_POOL_SHARED && kind != K_QUEUE_EMPTY &&
                    !(n && prog[i][n - 1] == P_USE)) alt[na++] = P_USE;
            }
            op = alt[mc_choose(na, "op")];
            prog[i][n++] = op;
            if (op == P_REF) refs++; else if (op != P_USE) refs--;
            mc_note("  thread %d: %s", i, op == P_SPECIAL ? special_name() : op_name[op]);
        }
        nprog[i] = n;
        /* Threads are the same */
        if (i && maxlen > 2) {
            int k = 0;
            while (k < n && k < nprog[i - 1] && prog[i][k] == prog[i - 1][k]) k++;
        }
    }
    sched_run(nthreads, fns, args, FALSE);
    MC_EXPECT(held == keep);
    if (keep) {
        use(obj);
        if (kind == K_RING) MC_EXPECT(!gone[1] && !gone[2]);
        if (kind == K_INTS || kind == K_INTS_SLICE) MC_EXPECT(!gone[0]);
        held = 0;
        unref(obj);
    }
    if (kind == K_WEAKREF) {
        MC_EXPECT(target->ref_count == 1);
        g_object_unref(target);
        target = NULL;
    }
    if (kind == K_QUEUE || kind == K_RING) MC_CHECK(gone[1] == 1 && gone[2] == 1, "contents aren't released with the last reference");
    if (kind == K_INTS || kind == K_INTS_SLICE) MC_CHECK(gone[0] == 1, "data isn't released with the last reference");
    iterate();
    if (kind == K_POOL) MC_CHECK(gone[1] == 1 && gone[2] == 1, "items aren't released");
    if (kind == K_POOL_SHARED) MC_CHECK(!shared_pool, "shared pointer isn't cleared");
    h = kind * 1000 + keep + borrow;
    for (i = 0; i < nthreads; i++) h = mc_hash(prog[i], nprog[i] * sizeof(int), h);
    mc_outcome(h);
}

static void c19_two(void) { c19_(2, T(3, 4), 2); }
static void c19_three(void) { c19_(3, T(1, 3), 2); }

/* Owner thread of a pool runs the loop or drains the pool, others take and drop references */
static struct { GUtilIdlePool* pool; GMainContext* ctx; int op, released[4], owner_items; } po;

static void po_item(gpointer p)
{
    const int i = GPOINTER_TO_INT(p);
    MC_CHECK(!po.released[i]++, "item %d is released twice", i);
    MC_CHECK(sched_me() == 0, "item %d is released by a wrong thread", i);
}

static int po_others, po_go;
static int po_alone(void* arg) { return !po_others; }
static void po_owner(void* arg)
{
    int i;
    g_main_context_push_thread_default(po.ctx);
    po.pool = gutil_idle_pool_new();
    for (i = 0; i < po_others; i++) gutil_idle_pool_ref(po.pool);
    po_go = 1;
    for (i = 1; i < 3; i++) {
        gutil_idle_pool_add(po.pool, GINT_TO_POINTER(i), po_item);
        switch (po.op) {
        case 0: gutil_idle_pool_drain(po.pool); break;
        case 1: g_main_context_iteration(po.ctx, FALSE); break;
        case 2: gutil_idle_pool_add(po.pool, GINT_TO_POINTER(3), po_item);
            gutil_idle_pool_drain(po.pool);
            po.released[3] = 0;
            break;
        }
    }
    gutil_idle_pool_drain(po.pool);
    sched_wait(po_alone, NULL);
    gutil_idle_pool_unref(po.pool);
    g_main_context_pop_thread_default(po.ctx);
}

static int po_started(void* arg) { return po_go; }
static void po_other(void* arg)
{
    sched_wait(po_started, NULL);
    gutil_idle_pool_ref(po.pool);
    gutil_idle_pool_unref(po.pool);
    gutil_idle_pool_unref(po.pool);
    po_others--;
}

static void c19_pool_owner(void)
{
    static const SchedFunc fns[] = { po_owner, po_other, po_other };
    const int c = mc_choose(6, "case"), n = 1 + c / 3;
    memset(&po, 0, sizeof(po));
    po.op = c % 3;
    po.ctx = g_main_context_new();
    po_others = n;
    po_go = 0;
    mc_note("%d other thread(s), op %d", n, po.op);
    sched_run(1 + n, fns, NULL, FALSE);
    MC_CHECK(po.released[1] == 1 && po.released[2] == 1, "items aren't released");
    g_main_context_unref(po.ctx);
    mc_outcome(n * 10 + po.op);
}
#endif

#ifdef MC_SCHED
/*==========================================================================*
 * C18 Default pools of threads
 *==========================================================================*/

typedef enum { X_ADD, X_ADD_NESTED, X_DRAIN, X_ITER, X_ADD_EXPLICIT, X_COUNT } XOp;
static const char* const x_name[] = { "add", "add (adds another one when released)", "drain", "iterate", "add to the default pool" };
typedef enum { CTX_OWN, CTX_KEPT, CTX_NONE, CTX_MODES } XMode;
static const char* const xm_name[] = { "with its own context", "with a context which outlives the thread", "without its own context" };
typedef struct { int owner, nested, gone; } XItem;
static XItem xitem[32];
static int nxitem, xprog[SCHED_MAX][5], xlen, xmode[SCHED_MAX], xbusy[SCHED_MAX], xexit[SCHED_MAX], xpend[SCHED_MAX][16], nxpend[SCHED_MAX];
static GMainContext* xctx[SCHED_MAX];
static GSource* xother[SCHED_MAX];      /* Unrelated sources */
static int xover;

static gboolean unrelated(gpointer data) { return G_SOURCE_CONTINUE; }
static void x_add(int me, int nested, GUtilIdlePool* pool);

static void x_release(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1, o = xitem[i].owner, me = sched_me();
    mc_note("    item %d of thread %d is released by %d", i, o, me);
    MC_CHECK(!xitem[i].gone++, "item %d is released again", i);
    if (xmode[o] == CTX_OWN || !xexit[o]) MC_CHECK(me == o, "item %d of thread %d is released by thread %d", i, o, me);
    MC_CHECK(xbusy[o] || xexit[o], "item %d is released too early", i);
    MC_CHECK(nxpend[o] && xpend[o][0] == i, "item %d is released out of order", i);
    memmove(xpend[o], xpend[o] + 1, sizeof(xpend[0][0]) * --nxpend[o]);
    if (xitem[i].nested && !xexit[o]) x_add(o, 0, NULL);
}

static void x_add(int me, int nested, GUtilIdlePool* pool)
{
    const int i = nxitem++, busy = xbusy[me];
    xitem[i].owner = me;
    xitem[i].nested = nested;
    xitem[i].gone = 0;
    xpend[me][nxpend[me]++] = i;
    xbusy[me] = 0;          /* Adding doesn't release anything */
    gutil_idle_pool_add(pool, GINT_TO_POINTER(i + 1), x_release);
    xbusy[me] = busy;
}

static void pool_thread(void* arg)
{
    const int me = (int)(long)arg;
    int i;
    if (xctx[me]) g_main_context_push_thread_default(xctx[me]);
    for (i = 0; i < xlen; i++) {
        switch (xprog[me][i]) {
        case X_ADD: x_add(me, 0, NULL); break;
        case X_ADD_NESTED: x_add(me, 1, NULL); break;
        case X_ADD_EXPLICIT: {
            GUtilIdlePool* p = gutil_idle_pool_get_default();
            int k;
            MC_EXPECT(p && p == gutil_idle_pool_get_default());
            x_add(me, 0, p);
            break;
        }
        case X_DRAIN:
            xbusy[me]++;
            gutil_idle_pool_drain(NULL);
            xbusy[me]--;
            MC_CHECK(!nxpend[me], "item %d is still there", xpend[me][0]);
            break;
        case X_ITER:
            xbusy[me]++;
            if (xctx[me]) {
                g_main_context_iteration(xctx[me], FALSE);
                MC_CHECK(!nxpend[me], "item %d is still there", xpend[me][0]);
            } else g_main_context_iteration(NULL, FALSE);
            xbusy[me]--;
            break;
        }
        MC_CHECK(!g_source_is_destroyed(xother[me]), "unrelated source is removed");
        mc_step();
    }
    if (xctx[me]) {
        g_main_context_pop_thread_default(xctx[me]);
        if (xmode[me] == CTX_OWN) {
            g_source_destroy(xother[me]);
            g_main_context_unref(xctx[me]);
        }
    }
    xexit[me] = 1;
}

/* Someone is running the default loop at the same time */
static void loop_thread(void* arg)
{
    g_main_context_iteration(NULL, FALSE);
    sched_point("iterating");
    g_main_context_iteration(NULL, FALSE);
    xexit[sched_me()] = 1;
}

static void c18_threads_(int len, int loop)
{
    static const SchedFunc fns[SCHED_MAX] = { pool_thread, pool_thread, loop_thread };
    static void* const args[SCHED_MAX] = { (void*)0, (void*)1, (void*)2 };
    static const SchedFunc loop_fns[SCHED_MAX] = { pool_thread, loop_thread };
    const int c = mc_choose(CTX_MODES * CTX_MODES * X_COUNT, "contexts and the first operation");
    const int np = loop ? 1 : 2, n = 2;
    GSource* main_src;
    int i, k;
    u64 h = c;
    if (loop && c / CTX_MODES % CTX_MODES) return;
    xlen = len;
    nxitem = 0;
    xmode[0] = c % CTX_MODES;
    xmode[1] = c / CTX_MODES % CTX_MODES;
    for (i = 0; i < np; i++) {
        mc_note("thread %d %s", i, xm_name[xmode[i]]);
        nxpend[i] = xbusy[i] = xexit[i] = 0;
        for (k = 0; k < len; k++) {
            xprog[i][k] = i || k ? mc_choose(X_COUNT, "op") : c / CTX_MODES / CTX_MODES;
            h = h * 7 + xprog[i][k];
            mc_note("  thread %d: %s", i, x_name[xprog[i][k]]);
        }
        xctx[i] = xmode[i] == CTX_NONE ? NULL : g_main_context_new();
        xother[i] = g_timeout_source_new(100000);
        g_source_set_callback(xother[i], unrelated, NULL, NULL);
        g_source_attach(xother[i], xctx[i]);
    }
    main_src = g_timeout_source_new(100000);
    g_source_set_callback(main_src, unrelated, NULL, NULL);
    g_source_attach(main_src, NULL);
    sched_run(n, loop ? loop_fns : fns, args, TRUE);
    MC_CHECK(!g_source_is_destroyed(main_src), "unrelated source of the default context is removed");
    g_source_destroy(main_src);
    g_source_unref(main_src);
    for (i = 0; i < np; i++) {
        if (xmode[i] == CTX_OWN) MC_CHECK(!nxpend[i], "item %d outlives its thread", xpend[i][0]);
        if (xmode[i] == CTX_KEPT) g_main_context_unref(xctx[i]);
    }
    iterate();
    for (i = 0; i < np; i++) {
        MC_CHECK(!nxpend[i], "item %d is never released", xpend[i][0]);
        g_source_destroy(xother[i]);
        g_source_unref(xother[i]);
    }
    mc_outcome(h);
}
static void c18_two(void) { c18_threads_(T(2, 3), FALSE); }
static void c18_loop(void) { c18_threads_(T(3, 4), TRUE); }
#endif

/*==========================================================================*
 * C20 Weak references
 *==========================================================================*/

/* Sequential histories */
#define NWR 2
#define NOB 2
static void c20_seq(void)
{
    GUtilWeakRef* wr[NWR] = { NULL };
    int wrefs[NWR] = { 0 }, wtarget[NWR];
    GObject* ob[NOB];
    int orefs[NOB], used[NWR] = { 0 }, i, k;
    gpointer ptr[NOB];
    const int len = T(7, 8);
    for (i = 0; i < NOB; i++) { ob[i] = g_object_new(obj_type, NULL); orefs[i] = 1; ptr[i] = ob[i]; g_object_add_weak_pointer(ob[i], &ptr[i]); }
    MC_EXPECT(!gutil_weakref_get(NULL) && !gutil_weakref_ref(NULL));
    gutil_weakref_unref(NULL);
    gutil_weakref_set(NULL, NULL);
    gutil_weakref_set(NULL, ob[0]);
    for (k = 0; k < len; k++) {
        struct { int op, w, o; } alt[64];
        int n = 0, c;
        u64 h = 1;
        for (i = 0; i < NWR; i++) {
            int o;
            if (!wrefs[i]) {
                if (!used[i] && (!i || used[i - 1])) for (o = -1; o < NOB; o++) if (o < 0 || orefs[o]) { alt[n].op = 0; alt[n].w = i; alt[n++].o = o; }
            } else {
                for (o = -1; o < NOB; o++) if (o < 0 || orefs[o]) { alt[n].op = 1; alt[n].w = i; alt[n++].o = o; }
                if (wrefs[i] < 2) { alt[n].op = 2; alt[n++].w = i; }
                alt[n].op = 3; alt[n++].w = i;
                if (wtarget[i] < 0 || orefs[wtarget[i]] < 2) { alt[n].op = 4; alt[n++].w = i; }
            }
        }
        for (i = 0; i < NOB; i++) if (orefs[i]) { alt[n].op = 5; alt[n++].o = i; }
        if (!n) break;
        c = mc_choose(n, "op");
        mc_step();
        switch (alt[c].op) {
        case 0: case 1: {
            GObject* o = alt[c].o < 0 ? NULL : ob[alt[c].o];
            i = alt[c].w;
            if (!alt[c].op) {
                mc_note("new weakref %d to %d", i, alt[c].o);
                wr[i] = gutil_weakref_new(o);
                MC_EXPECT(wr[i]);
                wrefs[i] = 1;
                used[i] = 1;
            } else {
                mc_note("weakref %d is set to %d", i, alt[c].o);
                gutil_weakref_set(wr[i], o);
            }
            wtarget[i] = alt[c].o;
            break;
        }
        case 2:
            i = alt[c].w;
            mc_note("ref weakref %d", i);
            MC_EXPECT(gutil_weakref_ref(wr[i]) == wr[i]);
            wrefs[i]++;
            break;
        case 3:
            i = alt[c].w;
            mc_note("unref weakref %d", i);
            gutil_weakref_unref(wr[i]);
            if (!--wrefs[i]) MC_CHECK(__asan_address_is_poisoned(wr[i]), "weak reference outlives its last holder");
            else MC_CHECK(!__asan_address_is_poisoned(wr[i]), "weak reference is gone too early");
            break;
        case 4: {
            gpointer o;
            i = alt[c].w;
            mc_note("get weakref %d", i);
            o = gutil_weakref_get(wr[i]);
            MC_CHECK(o == (wtarget[i] < 0 ? NULL : ob[wtarget[i]]), "weakref %d returns %s", i, o ? "a wrong object" : "nothing");
            if (wtarget[i] >= 0) {
                orefs[wtarget[i]]++;
                MC_CHECK(G_OBJECT(o)->ref_count == orefs[wtarget[i]], "wrong number of references");
            }
            break;
        }
        case 5:
            i = alt[c].o;
            mc_note("unref object %d", i);
            orefs[i]--;
            g_object_unref(ob[i]);
            if (!orefs[i]) {
                int j;
                MC_CHECK(!ptr[i], "object is kept alive");
                for (j = 0; j < NWR; j++) if (wtarget[j] == i && wrefs[j]) wtarget[j] = -1;
            }
            break;
        }
        for (i = 0; i < NOB; i++) {
            MC_CHECK(!orefs[i] == !ptr[i], "object %d is %s", i, ptr[i] ? "kept alive" : "gone");
            if (orefs[i]) MC_CHECK(ob[i]->ref_count == orefs[i], "object %d has %u references rather than %d", i, ob[i]->ref_count, orefs[i]);
            h = h * 5 + orefs[i];
        }
        for (i = 0; i < NWR; i++) h = h * 16 + (wrefs[i] ? wrefs[i] * 4 + wtarget[i] + 1 : 0);
        mc_outcome(h);
    }
    for (i = 0; i < NWR; i++) while (wrefs[i]) { gutil_weakref_unref(wr[i]); wrefs[i]--; }
    for (i = 0; i < NOB; i++) while (orefs[i]) { g_object_unref(ob[i]); orefs[i]--; }
}

#ifdef MC_SCHED
/* Two or three threads sharing a weak reference */
static GUtilWeakRef* wshared;
static GObject* wob[2];
static int strong[2];           /* References held by somebody */
static int retargeted[SCHED_MAX], wdead[2];
static int wset[8], nwset;      /* Targets which have been set or are being set */
static guint wprog[SCHED_MAX][4], wnprog[SCHED_MAX];
static int wown[SCHED_MAX];     /* Thread has a reference to object 0 */

static void wob_gone(gpointer data, GObject* was)
{
    const int i = GPOINTER_TO_INT(data);
    MC_CHECK(!strong[i], "object %d dies while there are %d references", i, strong[i]);
    MC_CHECK(!wdead[i]++, "object %d dies twice", i);
    mc_note("    object %d dies", i);
}

enum { W_GET, W_SET1, W_SETNULL, W_SET0, W_REF, W_DROP, W_OPS };
static const char* const w_name[] = { "get", "set other", "set nothing", "set first", "ref and unref", "drop object" };

/* Sets as intervals, to tell which of them may have been the last one */
static struct { int v, start, end; } sets[16];
static int nsets, tick;

static int may_be_target(int k, int since)
{
    int i;
    for (i = 0; i < nsets; i++) if (sets[k].end && sets[i].start > sets[k].end && sets[i].end && sets[i].end < since) return FALSE;
    return TRUE;
}

static void weak_thread(void* arg)
{
    const int me = (int)(long)arg;
    guint i;
    for (i = 0; i < wnprog[me]; i++) {
        mc_step();
        MC_CHECK(!__asan_address_is_poisoned(wshared), "weak reference is gone");
        switch (wprog[me][i]) {
        case W_GET: {
            /* Anything set (or alive) at some point in between is allowed */
            const int was_dead[2] = { wdead[0], wdead[1] }, since = ++tick;
            int allowed[3] = { 0 }, k, might_be_dead;
            gpointer o = gutil_weakref_get(wshared);
            for (k = 0; k < nsets; k++) if (may_be_target(k, since)) allowed[sets[k].v + 1] = 1;
            might_be_dead = (allowed[1] && (wdead[0] || !strong[0])) || (allowed[2] && (wdead[1] || !strong[1]));
            if (o) {
                const int w = o == wob[0] ? 0 : o == wob[1] ? 1 : -1;
                MC_CHECK(w >= 0, "unknown object");
                MC_CHECK(allowed[w + 1], "object %d isn't the target", w);
                MC_CHECK(!was_dead[w] && !wdead[w] && !__asan_address_is_poisoned(o), "dead object %d is returned", w);
                MC_CHECK(((GObject*)o)->ref_count >= strong[w] + 1, "no reference is added to object %d", w);
                strong[w]++;
                mc_note("    thread %d gets %d", me, w);
                sched_point("using the object");
                MC_CHECK(!wdead[w] && !__asan_address_is_poisoned(o), "object %d is dead", w);
                strong[w]--;
                g_object_unref(o);
            } else {
                mc_note("    thread %d gets nothing", me);
                MC_CHECK(allowed[0] || might_be_dead, "live target isn't returned");
            }
            break;
        }
        case W_SET1: case W_SETNULL: case W_SET0: {
            int k;
            const int w = wprog[me][i] == W_SET1 ? 1 : wprog[me][i] == W_SET0 ? 0 : -1;
            if (w == 0 && !wown[me]) break;
            k = nsets++;
            sets[k].v = w;
            sets[k].end = 0;
            sets[k].start = ++tick;
            gutil_weakref_set(wshared, w < 0 ? NULL : wob[w]);
            sets[k].end = ++tick;
            break;
        }
        case W_REF:
            MC_EXPECT(gutil_weakref_ref(wshared) == wshared);
            gutil_weakref_unref(wshared);
            break;
        case W_DROP:
            if (!wown[me]) break;
            wown[me] = 0;
            strong[0]--;
            g_object_unref(wob[0]);
            break;
        }
    }
    /* Every thread has its own reference */
    gutil_weakref_unref(wshared);
    if (wown[me]) { wown[me] = 0; strong[0]--; g_object_unref(wob[0]); }
}

static void c20_threads_(int n, int len)
{
    static const SchedFunc fns[SCHED_MAX] = { weak_thread, weak_thread, weak_thread, weak_thread };
    static void* const args[SCHED_MAX] = { (void*)0, (void*)1, (void*)2, (void*)3 };
    int i, k, keep;
    u64 h = n;
    /* Threads get their operations first, for better sharding */
    for (i = 0; i < n; i++) {
        wnprog[i] = len;
        for (k = 0; k < len; k++) {
            wprog[i][k] = mc_choose(W_OPS, "op");
            mc_note("  thread %d: %s", i, w_name[wprog[i][k]]);
            h = h * 7 + wprog[i][k];
        }
    }
    keep = mc_choose(2, "main thread keeps the object");
    wdead[0] = wdead[1] = 0;
    for (i = 0; i < 2; i++) {
        wob[i] = g_object_new(obj_type, NULL);
        g_object_weak_ref(wob[i], wob_gone, GINT_TO_POINTER(i));
        strong[i] = 1;
    }
    wshared = gutil_weakref_new(wob[0]);
    memset(sets, 0, sizeof(sets));
    nsets = 1; sets[0].end = 1; tick = 1;
    for (i = 0; i < n; i++) {
        wown[i] = 1;
        g_object_ref(wob[0]);
        strong[0]++;
        if (i) gutil_weakref_ref(wshared);
    }
    if (!keep) { strong[0]--; g_object_unref(wob[0]); }
    sched_run(n, fns, args, FALSE);
    MC_CHECK(__asan_address_is_poisoned(wshared), "weak reference outlives its last holder");
    if (keep) {
        MC_CHECK(!wdead[0] && wob[0]->ref_count == 1, "references to the object are lost or leaked");
        strong[0] = 0;
        g_object_unref(wob[0]);
    }
    MC_CHECK(wdead[0], "object is kept alive");
    MC_CHECK(!wdead[1] && wob[1]->ref_count == 1, "references to the object are lost or leaked");
    strong[1] = 0;
    g_object_unref(wob[1]);
    mc_outcome(h);
}
static void c20_two(void) { c20_threads_(2, T(2, 3)); }
static void c20_three(void) { c20_threads_(3, T(1, 2)); }
#endif

/*==========================================================================*
 * C27 Distinct data
 *==========================================================================*/

/* Everything which an operation works on */
typedef struct { guint8 buf[64], out[128]; char text[128]; u64 h; int v; } Ctx;
static __thread gint64 th_clock;
static gint64 th_time(void) { return th_clock; }
static void put(Ctx* c, const void* p, gsize n) { c->h = mc_hash(p, n, c->h); }
static void puti(Ctx* c, gint64 v) { put(c, &v, sizeof(v)); }
static void puts_(Ctx* c, const char* s) { if (s) put(c, s, strlen(s)); else puti(c, -77); }
static void fill(Ctx* c) { int i; for (i = 0; i < 64; i++) c->buf[i] = (guint8)(i * 7 + c->v * 101 + 3); }

static void o_mbn(Ctx* c)
{
    static const gint64 vals[2][3] = { { -1, 1000, G_MININT64 }, { 64, -64, G_MAXINT64 } };
    int i;
    for (i = 0; i < 3; i++) {
        GUtilRange r;
        gint64 s = 0;
        guint64 u = 0;
        guint n = gutil_signed_mbn_encode(c->buf, vals[c->v][i]);
        puti(c, gutil_signed_mbn_size(vals[c->v][i]));
        put(c, c->buf, n);
        r.ptr = c->buf; r.end = c->buf + n;
        puti(c, gutil_signed_mbn_decode(&r, &s)); puti(c, s);
        n = gutil_unsigned_mbn_encode(c->buf, vals[c->v][i]);
        put(c, c->buf, n);
        r.ptr = c->buf; r.end = c->buf + n;
        puti(c, gutil_unsigned_mbn_decode(&r, &u)); puti(c, u);
    }
}

static void o_tlv(Ctx* c)
{
    GUtilData d, in, vals[3];
    static const guint tags[] = { 1, 300, 7, 0 };
    gsize n;
    GUtilRange r;
    fill(c);
    d.bytes = c->buf; d.size = 3 + c->v * 2;
    n = gutil_tlv_encode(c->out, c->v ? 7 : 1, &d);
    n += gutil_tlv_encode(c->out + n, 300, &d);
    put(c, c->out, n);
    in.bytes = c->out; in.size = n;
    puti(c, gutil_tlvs_decode(&in, tags, vals, 0));
    puti(c, vals[0].size); puti(c, vals[1].size); puti(c, vals[2].size);
    put(c, vals[1].bytes, vals[1].size);
    r.ptr = c->out; r.end = c->out + n;
    puti(c, gutil_tlv_decode(&r, &d)); put(c, d.bytes, d.size);
}

static void o_hex(Ctx* c)
{
    char* s;
    GBytes* b;
    gsize n = 5 + c->v;
    fill(c);
    s = gutil_bin2hex(c->buf, n, c->v);
    puts_(c, s);
    puti(c, gutil_hex2bin(s, n * 2, c->out) != NULL);
    put(c, c->out, n);
    b = gutil_hex2bytes(s, 4);
    put(c, g_bytes_get_data(b, NULL), g_bytes_get_size(b));
    g_bytes_unref(b);
    g_free(s);
}

static void o_hexdump(Ctx* c)
{
    fill(c);
    puti(c, gutil_hexdump(c->text, c->buf, c->v ? 20 : 5));
    puts_(c, c->text);
}

static void o_parse(Ctx* c)
{
    int i = 5; guint u = 6; gint64 l = 7; guint64 ul = 8;
    puti(c, gutil_parse_int(c->v ? " -123 " : "77\n", 0, &i)); puti(c, i);
    puti(c, gutil_parse_uint(c->v ? "-5" : "  0xfF", 16, &u)); puti(c, u);
    puti(c, gutil_parse_int64(c->v ? "12x" : "\t-9223372036854775808 ", 10, &l)); puti(c, l);
    puti(c, gutil_parse_uint64(c->v ? " 18446744073709551615 " : "18446744073709551616", 10, &ul)); puti(c, ul);
}

static void o_data(Ctx* c)
{
    GUtilData d, p, *k;
    GVariant* v;
    GUtilRange r;
    fill(c);
    d.bytes = c->buf; d.size = 9 + c->v; p.bytes = c->buf + c->v; p.size = 3;
    puti(c, gutil_data_equal(&d, &p)); puti(c, gutil_data_has_prefix(&d, &p)); puti(c, gutil_data_has_suffix(&d, &p));
    k = gutil_data_copy(&d);
    put(c, k->bytes, k->size);
    g_free(k);
    v = g_variant_ref_sink(gutil_data_copy_as_variant(&d));
    put(c, g_variant_get_data(v), g_variant_get_size(v));
    g_variant_unref(v);
    gutil_data_from_string(&d, c->v ? "abc" : "xyzt");
    put(c, d.bytes, d.size);
    r.ptr = c->buf; r.end = c->buf + 5;
    puti(c, gutil_range_skip_prefix(&r, &p)); puti(c, r.ptr - c->buf);
    { char* m = gutil_memdup(c->buf, 6); put(c, m, 6); g_free(m); }
}

static void o_bytes(Ctx* c)
{
    GBytes *a, *b, *r;
    fill(c);
    a = g_bytes_new(c->buf, 4 + c->v); b = g_bytes_new(c->buf + 8, 6);
    r = gutil_bytes_concat(a, b, NULL);
    put(c, g_bytes_get_data(r, NULL), g_bytes_get_size(r));
    puti(c, gutil_bytes_has_prefix(r, c->buf, 4)); puti(c, gutil_bytes_has_suffix(r, c->buf, 4)); puti(c, gutil_bytes_equal(r, c->buf, 10));
    g_bytes_unref(r);
    r = gutil_bytes_xor(a, b);
    put(c, g_bytes_get_data(r, NULL), g_bytes_get_size(r));
    g_bytes_unref(r); g_bytes_unref(a); g_bytes_unref(b);
}

static void o_strv(Ctx* c)
{
    GStrV* sv = gutil_strv_addv(NULL, c->v ? "one" : "eins", "x", c->v ? "b" : "a", "x", NULL);
    guint i;
    sv = gutil_strv_add(sv, c->v ? " q " : "a\t");
    puti(c, gutil_strv_find(sv, "x")); puti(c, gutil_strv_find_last(sv, "x")); puti(c, gutil_strv_contains(sv, "b"));
    sv = gutil_strv_remove_dups(gutil_strv_strip(sv));
    sv = gutil_strv_sort(sv, c->v);
    puti(c, gutil_strv_bsearch(sv, "x", c->v));
    sv = gutil_strv_remove(sv, c->v ? "q" : "eins", TRUE);
    for (i = 0; i < gutil_strv_length(sv); i++) puts_(c, gutil_strv_at(sv, i));
    g_strfreev(sv);
}

static void o_ring(Ctx* c)
{
    GUtilRing* r = gutil_ring_sized_new(c->v, 3);
    gint i, n = 0;
    gpointer* f;
    for (i = 1; i < 4; i++) puti(c, gutil_ring_put(r, GINT_TO_POINTER(i * 10 + c->v)));
    puti(c, gutil_ring_put_front(r, r));
    puti(c, GPOINTER_TO_INT(gutil_ring_get(r)));
    puti(c, gutil_ring_put(r, GINT_TO_POINTER(99 + c->v)));
    puti(c, GPOINTER_TO_INT(gutil_ring_data_at(r, 1)));
    f = gutil_ring_flatten(r, &n);
    for (i = 0; i < n; i++) puti(c, GPOINTER_TO_INT(f[i]));
    puti(c, gutil_ring_drop(r, 1)); puti(c, GPOINTER_TO_INT(gutil_ring_get_last(r))); puti(c, gutil_ring_size(r));
    gutil_ring_unref(r);
}

static void o_intarray(Ctx* c)
{
    int v[3] = { 5 - c->v, c->v - 9, 7 };
    GUtilIntArray* a = gutil_int_array_new_from_vals(v, 3);
    gutil_int_array_append(a, 7); gutil_int_array_prepend(a, c->v); gutil_int_array_insert(a, 2, 8);
    puti(c, gutil_int_array_find(a, 7));
    if (c->v) gutil_int_array_sort_ascending(a); else gutil_int_array_sort_descending(a);
    gutil_int_array_remove_fast(a, 7); gutil_int_array_remove_range(a, 1, 2);
    put(c, a->data, a->count * sizeof(int));
    gutil_int_array_unref(a);
}

static void o_ints(Ctx* c)
{
    int v[4] = { 5 - c->v, c->v - 9, 7, c->v };
    GUtilInts *a = gutil_ints_new(v, 4), *b = gutil_ints_new_from_ints(a, 1, 2);
    guint n = 0;
    const int* d;
    puti(c, gutil_ints_hash(a)); puti(c, gutil_ints_hash(b)); puti(c, gutil_ints_compare(a, b)); puti(c, gutil_ints_equal(a, b));
    puti(c, gutil_ints_find(b, 7));
    gutil_ints_unref(a);
    d = gutil_ints_get_data(b, &n);
    put(c, d, n * sizeof(int));
    gutil_ints_unref(b);
}

static void o_objv(Ctx* c)
{
    GObject *a = g_object_new(obj_type, NULL), *b = g_object_new(obj_type, NULL), **v, **w;
    v = gutil_objv_new(a, b, NULL);
    v = gutil_objv_insert(v, c->v ? a : b, 1);
    w = gutil_objv_copy(v);
    v = gutil_objv_append(v, w);
    v = gutil_objv_remove(v, a, c->v);
    puti(c, gutil_objv_find(v, b)); puti(c, gutil_objv_find_last(v, a)); puti(c, gutil_objv_equal(v, w)); puti(c, gutil_ptrv_length(v));
    puti(c, a->ref_count); puti(c, b->ref_count);
    gutil_objv_free(v); gutil_objv_free(w);
    puti(c, a->ref_count); puti(c, b->ref_count);
    g_object_unref(a); g_object_unref(b);
}

static void o_history(Ctx* c)
{
    GUtilIntHistory* h = gutil_int_history_new_full(2 + c->v, 20, th_time);
    int i;
    th_clock = 0;
    for (i = 1; i < 5; i++) {
        th_clock += i * 3;
        puti(c, gutil_int_history_add(h, i * i * 100 - c->v));
    }
    puti(c, gutil_int_history_size(h)); puti(c, gutil_int_history_interval(h)); puti(c, gutil_int_history_median(h, 1));
    gutil_int_history_unref(h);
}

static void o_weakref(Ctx* c)
{
    GObject *a = g_object_new(obj_type, NULL), *b;
    GUtilWeakRef* w = gutil_weakref_new(a);
    b = gutil_weakref_get(w);
    puti(c, a == b);
    g_object_unref(b);
    gutil_weakref_set(w, c->v ? NULL : a);
    g_object_unref(a);
    puti(c, gutil_weakref_get(w) != NULL);
    gutil_weakref_unref(w);
}

static const struct { const char* name; void (*fn)(Ctx*); } ops[] = {
    { "mbn", o_mbn }, { "tlv", o_tlv }, { "hex", o_hex }, { "hexdump", o_hexdump }, { "parse", o_parse }, { "data", o_data },
    { "bytes", o_bytes }, { "strv", o_strv }, { "ring", o_ring }, { "int array", o_intarray }, { "ints", o_ints },
    { "objv", o_objv }, { "history", o_history }, { "weakref", o_weakref }
};
#define NOPS ((int)G_N_ELEMENTS(ops))
static u64 expected[NOPS * 2];

static u64 run_op(Ctx* c, int i, int v)
{
    memset(c, 0, sizeof(*c));
    c->h = i * 2 + v;
    c->v = v;
    ops[i].fn(c);
    return c->h;
}

/* Each result comes from a process which has done nothing else */
static void setup27(void)
{
    int i;
    setup();
    for (i = 0; i < NOPS * 2; i++) {
        int fd[2];
        pid_t pid;
        if (pipe(fd)) abort();
        if (!(pid = fork())) {
            Ctx c;
            u64 h;
            memset(&c, 0, sizeof(c));
            h = run_op(&c, i / 2, i % 2);
            if (write(fd[1], &h, sizeof(h)) != sizeof(h)) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        if (read(fd[0], expected + i, sizeof(u64)) != sizeof(u64)) expected[i] = 0;
        close(fd[0]);
        waitpid(pid, NULL, 0);
    }
}

static void verdict(u64 h, int i, int v, const char* what)
{
    MC_CHECK(h == expected[i * 2 + v], "different result of %s/%d %s", ops[i].name, v, what);
}

/* Results don't depend on what was done before */
static u64 order_count(void) { return (u64)NOPS * 2 * NOPS * 2 * T(1, NOPS * 2); }
static void order_run(u64 n)
{
    static Ctx c;
    const int a = n % (NOPS * 2), b = n / (NOPS * 2) % (NOPS * 2), d = T(a, n / (NOPS * 2) / (NOPS * 2));
    const int seq[4] = { a, b, d, a };
    int i;
    for (i = 0; i < 4; i++) {
        verdict(run_op(&c, seq[i] / 2, seq[i] % 2), seq[i] / 2, seq[i] % 2, "depending on previous calls");
        mc_step();
    }
    mc_outcome(n);
}

#ifdef MC_SCHED
static struct { Ctx c; int op, v; u64 h; } job[SCHED_MAX];
static void job_thread(void* arg)
{
    const int k = (int)(long)arg;
    job[k].h = run_op(&job[k].c, job[k].op, job[k].v);
}

static void c27_run(int n, const int* sel)
{
    static const SchedFunc fns[SCHED_MAX] = { job_thread, job_thread, job_thread, job_thread };
    static void* const args[SCHED_MAX] = { (void*)0, (void*)1, (void*)2, (void*)3 };
    int i;
    u64 h = 0;
    for (i = 0; i < n; i++) {
        memset(job + i, 0, sizeof(job[i]));
        job[i].op = sel[i] / 2;
        job[i].v = sel[i] % 2;
        mc_note("thread %d: %s/%d", i, ops[job[i].op].name, job[i].v);
        h = h * 100 + sel[i];
    }
    sched_run(n, fns, args, FALSE);
    for (i = 0; i < n; i++) verdict(job[i].h, job[i].op, job[i].v, "when another thread is running");
    mc_outcome(h);
}

/* Each unordered pair of operations, the same ones with different data */
static void c27_pairs(void)
{
    const int c = mc_choose(NOPS * NOPS, "pair");
    int sel[2] = { c % NOPS * 2, c / NOPS * 2 + 1 };
    if (mc_tier == MC_QUICK && c % NOPS > c / NOPS) return;
    c27_run(2, sel);
}

/* Same operation in 3 threads */
static void c27_three(void)
{
    const int c = mc_choose(NOPS * 2, "op");
    int sel[3] = { c, c ^ 1, c };
    c27_run(3, sel);
}
#endif

const McSuite mc_suites[] = {
#ifdef MC_SCHED
    { "C18.threads", MC_DFS, "2 threads (with a context of their own, with one which outlives the thread, without any) using their default pools and exiting, all programs of 2 (3) operations, 1 preemption", .body = c18_two, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = setup, .only = 3 },
    { "C18.main_loop", MC_DFS, "A thread using its default pool and exiting while another one is running the default main loop, all programs of 3 (4) operations, up to 2 preemptions", .body = c18_loop, .dev_quick = 2, .dev_thorough = 2, .split = 8, .setup = setup, .only = 3 },
    { "C19.two", MC_DFS, "Every kind of a shared object, 2 threads (and the main one) each running every program of up to 3 (4) operations, up to 2 (3) preemptions", .body = c19_two, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup, .only = 3 },
    { "C19.three", MC_DFS, "Every kind of a shared object, 3 threads each running every program of 1 (up to 3) operations, up to 2 (3) preemptions", .body = c19_three, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup, .only = 3 },
    { "C19.pool_owner", MC_DFS, "A pool which is being used by its owner while 1 or 2 other threads take and drop references, up to 2 (3) preemptions", .body = c19_pool_owner, .dev_quick = 2, .dev_thorough = 3, .split = 6, .setup = setup, .only = 3 },
    { "C20.threads", MC_DFS, "2 threads sharing a weak reference, all programs of 2 (3) operations, up to 2 (3) preemptions", .body = c20_two, .dev_quick = 2, .dev_thorough = 3, .split = 6, .setup = setup, .only = 3 },
    { "C20.three", MC_DFS, "3 threads sharing a weak reference, all programs of 1 (2) operations, up to 3 preemptions", .body = c20_three, .dev_quick = 3, .dev_thorough = 3, .split = 6, .setup = setup, .only = 3 },
    { "C27.pairs", MC_DFS, "All pairs of 14 families of calls on distinct data in 2 threads, up to 2 (3) preemptions", .body = c27_pairs, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup27, .only = 3 },
    { "C27.three", MC_DFS, "Same calls on distinct data in 3 threads, up to 1 (2) preemptions", .body = c27_three, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup27, .only = 3 },
#else
    { "C20.sequential", MC_DFS, "2 objects and 2 weak references, all sequences of up to 7 (8) operations", .body = c20_seq, .split = 8, .setup = setup, .dev_quick = -1, .dev_thorough = -1 },
    { "C27.order", MC_FAMILY, "All sequences of 3 (4) calls, against results of separate processes", order_count, order_run, .setup = setup27 },
#endif
    { NULL }
};
