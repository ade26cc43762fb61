/* Idle pool: C17, C18 (a single thread with several contexts) */
#include "mc.h"
#include "gutil_idlepool.h"
#include <glib-object.h>

static int T(int q, int t) { return mc_tier == MC_QUICK ? q : t; }

#define MAXI 24
#define MAXP 6
typedef struct { int pool, gone; } Item;
static Item it[MAXI];
static int nit;

/* Generations of pools. A shared one may come and go */
typedef struct { GUtilIdlePool* p; int refs, pend[MAXI], npend, dead, self, releasing; } Pool;
static Pool pool[MAXP];
static int np;              /* The current one is np - 1 */
static GUtilIdlePool* shared;
static int mode;            /* 0 private 1 shared 2 default */
static int draining, in_iter, ending, depth;
static u64 hash;
static void ev(int a, int b) { int v[2] = { a, b }; hash = mc_hash(v, sizeof(v), hash); mc_step(); }

enum { NONE, ADD, DRAIN, UNREF, DESTROY, REF, GET, NNEST, ITER = NNEST, NACT };
static const char* const names[] = { "nothing", "add", "drain", "unref", "destroy", "ref", "get", "iterate" };
static void act(int a);

static void check_shared(void)
{
    const Pool* p = pool + np - 1;
    if (mode != 1 || !np) return;
    if (shared) MC_CHECK(shared == p->p && !p->dead, "shared pointer is wrong");
    else MC_CHECK(!p->refs && !p->self, "shared pointer was cleared too early");
    if (!depth && !in_iter && !draining && !ending && !p->refs && !p->self && !p->npend) MC_CHECK(!shared, "shared pointer isn't cleared");
}

static int cur_releasing = -1;
static void on_release(gpointer ptr)
{
    const int i = GPOINTER_TO_INT(ptr) - 1;
    Pool* p = pool + it[i].pool;
    int a, saved = cur_releasing;
    MC_CHECK(!it[i].gone, "item %d is released again", i);
    MC_CHECK(draining || in_iter || ending, "item %d is released too early", i);
    MC_CHECK(p->npend && p->pend[0] == i, "item %d is released out of order", i);
    memmove(p->pend, p->pend + 1, sizeof(p->pend[0]) * --p->npend);
    it[i].gone = 1;
    ev(1, i);
    mc_note("%*sreleasing %d", depth * 2, "", i);
    if (depth > 3 || nit >= MAXI - 2 || ending > 1) return;
    cur_releasing = it[i].pool;
    p->releasing++;
    if (it[i].pool == np - 1 && !p->dead) {
        const int n = mode == 1 ? NNEST : mode == 0 ? REF + 1 : DRAIN + 1;
        a = mc_choose_dev(n + 1, "release");
        if (a == n) a = ITER;
        if (a) {
            depth++;
            mc_note("%*s%s", depth * 2, "", names[a]);
            act(a);
            depth--;
        }
    }
    p->releasing--;
    cur_releasing = saved;
    check_shared();
}

/* No items may be left there, other than those being released right now */
static void drained(Pool* p, const char* what)
{
    MC_CHECK(!p->npend, "item %d is still there after %s", p->pend[0], what);
}

static void over(Pool* p)
{
    if (!p->refs && !p->npend && !p->self && !p->releasing) p->dead = 1;
}

static void act(int a)
{
    Pool* p = pool + np - 1;
    GUtilIdlePool* ptr = mode == 2 ? NULL : np ? p->p : NULL;
    if (mode != 2 && np && !p->releasing && !p->refs && a != GET && a != ITER) {
        /* Shared pool is there until the loop is idle */
        if (!(mode == 1 && shared)) return;
    }
    if (mode == 1 && (!np || p->dead) && a != GET && a != ITER) return;
    ev(2, a);
    switch (a) {
    case ADD:
        it[nit].pool = np - 1;
        it[nit].gone = 0;
        p->pend[p->npend++] = nit++;
        {
            const int d0 = draining, i0 = in_iter;
            draining = in_iter = 0;
            MC_EXPECT(gutil_idle_pool_add(ptr, GINT_TO_POINTER(nit), on_release) == GINT_TO_POINTER(nit));
            draining = d0; in_iter = i0;
        }
        break;
    case DRAIN:
        draining++;
        p->self = 0;        /* Initial reference of the shared pool goes away, too */
        gutil_idle_pool_drain(ptr);
        draining--;
        drained(p, "drain");
        if (!depth) over(p);
        break;
    case UNREF:
        if (!p->refs) return;
        /* Whatever is left stays there until idle, or gets released right away */
        if (!--p->refs) ending++; else draining += 0;
        {
            const int e = !p->refs;
            gutil_idle_pool_unref(ptr);
            if (e) ending--;
        }
        if (!depth) over(p);
        break;
    case DESTROY:
        if (!p->refs) return;
        draining++;
        p->self = 0;
        p->refs--;
        gutil_idle_pool_destroy(ptr);
        draining--;
        drained(p, "destroy");
        if (!depth) over(p);
        break;
    case REF:
        p->refs++;
        MC_EXPECT(gutil_idle_pool_ref(ptr) == ptr);
        break;
    case GET: {
        GUtilIdlePool* was = shared;
        GUtilIdlePool* x = gutil_idle_pool_get(&shared);
        MC_CHECK(x != NULL && x == shared, "wrong shared pointer");
        if (was) MC_CHECK(x == was, "shared pool isn't shared");
        else {
            if (np) { MC_CHECK(!p->refs, "shared pool has disappeared"); p->dead = 1; }
            if (np >= MAXP) return;
            p = pool + np++;
            memset(p, 0, sizeof(*p));
            p->p = x;
            p->self = 1;
        }
        break;
    }
    case ITER:
        in_iter++;
        if (np) p->self = 0;
        g_main_context_iteration(NULL, FALSE);
        in_iter--;
        if (np && !depth) { drained(p, "an iteration"); over(p); }
        if (mode == 1 && np && !depth) { int k; for (k = 0; k < np; k++) if (!pool[k].dead && k < np - 1) drained(pool + k, "an iteration"); }
        break;
    }
    check_shared();
    if (!depth) {
        int k, busy = 0;
        for (k = 0; k < np; k++) if (pool[k].npend || pool[k].self) busy = 1;
        MC_CHECK(!g_main_context_pending(NULL) == !busy, busy ? "nothing is going to happen" : "a source was left behind");
    }
}

static void program(int len)
{
    static const int t0[] = { NONE, ITER, ADD, DRAIN, UNREF, DESTROY, REF };
    static const int t1[] = { NONE, ITER, GET, ADD, DRAIN, REF, UNREF, DESTROY };
    static const int t2[] = { NONE, ITER, ADD, DRAIN };
    int k, n;
    nit = np = draining = in_iter = ending = depth = 0;
    hash = 1;
    shared = NULL;
    if (mode == 0) {
        np = 1;
        memset(pool, 0, sizeof(pool[0]));
        pool[0].p = gutil_idle_pool_new();
        pool[0].refs = 1;
    } else if (mode == 2) {
        np = 1;
        memset(pool, 0, sizeof(pool[0]));
        pool[0].p = gutil_idle_pool_get_default();
        MC_EXPECT(gutil_idle_pool_get_default() == pool[0].p);
        pool[0].refs = 1;
    }
    for (k = 0; k < len; k++) {
        int a = mode == 0 ? t0[mc_choose(G_N_ELEMENTS(t0), "top")] : mode == 1 ? t1[mc_choose(G_N_ELEMENTS(t1), "top")] :
            t2[mc_choose(G_N_ELEMENTS(t2), "top")];
        if (a == NONE) break;
        mc_note("%s", names[a]);
        act(a);
        if (mode == 0 && pool[0].dead) break;
    }
    ending = 2;
    if (mode == 2) {
        if (mc_choose(2, "end")) gutil_idle_pool_drain(NULL); else g_main_context_iteration(NULL, FALSE);
    } else {
        /* Release what's still referenced, the rest goes away by itself */
        const int destroy = mc_choose(3, "end");
        Pool* p = pool + np - 1;
        if (np) while (p->refs) {
            p->refs--;
            if (destroy) { p->self = 0; gutil_idle_pool_destroy(p->p); } else gutil_idle_pool_unref(p->p);
            if (destroy) drained(p, "destroy");
        }
        if (destroy == 2 && np && p->npend) mc_note("releasing while iterating");
        for (n = 0; g_main_context_pending(NULL); n++) {
            MC_CHECK(n < 3, "main loop doesn't become idle");
            g_main_context_iteration(NULL, FALSE);
        }
    }
    for (k = 0; k < nit; k++) MC_CHECK(it[k].gone, "item %d wasn't released", k);
    MC_CHECK(!shared, "shared pointer isn't cleared");
    MC_CHECK(!g_main_context_pending(NULL), "a source was left behind");
    mc_outcome(hash);
}

static void private_body(void) { mode = 0; program(T(5, 7)); }
static void private_deep(void) { mode = 0; program(T(3, 4)); }
static void shared_body(void) { mode = 1; program(T(5, 7)); }
static void shared_deep(void) { mode = 1; program(T(4, 5)); }
static void default_body(void) { mode = 2; program(T(6, 9)); }

static void setup(void)
{
    while (g_main_context_iteration(NULL, FALSE));
    gutil_idle_pool_get_default();
}

/*==========================================================================*
 * Typed items: one or no reference is added
 *==========================================================================*/

static int fin;
static void on_fin(gpointer p) { fin++; }
static u64 typed_count(void) { return 9 * 2 * 3 * 2 * 2; }
static void typed_run(u64 i)
{
    const int kind = i % 9, useq = (int)(i / 9) % 2, how = (int)(i / 18) % 3, held = (int)(i / 54) % 2;
    const int floating = (int)(i / 108);
    GUtilIdlePool* p = useq ? gutil_idle_pool_new() : NULL;
    GObject* o = NULL;
    GVariant* v = NULL;
    GPtrArray* a = NULL;
    GBytes* b = NULL;
    char** s = NULL;
    fin = 0;
    /* kinds 0..4 take the reference, 5..8 add one */
    switch (kind) {
    case 0: case 5:
        o = g_object_new(floating ? G_TYPE_INITIALLY_UNOWNED : G_TYPE_OBJECT, NULL);
        g_object_set_data_full(o, "x", o, on_fin);
        if (held && kind == 0) g_object_ref(o);
        MC_EXPECT((kind ? gutil_idle_pool_add_object_ref(p, o) : gutil_idle_pool_add_object(p, o)) == o);
        MC_CHECK(o->ref_count == (kind ? 2 : 1 + held), "%d references", o->ref_count);
        if (kind && !held) g_object_unref(o);
        break;
    case 1: case 6:
        b = g_bytes_new_with_free_func("x", 1, on_fin, NULL);
        v = g_variant_new_from_bytes(G_VARIANT_TYPE_BYTE, b, TRUE);
        if (!floating) g_variant_ref_sink(v);
        g_bytes_unref(b);
        b = NULL;
        if (held && kind == 1) g_variant_ref(v);
        MC_EXPECT((kind == 6 ? gutil_idle_pool_add_variant_ref(p, v) : gutil_idle_pool_add_variant(p, v)) == v);
        if (kind == 6 && !held) g_variant_unref(v);
        break;
    case 2: case 7:
        a = g_ptr_array_new_with_free_func(on_fin);
        g_ptr_array_add(a, a);
        if (held && kind == 2) g_ptr_array_ref(a);
        MC_EXPECT((kind == 7 ? gutil_idle_pool_add_ptr_array_ref(p, a) : gutil_idle_pool_add_ptr_array(p, a)) == a);
        if (kind == 7 && !held) g_ptr_array_unref(a);
        break;
    case 3: case 8:
        b = g_bytes_new_with_free_func("x", 1, on_fin, NULL);
        if (held && kind == 3) g_bytes_ref(b);
        MC_EXPECT((kind == 8 ? gutil_idle_pool_add_bytes_ref(p, b) : gutil_idle_pool_add_bytes(p, b)) == b);
        if (kind == 8 && !held) g_bytes_unref(b);
        break;
    default:
        s = g_strsplit("a,b", ",", 0);
        MC_EXPECT(gutil_idle_pool_add_strv(p, s) == s);
        fin = 1;
        break;
    }
    if (kind != 4) MC_EXPECT(fin == 0);
    /* Absent ones */
    MC_EXPECT(!gutil_idle_pool_add_object(p, NULL) && !gutil_idle_pool_add_object_ref(p, NULL));
    MC_EXPECT(!gutil_idle_pool_add_variant(p, NULL) && !gutil_idle_pool_add_variant_ref(p, NULL));
    MC_EXPECT(!gutil_idle_pool_add_ptr_array(p, NULL) && !gutil_idle_pool_add_ptr_array_ref(p, NULL));
    MC_EXPECT(!gutil_idle_pool_add_bytes(p, NULL) && !gutil_idle_pool_add_bytes_ref(p, NULL));
    MC_EXPECT(!gutil_idle_pool_add_strv(p, NULL));
    MC_EXPECT(gutil_idle_pool_add(p, &fin, NULL) == &fin);
    MC_EXPECT(!gutil_idle_pool_ref(NULL));
    gutil_idle_pool_unref(NULL);
    gutil_idle_pool_destroy(NULL);
    if (kind != 4) MC_EXPECT(fin == 0);
    if (how == 0) g_main_context_iteration(NULL, FALSE);
    else if (how == 1) gutil_idle_pool_drain(p);
    else if (p) { gutil_idle_pool_destroy(p); p = NULL; }
    else gutil_idle_pool_drain(NULL);
    gutil_idle_pool_unref(p);
    MC_CHECK(fin == (kind == 4 ? 1 : !held), "released %d times", fin);
    if (held) {
        /* Floating objects and variants haven't been claimed by anyone yet */
        if (o) {
            MC_EXPECT(o->ref_count == 1);
            if (floating && kind == 5) g_object_ref_sink(o);
            MC_CHECK(o->ref_count == 1, "the floating reference has been claimed");
            g_object_unref(o);
        }
        if (v) {
            if (floating && kind == 6) g_variant_ref_sink(v);
            g_variant_unref(v);
        }
        if (a) g_ptr_array_unref(a);
        if (b) g_bytes_unref(b);
        MC_CHECK(fin == 1, "released %d times", fin);
    }
    MC_EXPECT(!g_main_context_pending(NULL));
    mc_outcome(i + 1);
}

/*==========================================================================*
 * C18: contexts
 *==========================================================================*/

#define NCTX 3
static GMainContext* ctx[NCTX];         /* 0 is the default one */
static GSource* other[NCTX][2];
static int other_gone[NCTX][2];
static int stack[8], nstack, where, crefs, cpend[MAXI], ncpend, cgone[MAXI], ncit, may_release;
static GUtilIdlePool* cpool;

static gboolean never(gpointer p) { return TRUE; }
static void other_done(gpointer p) { other_gone[GPOINTER_TO_INT(p) / 2][GPOINTER_TO_INT(p) % 2]++; }

static void c_release(gpointer ptr)
{
    const int i = GPOINTER_TO_INT(ptr) - 1;
    MC_CHECK(may_release, "item %d is released too early", i);
    MC_CHECK(ncpend && cpend[0] == i, "item %d is released out of order", i);
    memmove(cpend, cpend + 1, sizeof(cpend[0]) * --ncpend);
    cgone[i]++;
    mc_note("  releasing %d", i);
    ev(4, i);
    if (may_release == 1 && ncit < MAXI - 2) {
        const int a = mc_choose_dev(2 + NCTX, "release");
        if (a == 1) {
            mc_note("    add");
            cpend[ncpend++] = ncit++;
            gutil_idle_pool_add(cpool, GINT_TO_POINTER(ncit), c_release);
        } else if (a > 1 && ctx[a - 2]) {
            mc_note("    iterate %d", a - 2);
            g_main_context_iteration(a > 2 ? ctx[a - 2] : NULL, FALSE);
        }
    }
}

static void ctx_new(int k)
{
    int j;
    ctx[k] = k ? g_main_context_new() : g_main_context_default();
    for (j = 0; j < 2; j++) {
        other_gone[k][j] = 0;
        other[k][j] = g_timeout_source_new_seconds(1000000);
        g_source_set_callback(other[k][j], never, GINT_TO_POINTER(k * 2 + j), other_done);
        g_source_attach(other[k][j], k ? ctx[k] : NULL);
    }
}

static void ctx_free(int k)
{
    g_main_context_unref(ctx[k]);
    ctx[k] = NULL;
    other_gone[k][0] = other_gone[k][1] = 0;
    g_source_unref(other[k][0]);
    g_source_unref(other[k][1]);
}

static void c_check(void)
{
    int k, j;
    for (k = 0; k < NCTX; k++) if (ctx[k]) {
        for (j = 0; j < 2; j++) {
            MC_CHECK(!g_source_is_destroyed(other[k][j]) && !other_gone[k][j], "unrelated source of context %d was removed", k);
        }
        if (k == where) MC_CHECK(g_main_context_pending(k ? ctx[k] : NULL), "nothing is going to happen");
        else MC_CHECK(!g_main_context_pending(k ? ctx[k] : NULL), "something was left in context %d", k);
    }
}

static GUtilIdlePool* c_shared;
static int c_self;      /* The shared pool is still holding itself */

static void ctx_program(int def, int shared, int len)
{
    enum { CADD, CDRAIN, CITER0, CITER1, CITER2, CPUSH1, CPUSH2, CPOP, CFREE1, CFREE2, CREF, CUNREF, NCOP };
    static const char* const cn[] = { "add", "drain", "iterate 0", "iterate 1", "iterate 2", "push 1", "push 2", "pop", "free 1", "free 2", "ref", "unref" };
    int k, n, owner;
    for (k = 1; k < NCTX; k++) ctx_new(k);
    ncit = ncpend = nstack = depth = 0;
    may_release = 0;
    memset(cgone, 0, sizeof(cgone));
    where = -1;
    c_self = 0;
    c_shared = NULL;
    hash = 1;
    cpool = def ? NULL : gutil_idle_pool_new();
    crefs = 1;
    if (shared) { gutil_idle_pool_unref(cpool); cpool = NULL; crefs = 0; }
    owner = mc_choose_dev(2, "owner");
    /* As if it was running in a callback of the default main loop */
    if (owner) { mc_note("own the default context"); MC_CHECK(g_main_context_acquire(NULL), "default context is busy"); }
    for (k = 0; k < len; k++) {
        const int a = mc_choose(NCOP + 1, "top") - 1;
        if (a < 0) break;
        mc_note("%s", cn[a]);
        ev(3, a);
        if (shared && !cpool && a == CADD) {
            /* Holds itself until drained */
            cpool = gutil_idle_pool_get(&c_shared);
            MC_CHECK(cpool && cpool == c_shared, "no shared pool");
            c_self = 1;
            where = nstack ? stack[nstack - 1] : 0;
        }
        if (shared && !cpool && (a == CDRAIN || a == CREF || a == CUNREF)) continue;
        switch (a) {
        case CADD:
            if (!crefs && !c_self) break;
            cpend[ncpend++] = ncit++;
            MC_EXPECT(gutil_idle_pool_add(cpool, GINT_TO_POINTER(ncit), c_release) == GINT_TO_POINTER(ncit));
            if (where < 0) where = nstack ? stack[nstack - 1] : 0;
            break;
        case CDRAIN:
            if (!crefs && !c_self) break;
            may_release = 1;
            gutil_idle_pool_drain(cpool);
            may_release = c_self = 0;
            where = -1;
            MC_CHECK(!ncpend, "item %d wasn't drained", cpend[0]);
            break;
        case CITER0: case CITER1: case CITER2:
            n = a - CITER0;
            if (!ctx[n]) break;
            may_release = n == where;
            g_main_context_iteration(n ? ctx[n] : NULL, FALSE);
            may_release = 0;
            if (n == where) {
                where = -1;
                c_self = 0;
                MC_CHECK(!ncpend, "item %d wasn't released", cpend[0]);
            }
            break;
        case CPUSH1: case CPUSH2:
            n = a - CPUSH1 + 1;
            if (!ctx[n] || nstack == 4) break;
            g_main_context_push_thread_default(ctx[n]);
            stack[nstack++] = n;
            break;
        case CPOP:
            if (!nstack) break;
            g_main_context_pop_thread_default(ctx[stack[--nstack]]);
            break;
        case CFREE1: case CFREE2: {
            int j, used = 0;
            n = a - CFREE1 + 1;
            for (j = 0; j < nstack; j++) if (stack[j] == n) used = 1;
            if (!ctx[n] || used) break;
            may_release = n == where && !crefs && !c_self ? 2 : 0;
            ctx_free(n);
            may_release = 0;
            if (n == where) { where = -1; if (!crefs && !c_self) MC_CHECK(!ncpend, "item %d wasn't released", cpend[0]); }
            break;
        }
        case CREF: if (!def && (crefs || c_self)) { crefs++; gutil_idle_pool_ref(cpool); } break;
        case CUNREF:
            if (!def && crefs) {
                const int last = !--crefs && !c_self;
                may_release = last ? 2 : 0;
                gutil_idle_pool_unref(cpool);
                may_release = 0;
                if (last && !ncpend) where = -1;
                if (last && where < 0) MC_CHECK(!ncpend, "item %d wasn't released", cpend[0]);
            }
            break;
        }
        c_check();
        if (shared && cpool) {
            /* If it's done, then it's waiting to be noticed by the pending source at most */
            if (crefs || c_self || (where >= 0 && ncpend)) MC_CHECK(crefs || c_self ? c_shared == cpool : !c_shared || c_shared == cpool, "shared pool is forgotten");
            else {
                MC_CHECK(!c_shared, "shared pool is still there");
                cpool = NULL;
            }
        }
    }
    while (nstack) g_main_context_pop_thread_default(ctx[stack[--nstack]]);
    if (owner) g_main_context_release(NULL);
    may_release = 2;
    if (def) gutil_idle_pool_drain(NULL);
    else {
        if (c_self) { gutil_idle_pool_ref(cpool); gutil_idle_pool_drain(cpool); gutil_idle_pool_unref(cpool); c_self = 0; where = -1; }
        while (crefs) { crefs--; gutil_idle_pool_destroy(cpool); }
    }
    if (where >= 0 && ncpend) g_main_context_iteration(where ? ctx[where] : NULL, FALSE);
    where = -1;
    c_check();
    MC_CHECK(!c_shared, "shared pool is still there");
    MC_CHECK(!ncpend, "item %d wasn't released", cpend[0]);
    for (k = 0; k < ncit; k++) MC_CHECK(cgone[k] == 1, "item %d was released %d times", k, cgone[k]);
    for (k = 1; k < NCTX; k++) if (ctx[k]) ctx_free(k);
    mc_outcome(hash);
}
static void ctx_short_body(void) { ctx_program(0, mc_choose(2, "shared"), 5); }
static void ctx_body(void) { ctx_program(0, 0, T(5, 6)); }
static void ctx_shared_body(void) { ctx_program(0, 1, T(5, 6)); }
static void ctx_def_body(void) { ctx_program(1, 0, T(5, 6)); }

static void ctx_setup(void)
{
    int k;
    GSource* x;
    setup();
    ctx_new(0);
    /* Occupy small source ids in the default context */
    for (k = 0; k < 16; k++) {
        x = g_timeout_source_new_seconds(1000000);
        g_source_attach(x, NULL);
    }
}

/* Long pools */
static const int long_n[] = { 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
static int long_next, long_add, long_total;
static GUtilIdlePool* long_pool;
static void long_gone(gpointer p)
{
    MC_CHECK(GPOINTER_TO_INT(p) == long_next + 1, "item %d is released, expected %d", GPOINTER_TO_INT(p) - 1, long_next);
    long_next++;
    if (long_add && (long_next & 1)) {
        /* Every other one adds one at the end */
        long_add--;
        gutil_idle_pool_add(long_pool, GINT_TO_POINTER(++long_total), long_gone);
    }
}
static u64 long_count(void) { return NLONG * 6 * 2; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], how = x / NLONG % 6, add = x / NLONG / 6;
    GUtilIdlePool* shared = NULL;
    int i;
    /* Adding an item may take linear time, the longest ones are mostly left to the thorough checks */
    if (mc_tier == MC_QUICK && n > 5000 && (n != 65537 || how > 1)) return;
    mc_note("%d items, released in way %d, %s added meanwhile", n, how, add ? "some" : "none");
    long_pool = how == 4 ? gutil_idle_pool_get(&shared) : how == 5 ? gutil_idle_pool_get_default() : gutil_idle_pool_new();
    long_next = long_add = long_total = 0;
    for (i = 0; i < n; i++) MC_EXPECT(gutil_idle_pool_add(long_pool, GINT_TO_POINTER(++long_total), long_gone) == GINT_TO_POINTER(i + 1));
    MC_EXPECT(!long_next);
    /* The pool has got to stay alive for the new items */
    long_add = add && how != 2 && how != 3 ? n / 2 : 0;
    switch (how) {
    case 0: gutil_idle_pool_drain(long_pool); break;
    case 1: case 4: case 5: while (g_main_context_iteration(NULL, FALSE)); break;
    case 2: gutil_idle_pool_unref(long_pool); while (g_main_context_iteration(NULL, FALSE)); break;
    case 3: gutil_idle_pool_destroy(long_pool); break;
    }
    MC_CHECK(long_next == long_total && !long_add, "%d released of %d", long_next, long_total);
    if (how == 4) MC_CHECK(!shared, "the shared pool is still there");
    if (how < 2) gutil_idle_pool_unref(long_pool);
    while (g_main_context_iteration(NULL, FALSE));
    MC_CHECK(long_next == long_total, "%d released of %d in the end", long_next, long_total);
    mc_steps(n);
    mc_outcome(x);
}

const McSuite mc_suites[] = {
    { "C17.private", MC_DFS, "A pool: all sequences of up to 5 (7) operations with up to 2 (3) actions of release functions", .body = private_body, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup },
    { "C17.nested", MC_DFS, "A pool: all sequences of up to 3 (4) operations with up to 4 (5) actions of release functions", .body = private_deep, .dev_quick = 4, .dev_thorough = 5, .split = 8, .setup = setup },
    { "C17.shared", MC_DFS, "A shared pool: all sequences of up to 5 (7) operations with up to 2 (3) actions", .body = shared_body, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup },
    { "C17.shared_nested", MC_DFS, "A shared pool: all sequences of up to 4 (5) operations with up to 3 (4) actions", .body = shared_deep, .dev_quick = 3, .dev_thorough = 4, .split = 8, .setup = setup },
    { "C17.default", MC_DFS, "The default pool: all sequences of up to 6 (9) operations with up to 3 (4) actions", .body = default_body, .dev_quick = 3, .dev_thorough = 4, .split = 4, .setup = setup },
    { "C17.typed", MC_FAMILY, "All kinds of items, with and without a reference, released in all ways", typed_count, typed_run, .setup = setup },
    { "C17.long", MC_FAMILY, "16 (quick: 10, two ways for the last one) pool sizes 100..70000, 6 ways to release, items added by release functions", long_count, long_run, .setup = setup, .slow_s = 120 },
    { "C17.contexts", MC_DFS, "A private or shared pool under 3 main contexts: all sequences of up to 5 operations (thorough: with one item added or one context iterated while releasing, or the default context owned by the caller)", .body = ctx_short_body, .dev_quick = 0, .dev_thorough = 1, .split = 8, .setup = ctx_setup },
    { "C18.contexts", MC_DFS, "A pool used under 3 main contexts with unrelated sources: all sequences of up to 5 (6) operations, one item added or one context iterated while releasing, or the default context owned by the caller", .body = ctx_body, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = ctx_setup },
    { "C18.shared_contexts", MC_DFS, "Same with a shared pool", .body = ctx_shared_body, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = ctx_setup },
    { "C18.default_contexts", MC_DFS, "Same with the default pool of the thread", .body = ctx_def_body, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = ctx_setup },
    { NULL }
};
