/* Idle queue: C15, C16 */
#include "mc.h"
#include "gutil_idlequeue.h"

#define MAXI 24
typedef struct { int used, tag, run, destroy, batch, doom, ran, gone; } Item;
static Item it[MAXI];
static int nit;
static int pend[MAXI], npend;       /* Pending, in order */
static GUtilIdleQueue* q;
static int refs, in_iter, in_add, held, free_level, doom_depth, await_gone, cancel_target, depth, ran_now, allow_refs;
static u64 trace_hash;

/* Tags which differ in their upper or lower halves only */
static GUtilIdleQueueTag T_(int t)
{
    static const GUtilIdleQueueTag tags[] = { 0, (GUtilIdleQueueTag)0x100000001ULL, 1, (GUtilIdleQueueTag)0x100000000ULL };
    return tags[t];
}

static void ev(int what, int x) { int v[2] = { what, x }; trace_hash = mc_hash(v, sizeof(v), trace_hash); }

static void pend_remove(int i)
{
    int k;
    for (k = 0; k < npend && pend[k] != i; k++);
    MC_CHECK(k < npend, "item %d isn't pending", i);
    memmove(pend + k, pend + k + 1, sizeof(pend[0]) * (--npend - k));
}

static void observe(void)
{
    int t, k;
    if (!refs) return;
    for (t = 0; t <= 3; t++) {
        int live = 0, doomed = 0;
        const gboolean c = gutil_idle_queue_contains_tag(q, T_(t));
        for (k = 0; k < npend; k++) if (it[pend[k]].tag == t) { if (it[pend[k]].doom) doomed = 1; else live = 1; }
        if (live) MC_CHECK(c, "tag %d isn't there", t);
        else if (!doomed) MC_CHECK(!c, "tag %d is there", t);
    }
}

static void act(int a);
enum { NONE, ADD1, CANCEL1, CANCEL2, ALL, ADD2, ADD0, NNEST0, UNREF = NNEST0, FREE, REF, ADDN, CANCEL0, NACT, ITER };
static const char* const names[] = { "nothing", "add 1", "cancel 1", "cancel 2", "cancel all", "add 2", "add", "unref", "free", "ref", "add without a function", "cancel 0", "", "iterate" };

/* The main loop may run (once) while it's waiting for a callback. Whatever is pending may but doesn't have to run */
static void inner_loop(void)
{
    const int n = nit;
    int k, was[MAXI];
    for (k = 0; k < n; k++) { was[k] = it[k].batch; it[k].batch = 1; }
    in_iter++;
    g_main_context_iteration(NULL, FALSE);
    in_iter--;
    MC_CHECK(await_gone < 0, "data of item %d isn't released", await_gone);
    /* The batch remains what it was */
    for (k = 0; k < nit; k++) it[k].batch = k < n && was[k];
}

static void nested(const char* where)
{
    const int n = !refs ? 1 : allow_refs ? NACT - 2 : NNEST0;
    int a;
    if (depth > 3) return;
    if (nit >= MAXI - 1) return;
    a = mc_choose_dev(n + 1, where);
    if (a) {
        depth++;
        mc_note("%*s%s: %s", depth * 2, "", where, names[a == n ? ITER : a]);
        if (a == n) inner_loop(); else act(a);
        depth--;
    }
}

static void on_run(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    int k;
    mc_note("%*srunning %d", depth * 2, "", i);
    MC_CHECK(in_iter && !in_add, "item %d runs outside of the main loop", i);
    MC_CHECK(await_gone < 0, "data of item %d isn't released yet", await_gone);
    MC_CHECK(!it[i].ran && !it[i].gone, "item %d runs again", i);
    MC_CHECK(!it[i].doom, "cancelled item %d is running", i);
    MC_CHECK(refs > 0, "item %d is running after the queue has gone", i);
    MC_CHECK(it[i].batch, "item %d runs too early", i);
    for (k = 0; k < npend && it[pend[k]].run == 0 && pend[k] != i; k++);
    MC_CHECK(k < npend && pend[k] == i, "item %d runs out of order", i);
    ev(1, i);
    mc_step();
    /* Those without a function */
    while (pend[0] != i) {
        MC_CHECK(!it[pend[0]].destroy || it[pend[0]].gone, "item %d was skipped", pend[0]);
        pend_remove(pend[0]);
    }
    pend_remove(i);
    it[i].ran = 1;
    ran_now++;
    observe();
    nested("run");
    observe();
    if (it[i].destroy) await_gone = i; else it[i].gone = 1;
}

static void on_gone(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    int k;
    mc_note("%*sreleasing %d", depth * 2, "", i);
    MC_CHECK(it[i].destroy, "item %d has nothing to release", i);
    MC_CHECK(!it[i].gone, "data of item %d is released again", i);
    it[i].gone = 1;
    ev(2, i);
    mc_step();
    if (await_gone >= 0) {
        MC_CHECK(i == await_gone, "data of item %d is released instead of %d", i, await_gone);
        await_gone = -1;
    } else if (it[i].doom) {
        pend_remove(i);
    } else if (cancel_target == -2) {
        /* Any of those with the tag is good */
        cancel_target = i;
        pend_remove(i);
    } else if (!it[i].run && in_iter) {
        for (k = 0; k < npend && pend[k] != i; k++);
        MC_CHECK(k == 0, "item %d is out of order", i);
        MC_CHECK(it[i].batch, "item %d runs too early", i);
        pend_remove(i);
        ran_now++;
    } else {
        mc_fail("data of item %d is released too early", i);
    }
    observe();
    nested("release");
    observe();
}

static void dooming(void)
{
    int k;
    doom_depth++;
    for (k = 0; k < npend; k++) if (!it[pend[k]].doom) it[pend[k]].doom = doom_depth;
}
static void doomed(void)
{
    int i;
    for (i = 0; i < nit; i++) if (it[i].doom == doom_depth) {
        if (it[i].destroy) MC_CHECK(it[i].gone, "data of cancelled item %d isn't released", i);
        else if (!it[i].gone) { it[i].gone = 1; pend_remove(i); }
        it[i].doom = 100; /* Done with it */
    }
    doom_depth--;
}

static void act(int a)
{
    int k, tag, saved, first, found;
    gboolean r;
    if (!refs) return;
    ev(3, a);
    mc_step();
    switch (a) {
    case ADD0: case ADD1: case ADD2: case ADDN:
        memset(it + nit, 0, sizeof(it[0]));
        it[nit].used = 1;
        it[nit].tag = a == ADD1 ? 1 : a == ADD2 ? 2 : 0;
        it[nit].run = a != ADDN;
        it[nit].destroy = a != ADD0;
        pend[npend++] = nit++;
        in_add++;
        if (a == ADD0) gutil_idle_queue_add(q, on_run, GINT_TO_POINTER(nit));
        else if (a == ADDN) gutil_idle_queue_add_full(q, NULL, GINT_TO_POINTER(nit), on_gone);
        else gutil_idle_queue_add_tag_full(q, T_(it[nit - 1].tag), on_run, GINT_TO_POINTER(nit), on_gone);
        in_add--;
        break;
    case CANCEL0: case CANCEL1: case CANCEL2:
        tag = a == CANCEL0 ? 0 : a == CANCEL1 ? 1 : 2;
        for (first = -1, found = 0, k = 0; k < npend; k++) if (it[pend[k]].tag == tag) {
            if (!it[pend[k]].doom) { first = pend[k]; found = 1; break; }
            found = -1; /* Being cancelled already */
        }
        if (first >= 0 && !it[first].destroy) {
            if (doom_depth) return; /* No way to find out what was cancelled */
            r = gutil_idle_queue_cancel_tag(q, T_(tag));
            MC_CHECK(r, "tag %d wasn't cancelled", tag);
            it[first].doom = 100;
            it[first].gone = 1;
            pend_remove(first);
            break;
        }
        {
            int mixed = 0;
            for (k = 0; k < npend; k++) if (it[pend[k]].tag == tag && it[pend[k]].doom) mixed = 1;
            if (first >= 0 && !mixed) it[first].doom = 200; /* This one has to go */
            saved = cancel_target;
            cancel_target = (first >= 0 && mixed) ? -2 : -1;
            r = gutil_idle_queue_cancel_tag(q, T_(tag));
            if (first >= 0) MC_CHECK(r, "tag %d wasn't cancelled", tag);
            else if (!mixed) MC_CHECK(!r, "tag %d was cancelled", tag);
            if (first >= 0 && !mixed) { MC_CHECK(it[first].gone, "wrong item was cancelled instead of %d", first); it[first].doom = 100; }
            cancel_target = saved;
        }
        break;
    case ALL:
        dooming();
        gutil_idle_queue_cancel_all(q);
        doomed();
        break;
    case REF:
        refs++;
        MC_EXPECT(gutil_idle_queue_ref(q) == q);
        break;
    case FREE:
    case UNREF:
        /* Free means cancel and unref. No matter which way, the last reference takes everything with it */
        refs--;
        if (a == FREE) {
            dooming();
            if (!held++) free_level = doom_depth;
            gutil_idle_queue_free(q);
            held--;
            doomed();
        } else if (refs) {
            gutil_idle_queue_unref(q);
        } else if (held) {
            /* gutil_idle_queue_free has the last reference */
            for (k = 0; k < npend; k++) if (!it[pend[k]].doom) it[pend[k]].doom = free_level;
            gutil_idle_queue_unref(q);
        } else {
            dooming();
            gutil_idle_queue_unref(q);
            doomed();
        }
        if (!refs && !held && !doom_depth) MC_EXPECT(!npend);
        break;
    case ITER:
        for (k = 0; k < npend; k++) it[pend[k]].batch = 1;
        found = npend;
        ran_now = 0;
        in_iter++;
        g_main_context_iteration(NULL, FALSE);
        in_iter--;
        MC_CHECK(await_gone < 0, "data of item %d isn't released", await_gone);
        /* Released at the end: those without a function and data don't show up */
        MC_CHECK(!found || ran_now, "nothing was done");
        break;
    }
    if (!depth) {
        MC_CHECK(!g_main_context_pending(NULL) == !npend, npend ? "nothing is going to happen" : "a source was left behind");
    }
    observe();
}

static void program(int len, int with_refs)
{
    int k, end;
    static const int top0[] = { -1, ITER, ADD1, ADD2, ADD0, CANCEL1, CANCEL2, ALL, ADDN, CANCEL0 };
    static const int top1[] = { -1, ITER, ADD1, ADD2, CANCEL1, ALL, UNREF, FREE, REF, ADD0 };
    nit = npend = in_iter = in_add = doom_depth = depth = held = 0;
    await_gone = cancel_target = -1;
    trace_hash = 1;
    allow_refs = with_refs;
    q = gutil_idle_queue_new();
    refs = 1;
    for (k = 0; k < len && refs; k++) {
        const int c = with_refs ? top1[mc_choose(G_N_ELEMENTS(top1), "top")] : top0[mc_choose(G_N_ELEMENTS(top0), "top")];
        if (c < 0) break;
        mc_note("%s", names[c]);
        act(c);
    }
    /* Then let it go one way or another */
    end = refs ? mc_choose(2, "end") : 0;
    if (!end) {
        int n = 0;
        while (refs && npend) { mc_note("iterate"); act(ITER); MC_CHECK(n++ < 40, "too many iterations"); }
    }
    while (refs) { mc_note("unref"); act(UNREF); }
    MC_CHECK(!npend, "item %d is left", pend[0]);
    for (k = 0; k < nit; k++) {
        MC_CHECK(it[k].gone || !it[k].destroy, "data of item %d wasn't released", k);
        MC_CHECK(it[k].doom || !it[k].run || it[k].ran, "item %d didn't run", k);
    }
    MC_CHECK(!g_main_context_pending(NULL), "a source was left behind");
    MC_CHECK(!g_main_context_iteration(NULL, FALSE), "something was left to do");
    mc_outcome(trace_hash);
}

static int T(int qk, int t) { return mc_tier == MC_QUICK ? qk : t; }
static void c15_body(void) { program(T(5, 6), 0); }
static void c16_body(void) { program(T(5, 6), 1); }
static void c16_deep(void) { program(T(3, 4), 1); }
static void c15_deep(void) { program(T(3, 4), 0); }

/* No queue */
static int null_gone;
static void null_destroy(gpointer p) { null_gone++; }
static void null_body(void)
{
    int a = mc_choose(8, "op");
    null_gone = 0;
    switch (a) {
    case 0: gutil_idle_queue_add(NULL, on_run, NULL); break;
    case 1: gutil_idle_queue_add_full(NULL, on_run, NULL, null_destroy); break;
    case 2: gutil_idle_queue_add_tag_full(NULL, 1, on_run, NULL, null_destroy); break;
    case 3: gutil_idle_queue_add_tag(NULL, 1, on_run, NULL); break;
    case 4: MC_EXPECT(!gutil_idle_queue_cancel_tag(NULL, 0)); break;
    case 5: gutil_idle_queue_cancel_all(NULL); break;
    case 6: MC_EXPECT(!gutil_idle_queue_ref(NULL)); gutil_idle_queue_unref(NULL); break;
    default: gutil_idle_queue_free(NULL); MC_EXPECT(!gutil_idle_queue_contains_tag(NULL, 0));
    }
    MC_CHECK(null_gone == (a == 1 || a == 2), "data released %d times", null_gone);
    MC_EXPECT(!g_main_context_pending(NULL));
}

/*==========================================================================*
 * Two queues. Callbacks do things to either of them.
 *==========================================================================*/

typedef struct { GUtilIdleQueue* q; int pend[MAXI], n, started; } Two;
typedef struct { int qi, tag, batch, first, ran, gone, cancelled; } TwoItem;
static Two two[2];
static TwoItem ti[MAXI];
static int nti, two_iter, two_busy;

static void two_remove(int i)
{
    Two* t = two + ti[i].qi;
    int k;
    for (k = 0; k < t->n && t->pend[k] != i; k++);
    MC_CHECK(k < t->n, "item %d isn't pending", i);
    memmove(t->pend + k, t->pend + k + 1, sizeof(int) * (--t->n - k));
}

static void two_run(gpointer p);
static void two_gone(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    MC_CHECK(!ti[i].gone, "data of item %d is released again", i);
    MC_CHECK(ti[i].ran || ti[i].cancelled, "data of item %d is released too early", i);
    ti[i].gone = 1;
    ev(2, i);
}

enum { W_ADD1, W_ADD2, W_CANCEL1, W_CANCEL2, W_ALL, W_UNREF, W_NOP };
static const char* const two_names[] = { "add 1", "add 2", "cancel 1", "cancel 2", "cancel all", "unref" };
static void two_act(int op, int qi)
{
    Two* t = two + qi;
    int k;
    mc_note("%*squeue %d: %s", two_busy * 2, "", qi, two_names[op]);
    mc_step();
    if (!t->q) return;
    switch (op) {
    case W_ADD1: case W_ADD2:
        memset(ti + nti, 0, sizeof(ti[0]));
        ti[nti].qi = qi;
        ti[nti].tag = 1 + op - W_ADD1;
        t->pend[t->n++] = nti++;
        gutil_idle_queue_add_tag_full(t->q, T_(ti[nti - 1].tag), two_run, GINT_TO_POINTER(nti), two_gone);
        break;
    case W_CANCEL1: case W_CANCEL2:
        for (k = 0; k < t->n && ti[t->pend[k]].tag != 1 + op - W_CANCEL1; k++);
        if (k < t->n) {
            const int i = t->pend[k];
            ti[i].cancelled = 1;
            MC_CHECK(gutil_idle_queue_cancel_tag(t->q, T_(1 + op - W_CANCEL1)) && ti[i].gone, "item %d wasn't cancelled", i);
            two_remove(i);
        } else MC_EXPECT(!gutil_idle_queue_cancel_tag(t->q, T_(1 + op - W_CANCEL1)));
        break;
    case W_ALL: case W_UNREF:
        for (k = 0; k < t->n; k++) ti[t->pend[k]].cancelled = 1;
        if (op == W_ALL) gutil_idle_queue_cancel_all(t->q);
        else { GUtilIdleQueue* x = t->q; t->q = NULL; gutil_idle_queue_unref(x); }
        for (k = 0; k < t->n; k++) MC_CHECK(ti[t->pend[k]].gone, "data of item %d isn't released", t->pend[k]);
        t->n = 0;
        break;
    }
    for (k = 0; k < 4 && t->q; k++) {
        int j;
        for (j = 0; j < t->n && ti[t->pend[j]].tag != k; j++);
        MC_CHECK(!gutil_idle_queue_contains_tag(t->q, T_(k)) == (j == t->n), "tag %d of queue %d", k, qi);
    }
}

static void two_run(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    Two* t = two + ti[i].qi;
    int k, a;
    mc_note("  item %d of queue %d", i, ti[i].qi);
    MC_CHECK(two_iter && !two_busy, "item %d runs at a wrong moment", i);
    MC_CHECK(!ti[i].ran && !ti[i].cancelled && t->q, "item %d isn't supposed to run", i);
    if (!t->started) {
        t->started = 1;
        for (k = 0; k < t->n; k++) ti[t->pend[k]].batch = 1;
    }
    MC_CHECK(ti[i].batch, "item %d runs too early", i);
    MC_CHECK(t->n && t->pend[0] == i, "item %d runs out of order", i);
    two_remove(i);
    ti[i].ran = 1;
    ev(1, i);
    for (k = 0; k < nti; k++) MC_CHECK(ti[k].gone || k == i || !ti[k].ran, "data of item %d isn't released", k);
    if (nti < MAXI - 1) {
        a = mc_choose_dev(1 + 2 * W_NOP, "callback");
        if (a--) {
            two_busy = 1;
            /* The other one first */
            two_act(a % W_NOP, a < W_NOP ? !ti[i].qi : ti[i].qi);
            two_busy = 0;
        }
    }
}

static void two_body(void)
{
    int k, n, len = mc_tier == MC_QUICK ? 5 : 6;
    nti = two_iter = two_busy = 0;
    trace_hash = 1;
    memset(two, 0, sizeof(two));
    for (k = 0; k < 2; k++) two[k].q = gutil_idle_queue_new();
    for (n = 0; n < len; n++) {
        /* The last one is an iteration unless it's the end */
        int op = n == len - 1 ? 1 : mc_choose(2 + 2 * W_NOP, "op");
        if (!op) op = 1, n = len;
        if (op == 1) {
            mc_note("iterate");
            for (k = 0; k < nti; k++) ti[k].first = !ti[k].ran && !ti[k].cancelled;
            for (k = nti; k < MAXI; k++) ti[k].first = 0;
            two[0].started = two[1].started = 0;
            two_iter = 1;
            g_main_context_iteration(NULL, FALSE);
            two_iter = 0;
            for (k = 0; k < nti; k++) {
                MC_CHECK(!ti[k].first || ti[k].ran || ti[k].cancelled, "item %d didn't run", k);
                MC_CHECK(!ti[k].ran || ti[k].gone, "data of item %d isn't released", k);
            }
            mc_step();
        } else two_act((op - 2) % W_NOP, (op - 2) / W_NOP);
        MC_CHECK(!g_main_context_pending(NULL) == !(two[0].n + two[1].n), "pending");
    }
    for (k = 0; k < 2; k++) two_act(W_UNREF, k);
    for (k = 0; k < nti; k++) MC_CHECK(ti[k].gone, "data of item %d isn't released", k);
    MC_CHECK(!g_main_context_pending(NULL), "a source was left behind");
    mc_outcome(trace_hash);
}

/* Long queues */
static const int long_n[] = { 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
static int long_next, long_gone, long_step, long_running, long_extra;
static GUtilIdleQueue* long_q;
static void long_run_cb(gpointer p)
{
    MC_CHECK(GPOINTER_TO_INT(p) == long_next, "item %d runs, expected %d", GPOINTER_TO_INT(p), long_next);
    MC_CHECK(!long_running, "item %d runs inside another one", GPOINTER_TO_INT(p));
    long_running = 1;
    long_next += long_step;
    if (long_extra && long_next > long_extra) {
        long_extra = 0;
        gutil_idle_queue_add_tag_full(long_q, 77, long_run_cb, GINT_TO_POINTER(1000000), NULL);
    }
    long_running = 0;
}
static void long_destroy(gpointer p)
{
    const int i = GPOINTER_TO_INT(p);
    MC_CHECK(i + long_step == long_next, "data of item %d is released after item %d", i, long_next - long_step);
    long_gone++;
}
static void long_cancelled(gpointer p) { long_gone++; }
static u64 long_count(void) { return NLONG * 5; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], o = x / NLONG;
    int i, k;
    /* Adding an item may take linear time, the longest ones are mostly left to the thorough checks */
    if (mc_tier == MC_QUICK && n > 5000 && (n != 65537 || (o != 0 && o != 2))) return;
    mc_note("%d items, operation %d", n, o);
    q = long_q = gutil_idle_queue_new();
    long_next = long_gone = long_extra = 0;
    long_step = 1;
    for (i = 0; i < n; i++) gutil_idle_queue_add_tag_full(q, 1000000 + i, long_run_cb, GINT_TO_POINTER(i), o ? long_cancelled : long_destroy);
    MC_EXPECT(!long_next && gutil_idle_queue_contains_tag(q, 1000000 + n - 1) && !gutil_idle_queue_contains_tag(q, 1000000 + n));
    switch (o) {
    case 0: /* All of them run in order, an item which is added meanwhile in the next iteration */
        long_extra = n / 2;
        g_main_context_iteration(NULL, FALSE);
        MC_CHECK(long_next == n && long_gone == n, "%d ran, %d released of %d", long_next, long_gone, n);
        MC_EXPECT(gutil_idle_queue_contains_tag(q, 77));
        long_next = 1000000;
        g_main_context_iteration(NULL, FALSE);
        MC_CHECK(long_next == 1000001 && !gutil_idle_queue_contains_tag(q, 77), "the new one didn't run");
        break;
    case 1: /* Every other one is cancelled (of the first few ones, it's linear) */
        for (i = 0; i < 200 && i + 1 < n; i += 2) MC_CHECK(gutil_idle_queue_cancel_tag(q, 1000000 + i) && !gutil_idle_queue_contains_tag(q, 1000000 + i), "cancel %d", i);
        k = long_gone;
        MC_CHECK(k == i / 2, "%d released, %d cancelled", k, i / 2);
        MC_EXPECT(gutil_idle_queue_cancel_tag(q, 1000000 + n - 1) && !gutil_idle_queue_cancel_tag(q, 1000000 + n - 1) && long_gone == k + 1);
        long_next = 1; long_step = 2;
        while (long_next < i && long_next < n - 1) { /* Can't stop in the middle */ break; }
        for (; i < n - 1 && i < 400; i += 2) MC_EXPECT(gutil_idle_queue_cancel_tag(q, 1000000 + i));
        if (i < n - 1) { gutil_idle_queue_cancel_all(q); MC_CHECK(long_gone == n, "%d released of %d", long_gone, n); i = 0; long_next = 0; }
        g_main_context_iteration(NULL, FALSE);
        MC_CHECK(long_gone == n, "%d released of %d", long_gone, n);
        MC_CHECK(i == 0 ? !long_next : long_next >= n - 1, "the last one that ran is %d", long_next - long_step);
        break;
    case 2: gutil_idle_queue_cancel_all(q); MC_CHECK(long_gone == n, "%d released of %d", long_gone, n); break;
    case 3: gutil_idle_queue_unref(q); q = NULL; MC_CHECK(long_gone == n, "%d released of %d", long_gone, n); break;
    case 4: gutil_idle_queue_ref(q); gutil_idle_queue_free(q); MC_CHECK(long_gone == n, "%d released of %d", long_gone, n); break;
    }
    k = long_next;
    MC_CHECK(!g_main_context_pending(NULL), "a source is left behind");
    g_main_context_iteration(NULL, FALSE);
    MC_CHECK(k == long_next, "something ran after the end");
    gutil_idle_queue_unref(q);
    q = long_q = NULL;
    mc_steps(n);
    mc_outcome(x);
}

/* All ways to add an item */
enum { V_ADD, V_FULL, V_FULL0, V_TAG, V_TAG_FULL, V_TAG_FULL0, V_NORUN, NV };
static int var_ran[8], var_gone[8], var_tag[8], var_kind[8], var_seen;
static void var_run(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    MC_CHECK(!var_ran[i] && !var_gone[i] && var_kind[i] != V_NORUN, "item %d runs", i);
    MC_CHECK(var_seen <= i, "item %d is out of order", i);
    var_seen = i;
    var_ran[i]++;
}
static void var_destroy(gpointer p)
{
    const int i = GPOINTER_TO_INT(p) - 1;
    MC_CHECK(!var_gone[i]++, "data of item %d is released again", i);
    MC_CHECK(var_kind[i] == V_FULL || var_kind[i] == V_TAG_FULL || var_kind[i] == V_NORUN, "data of item %d is released", i);
}
static void var_body(void)
{
    int n, k, t, end, cancelled = -1;
    GUtilIdleQueue* v = gutil_idle_queue_new();
    memset(var_ran, 0, sizeof(var_ran)); memset(var_gone, 0, sizeof(var_gone));
    var_seen = 0;
    for (n = 0; n < 4; n++) {
        const int c = mc_choose(1 + 2 * NV, "add");
        const gpointer p = GINT_TO_POINTER(n + 1);
        if (!c) break;
        var_kind[n] = (c - 1) / 2;
        t = 1 + (c - 1) % 2 * 2; /* 1 or 3 */
        var_tag[n] = (var_kind[n] <= V_FULL0) ? 0 : t;
        if (var_kind[n] <= V_FULL0 && t != 1) break; /* The same as without the tag */
        switch (var_kind[n]) {
        case V_ADD: gutil_idle_queue_add(v, var_run, p); break;
        case V_FULL: gutil_idle_queue_add_full(v, var_run, p, var_destroy); break;
        case V_FULL0: gutil_idle_queue_add_full(v, var_run, p, NULL); break;
        case V_TAG: gutil_idle_queue_add_tag(v, T_(t), var_run, p); break;
        case V_TAG_FULL: gutil_idle_queue_add_tag_full(v, T_(t), var_run, p, var_destroy); break;
        case V_TAG_FULL0: gutil_idle_queue_add_tag_full(v, T_(t), var_run, p, NULL); break;
        case V_NORUN: gutil_idle_queue_add_tag_full(v, T_(t), NULL, p, var_destroy); break;
        }
        mc_step();
    }
    end = mc_choose(6, "then");
    mc_note("%d items, then %d", n, end);
    if (end >= 2 && end <= 4) {
        t = (int[]){ 0, 1, 3 }[end - 2];
        for (k = 0; k < n && var_tag[k] != t; k++);
        MC_CHECK(!gutil_idle_queue_cancel_tag(v, T_(t)) == (k == n), "cancelling tag %d", t);
        if (k < n) { cancelled = k; MC_CHECK(var_gone[k] == (var_kind[k] == V_FULL || var_kind[k] == V_TAG_FULL || var_kind[k] == V_NORUN), "data of item %d", k); }
    }
    for (t = 0; t < 4; t++) {
        for (k = 0; k < n && (var_tag[k] != t || k == cancelled); k++);
        MC_CHECK(!gutil_idle_queue_contains_tag(v, T_(t)) == (k == n), "tag %d", t);
    }
    if (end == 5) gutil_idle_queue_cancel_all(v);
    if (end == 1) { gutil_idle_queue_unref(v); v = NULL; }
    g_main_context_iteration(NULL, FALSE);
    for (k = 0; k < n; k++) {
        const int away = k == cancelled || end == 1 || end == 5;
        MC_CHECK(var_ran[k] == (!away && var_kind[k] != V_NORUN), "item %d ran %d times", k, var_ran[k]);
        MC_CHECK(var_gone[k] == (var_kind[k] == V_FULL || var_kind[k] == V_TAG_FULL || var_kind[k] == V_NORUN), "data of item %d was released %d times", k, var_gone[k]);
    }
    gutil_idle_queue_unref(v);
    MC_CHECK(!g_main_context_pending(NULL), "a source was left behind");
    mc_outcome(n * 10 + end);
}

static void setup(void) { while (g_main_context_iteration(NULL, FALSE)); }

const McSuite mc_suites[] = {
    { "C15.programs", MC_DFS, "All sequences of up to 5 (6) operations (add, cancel, cancel all, iterate) and up to 1 (2) actions of callbacks and release functions", .body = c15_body, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup },
    { "C15.nested", MC_DFS, "All sequences of up to 3 (4) operations and 3 (4) actions of callbacks and release functions", .body = c15_deep, .dev_quick = 3, .dev_thorough = 4, .split = 8, .setup = setup },
    { "C15.two", MC_DFS, "Two queues: all sequences of up to 5 (6) operations on either and up to 2 (3) actions of callbacks on either", .body = two_body, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup },
    { "C15.variants", MC_DFS, "Up to 4 items added in all ways, with and without functions and tags, then run, cancelled or destroyed", .body = var_body, .dev_quick = 0, .split = 4, .setup = setup },
    { "C15.long", MC_FAMILY, "16 (quick: 10, two operations with the last one) queue lengths 100..70000: run, cancel, destroy", long_count, long_run, .setup = setup, .slow_s = 120 },
    { "C16.long", MC_FAMILY, "16 (quick: 10, two operations with the last one) queue lengths 100..70000: run, cancel, destroy", long_count, long_run, .setup = setup, .slow_s = 120 },
    { "C16.two", MC_DFS, "Two queues: all sequences of up to 5 (6) operations on either and up to 2 (3) actions of callbacks on either", .body = two_body, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup },
    { "C16.programs", MC_DFS, "Same as C15.programs with references, 5 (6) operations and up to 1 (2) actions", .body = c16_body, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup },
    { "C16.nested", MC_DFS, "All sequences of up to 3 (4) operations and 3 (4) actions", .body = c16_deep, .dev_quick = 3, .dev_thorough = 4, .split = 8, .setup = setup },
    { "C16.null", MC_DFS, "Operations on no queue", .body = null_body, .dev_quick = 0, .setup = setup },
    { NULL }
};
