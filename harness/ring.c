/* Ring buffer: C08 (deque), C09 (limit and ownership) */
#include "mc.h"
#include "gutil_ring.h"

/* Elements are addresses inside this array, never dereferenced by the SUT */
#define NE 1024
static char elem[NE];
static int freed_log[NE], nfreed;

static int id_of(gpointer p)
{
    if (!p) return -1;
    MC_CHECK((char*)p >= elem && (char*)p < elem + NE, "ring returned %p which was never put there", p);
    return (int)((char*)p - elem);
}

static void elem_free(gpointer p)
{
    MC_CHECK(nfreed < NE, "too many elements freed");
    freed_log[nfreed++] = id_of(p);
}

/*==========================================================================*
 * Explicit state search
 *==========================================================================*/

static int MAXN;        /* Maximum number of elements */
static int MODN;        /* element ids are consecutive modulo this */
static GUtilRing* r;
static struct model {
    int cfg;            /* -1: not created yet */
    int n, ids[16];
    int max;
    int has_free;
    int refs;
} m;

typedef struct { int reserved, max, free; } Cfg;
static const Cfg cfgs[] = {
    { 0, -1, 0 }, { 0, -1, 1 }, { 3, -1, 0 }, { 2, -1, 1 }, { 0, 3, 1 }, { 0, 0, 1 },
    { 4, 2, 0 }, { 4, 3, 1 }, { 2, 4, 0 }, { 1, -7, 1 }, { 5, -1, 0 }
};

enum { PUT, PUTF, GET, GETL, DROP, DROPL, CLEAR, COMPACT, RESERVE, FLATTEN, FLATTEN0, SETMAX, SETFREE, REF, UNREF };
typedef struct { int op, arg; } Op;
static const Op ops[] = {
    { PUT, 0 }, { PUTF, 0 }, { GET, 0 }, { GETL, 0 },
    { DROP, -1 }, { DROP, 0 }, { DROP, 1 }, { DROP, 2 }, { DROP, 3 }, { DROP, INT_MAX },
    { DROPL, INT_MIN }, { DROPL, 0 }, { DROPL, 1 }, { DROPL, 2 }, { DROPL, 3 }, { DROPL, INT_MAX },
    { CLEAR, 0 }, { COMPACT, 0 },
    { RESERVE, -1 }, { RESERVE, 0 }, { RESERVE, 1 }, { RESERVE, 2 }, { RESERVE, 3 }, { RESERVE, 5 }, { RESERVE, 6 },
    { FLATTEN, 0 }, { FLATTEN0, 0 },
    { SETMAX, -1 }, { SETMAX, 0 }, { SETMAX, 1 }, { SETMAX, 2 }, { SETMAX, 3 }, { SETMAX, 5 }, { SETMAX, INT_MIN },
    { SETFREE, 0 }, { SETFREE, 1 }, { REF, 0 }, { UNREF, 0 }
};

static void bfs_create(void)
{
    r = NULL;
    memset(&m, 0, sizeof(m));
    m.cfg = -1;
    nfreed = 0;
}

static int bfs_nops(void)
{
    return m.cfg < 0 ? (int)G_N_ELEMENTS(cfgs) : (int)G_N_ELEMENTS(ops);
}

static void expect_freed(const int* ids, int n, const char* what)
{
    int i;
    MC_CHECK(nfreed == n, "%s: %d element(s) freed, expected %d", what, nfreed, n);
    for (i = 0; i < n; i++) {
        MC_CHECK(freed_log[i] == ids[i], "%s: element %d freed instead of %d", what, freed_log[i], ids[i]);
    }
    nfreed = 0;
}

static void observe(void)
{
    int i;
    MC_CHECK(gutil_ring_size(r) == m.n, "size %d, expected %d", gutil_ring_size(r), m.n);
    MC_CHECK(gutil_ring_max_size(r) == m.max, "max_size %d, expected %d", gutil_ring_max_size(r), m.max);
    for (i = 0; i < m.n; i++) {
        int id = id_of(gutil_ring_data_at(r, i));
        MC_CHECK(id == m.ids[i], "data_at(%d) is %d, expected %d", i, id, m.ids[i]);
    }
    MC_EXPECT(!gutil_ring_data_at(r, m.n));
    MC_EXPECT(!gutil_ring_data_at(r, m.n + 1));
    MC_EXPECT(!gutil_ring_data_at(r, -1));
    MC_EXPECT(!gutil_ring_data_at(r, INT_MAX));
    MC_EXPECT(!gutil_ring_data_at(r, INT_MIN));
    for (i = 0; i <= MAXN + 2; i++) {
        int want = m.max < 0 || m.n + i <= m.max;
        MC_CHECK(!gutil_ring_can_put(r, i) == !want, "can_put(%d) isn't %d with %d of %d", i, want, m.n, m.max);
    }
    MC_CHECK(!gutil_ring_can_put(r, INT_MAX) == !(m.max < 0 || (gint64)m.n + INT_MAX <= m.max),
        "can_put(INT_MAX) with %d of %d", m.n, m.max);
    if (nfreed) expect_freed(NULL, 0, "query");
}

static int bfs_apply(int op)
{
    int i, arg, n, n0, ok, id;
    int exp[16];

    if (m.cfg < 0) {
        const Cfg* c = cfgs + op;
        mc_note("new(reserved=%d, max=%d, free=%d)", c->reserved, c->max, c->free);
        if (c->reserved == 0 && c->max == -1 && !c->free) r = gutil_ring_new();
        else if (!c->free) r = gutil_ring_sized_new(c->reserved, c->max);
        else r = gutil_ring_new_full(c->reserved, c->max, elem_free);
        m.cfg = op;
        m.max = c->max < 0 ? -1 : c->max;
        m.has_free = c->free;
        m.refs = 1;
        observe();
        return 1;
    }
    arg = ops[op].arg;
    switch (ops[op].op) {
    case PUT: case PUTF: {
        const int front = ops[op].op == PUTF;
        if (m.n >= MAXN) return 0;
        id = !m.n ? MODN / 2 : front ? (m.ids[0] + MODN - 1) % MODN : (m.ids[m.n - 1] + 1) % MODN;
        ok = front ? gutil_ring_put_front(r, elem + id) : gutil_ring_put(r, elem + id);
        mc_note("%s(%d) => %d", front ? "put_front" : "put", id, ok);
        n = m.max < 0 || m.n < m.max;
        MC_CHECK(!ok == !n, "put returned %d with %d elements of %d", ok, m.n, m.max);
        if (n) {
            if (front) { memmove(m.ids + 1, m.ids, sizeof(int) * m.n); m.ids[0] = id; m.n++; }
            else m.ids[m.n++] = id;
        }
        break;
    }
    case GET:
        id = id_of(gutil_ring_get(r));
        mc_note("get => %d", id);
        if (!m.n) MC_CHECK(id == -1, "get from an empty ring returned %d", id);
        else {
            MC_CHECK(id == m.ids[0], "get returned %d, expected %d", id, m.ids[0]);
            memmove(m.ids, m.ids + 1, sizeof(int) * --m.n);
        }
        break;
    case GETL:
        id = id_of(gutil_ring_get_last(r));
        mc_note("get_last => %d", id);
        if (!m.n) MC_CHECK(id == -1, "get_last from an empty ring returned %d", id);
        else { MC_CHECK(id == m.ids[m.n - 1], "get_last returned %d, expected %d", id, m.ids[m.n - 1]); m.n--; }
        break;
    case DROP:
        n = gutil_ring_drop(r, arg);
        mc_note("drop(%d) => %d", arg, n);
        n0 = CLAMP(arg, 0, m.n);
        MC_CHECK(n == n0, "drop(%d) returned %d, expected %d", arg, n, n0);
        memcpy(exp, m.ids, sizeof(exp));
        if (m.has_free) expect_freed(exp, n0, "drop");
        m.n -= n0;
        memmove(m.ids, m.ids + n0, sizeof(int) * m.n);
        break;
    case DROPL:
        n = gutil_ring_drop_last(r, arg);
        mc_note("drop_last(%d) => %d", arg, n);
        n0 = CLAMP(arg, 0, m.n);
        MC_CHECK(n == n0, "drop_last(%d) returned %d, expected %d", arg, n, n0);
        if (m.has_free) {
            /* Dropping everything may go in either direction */
            if (n0 == m.n && n0 > 1 && nfreed == n0 && freed_log[0] == m.ids[0]) {
                expect_freed(m.ids, n0, "drop_last");
            } else {
                for (i = 0; i < n0; i++) exp[i] = m.ids[m.n - 1 - i];
                expect_freed(exp, n0, "drop_last");
            }
        }
        m.n -= n0;
        break;
    case CLEAR:
        mc_note("clear");
        gutil_ring_clear(r);
        if (m.has_free) expect_freed(m.ids, m.n, "clear");
        m.n = 0;
        break;
    case COMPACT:
        mc_note("compact");
        gutil_ring_compact(r);
        break;
    case RESERVE:
        ok = gutil_ring_reserve(r, arg);
        mc_note("reserve(%d) => %d", arg, ok);
        if (arg <= m.n || m.max < 0) MC_CHECK(ok, "reserve(%d) refused", arg);
        break;
    case FLATTEN: case FLATTEN0: {
        gpointer* p;
        n = -5;
        p = gutil_ring_flatten(r, ops[op].op == FLATTEN0 ? NULL : &n);
        mc_note("flatten");
        if (ops[op].op == FLATTEN) MC_CHECK(n == m.n, "flatten reports %d elements, expected %d", n, m.n);
        MC_CHECK(!p == !m.n, "flatten returned %p with %d elements", p, m.n);
        for (i = 0; i < m.n; i++) {
            MC_CHECK(id_of(p[i]) == m.ids[i], "flattened element %d is %d, expected %d", i, id_of(p[i]), m.ids[i]);
        }
        break;
    }
    case SETMAX:
        mc_note("set_max_size(%d)", arg);
        gutil_ring_set_max_size(r, arg);
        m.max = arg < 0 ? -1 : arg;
        n0 = (m.max >= 0 && m.n > m.max) ? m.n - m.max : 0;
        if (m.has_free) expect_freed(m.ids, n0, "set_max_size");
        m.n -= n0;
        memmove(m.ids, m.ids + n0, sizeof(int) * m.n);
        break;
    case SETFREE:
        if (arg == m.has_free) return 0;
        mc_note("set_free_func(%d)", arg);
        gutil_ring_set_free_func(r, arg ? elem_free : NULL);
        m.has_free = arg;
        break;
    case REF:
        if (m.refs > 1) return 0;
        mc_note("ref");
        MC_EXPECT(gutil_ring_ref(r) == r);
        m.refs++;
        break;
    case UNREF:
        if (m.refs < 2) return 0;
        mc_note("unref");
        gutil_ring_unref(r);
        m.refs--;
        break;
    }
    if (!m.has_free) MC_CHECK(!nfreed, "free function called");
    observe();
    return 1;
}

static void bfs_key(void)
{
    mc_key_int(m.cfg < 0);
    mc_key_int(m.n); mc_key_int(m.n ? m.ids[0] : 0); mc_key_int(m.max); mc_key_int(m.has_free); mc_key_int(m.refs);
    mc_key_ptr(r);
}

static void bfs_destroy(void)
{
    nfreed = 0;
    while (m.refs > 1) { gutil_ring_unref(r); m.refs--; MC_CHECK(!nfreed, "freed too early"); }
    gutil_ring_unref(r);
    if (m.has_free) expect_freed(m.ids, m.n, "unref");
    else MC_CHECK(!nfreed, "free function called");
}

static void small(void) { MAXN = 3; MODN = 5; }
static void big(void) { MAXN = mc_tier == MC_QUICK ? 5 : 6; MODN = MAXN + 1; }

/* Same, but without the operations that only multiply states: reaches more elements */
static const int core_ops[] = { 0, 1, 2, 3, 6, 7, 12, 13, 16, 17, 23, 25, 29, 30 };
static int core_nops(void) { return m.cfg < 0 ? 5 : (int)G_N_ELEMENTS(core_ops); }
static int core_apply(int op)
{
    static const int c[] = { 1, 2, 3, 7, 9 };
    return bfs_apply(m.cfg < 0 ? c[op] : core_ops[op]);
}

/*==========================================================================*
 * Size sweep: (n back puts, k front puts, g gets) then every storage operation
 *==========================================================================*/

#define SW_N 70
static u64 sweep_count(void) { return 4 * (SW_N + 1) * 8 * 4 * 6; }

static void sweep_check(GUtilRing* q, const int* ids, int n)
{
    int i;
    MC_CHECK(gutil_ring_size(q) == n, "size %d, expected %d", gutil_ring_size(q), n);
    for (i = 0; i < n; i++) {
        MC_CHECK(id_of(gutil_ring_data_at(q, i)) == ids[i], "element %d is %d, expected %d", i, id_of(gutil_ring_data_at(q, i)), ids[i]);
    }
    mc_step();
}

static void sweep_run(u64 x)
{
    static const int maxs[] = { -1, 16, 33, 100 };
    static const int gets[] = { 0, 1, 2, 3, 5, 8, 13, 31 };
    const int max = maxs[x % 4];
    const int n = (x / 4) % (SW_N + 1);
    const int g = gets[(x / 4 / (SW_N + 1)) % 8];
    const int k = (int[]){ 0, 1, 7, 20 }[(x / 4 / (SW_N + 1) / 8) % 4];
    const int o = x / 4 / (SW_N + 1) / 8 / 4;
    int ids[256], c = 0, i, first = 300, ok, last = 300;
    GUtilRing* q = gutil_ring_new_full(0, max, elem_free);
    int off = 128;
    int* a = ids + off;

    nfreed = 0;
    for (i = 0; i < n; i++) {
        ok = gutil_ring_put(q, elem + last);
        MC_CHECK(!ok == !(max < 0 || c < max), "put #%d returned %d", i, ok);
        if (ok) { a[c++] = last++; }
        else break;
    }
    for (i = 0; i < g; i++) {
        int id = id_of(gutil_ring_get(q));
        MC_CHECK(id == (c ? a[0] : -1), "get #%d returned %d", i, id);
        if (c) { a++; c--; first = a[0]; if (!c) first = last; }
    }
    for (i = 0; i < k; i++) {
        ok = gutil_ring_put_front(q, elem + first - 1);
        MC_CHECK(!ok == !(max < 0 || c < max), "put_front #%d returned %d", i, ok);
        if (!ok) break;
        a--; a[0] = --first; c++;
    }
    if (!c) first = last;
    sweep_check(q, a, c);
    switch (o) {
    case 0: gutil_ring_compact(q); break;
    case 1: MC_EXPECT(gutil_ring_flatten(q, NULL) || !c); break;
    case 2: gutil_ring_reserve(q, c + 40); break;
    case 3: i = gutil_ring_drop(q, c / 2); MC_CHECK(i == c / 2 && nfreed == i, "drop"); a += i; c -= i; break;
    case 4: i = gutil_ring_drop_last(q, c / 2); MC_CHECK(i == c / 2 && nfreed == i, "drop_last"); c -= i; break;
    case 5: gutil_ring_set_max_size(q, c); MC_CHECK(!gutil_ring_put(q, elem), "put over the limit");
            gutil_ring_set_max_size(q, c + 2); break;
    }
    nfreed = 0;
    sweep_check(q, a, c);
    for (i = 0; i < 2; i++) {
        ok = gutil_ring_put(q, elem + (c ? a[c - 1] + 1 : 500));
        if (ok) { a[c] = c ? a[c - 1] + 1 : 500; c++; }
        MC_CHECK(ok || (max >= 0 && c >= max), "put refused with %d of %d", c, max);
        MC_CHECK(o == 5 || max < 0 || c <= max, "%d elements exceed the limit %d", c, max);
    }
    sweep_check(q, a, c);
    if (c > 3) {
        gpointer* p = gutil_ring_flatten(q, &i);
        MC_EXPECT(i == c);
        for (i = 0; i < c; i++) MC_EXPECT(id_of(p[i]) == a[i]);
        MC_EXPECT(id_of(gutil_ring_get_last(q)) == a[--c]);
    }
    mc_note("n=%d gets=%d front=%d max=%d storage op %d: %d left", n, g, k, max, o, c);
    mc_outcome(((u64)c << 40) ^ ((u64)max << 8) ^ o ^ ((u64)(c ? a[0] : 0) << 20));
    nfreed = 0;
    gutil_ring_unref(q);
    MC_CHECK(nfreed == c, "unref freed %d of %d", nfreed, c);
    for (i = 0; i < c; i++) MC_EXPECT(freed_log[i] == a[i]);
}

/*==========================================================================*
 * Free function which modifies the ring being cleared or shrunk
 *==========================================================================*/

static int re_next, re_budget, re_inside, re_front, re_nfreed, re_ntaken, re_changed;
static char re_state[NE];   /* 1 in ring, 2 freed, 3 returned */
static int re_limit, re_limiting, re_removed;

static void re_take(gpointer p)
{
    if (p) {
        int id = id_of(p);
        MC_CHECK(re_state[id] == 1, "element %d returned but it's in state %d", id, re_state[id]);
        re_state[id] = 3;
        re_ntaken++;
        mc_note("  returned %d", id);
    }
}

static void re_put(int front)
{
    const int id = re_next, fits = re_limit < 0 || gutil_ring_size(r) < re_limit;
    const gboolean ok = front ? gutil_ring_put_front(r, elem + id) : gutil_ring_put(r, elem + id);
    /* The limit may be already in effect (or not) while it's being lowered */
    if (!re_limiting) MC_CHECK(!ok == !fits, "put was %s", ok ? "accepted" : "refused");
    mc_note("  put%s(%d) %s", front ? "_front" : "", id, ok ? "" : "refused");
    if (!ok) return;
    re_state[id] = 1;
    re_next++;
}

static void re_free(gpointer p)
{
    int id = id_of(p);
    MC_CHECK(re_state[id] == 1, "element %d freed but it's in state %d", id, re_state[id]);
    re_state[id] = 2;
    re_nfreed++;
    mc_note("  free(%d)", id);
    if (!re_inside) return;
    if (re_budget-- > 0) {
        const int a = mc_choose(9, "in free function");
        if (a) re_changed = 1;
        if (a == 3 || a == 4 || a == 5 || a == 8) re_removed = 1;
        switch (a) {
        case 0: break;
        case 8: mc_note("  drop"); gutil_ring_drop(r, 1); break;
        case 1: re_put(0); break;
        case 2: re_put(1); re_front = 1; break;
        case 3: mc_note("  clear {"); gutil_ring_clear(r); mc_note("  }"); break;
        case 4: re_take(gutil_ring_get(r)); break;
        case 5: re_take(gutil_ring_get_last(r)); break;
        case 6: mc_note("  compact"); gutil_ring_compact(r); break;
        case 7: mc_note("  reserve"); gutil_ring_reserve(r, 9); break;
        }
    }
}

static void re_check(void)
{
    int i, n = 0;
    char seen[NE];
    memset(seen, 0, sizeof(seen));
    for (i = 0; i < re_next; i++) if (re_state[i] == 1) n++;
    MC_CHECK(gutil_ring_size(r) == n, "size %d but %d elements were neither freed nor returned", gutil_ring_size(r), n);
    for (i = 0; i < n; i++) {
        int id = id_of(gutil_ring_data_at(r, i));
        MC_CHECK(id >= 0 && re_state[id] == 1 && !seen[id], "unexpected element %d at %d", id, i);
        seen[id] = 1;
    }
}

/* The ring's own operation which discards elements */
static int re_discard(int how, int k)
{
    const int before = gutil_ring_size(r), from = re_nfreed;
    int res = 0;
    static const char* const names[] = { "clear", "drop", "drop_last", "set_max_size" };
    mc_note("%s(%d) {", names[how], k);
    re_limiting = how == 3;
    switch (how) {
    case 0: gutil_ring_clear(r); break;
    case 1: res = gutil_ring_drop(r, k); break;
    case 2: res = gutil_ring_drop_last(r, k); break;
    case 3: gutil_ring_set_max_size(r, k); re_limit = k; break;
    }
    mc_note("} => %d", res);
    re_limiting = 0;
    if (how == 1 || how == 2) MC_CHECK(res >= 0 && res <= k && res <= re_nfreed - from + re_ntaken, "dropped %d", res);
    return before;
}

static void re_body(void)
{
    const int how = mc_choose(4, "how");
    int n = mc_choose(4, "elements"), gets = mc_choose(2, "offset"), i, k = 0;
    memset(re_state, 0, sizeof(re_state));
    re_next = re_nfreed = re_ntaken = re_changed = re_limiting = re_removed = 0;
    re_inside = 0;
    re_limit = -1;
    re_budget = mc_tier == MC_QUICK ? 4 : 5;
    r = gutil_ring_new_full(mc_choose(2, "reserve") * 4, -1, re_free);
    for (i = 0; i < n + gets; i++) re_put(0);
    for (i = 0; i < gets; i++) re_take(gutil_ring_get(r));
    re_ntaken = 0;
    re_front = 0;
    if (how) k = how == 3 ? mc_choose(3, "limit") : 1 + mc_choose(3, "count");
    re_inside = 1;
    re_discard(how, k);
    re_check();
    /* Those put in front may be taken for the ones being cleared */
    if (!how) for (i = 0; i < n + gets && !re_front; i++) MC_CHECK(re_state[i] != 1, "element %d wasn't cleared", i);
    /* Only what was there is cleared, unless the free function is removing elements too */
    if (!how && !re_front && !re_removed) for (i = n + gets; i < re_next; i++) MC_CHECK(re_state[i] == 1, "element %d was added while others were being cleared and got cleared too", i);
    if (how == 3) MC_CHECK(gutil_ring_size(r) <= k, "%d elements, the limit is %d", gutil_ring_size(r), k);
    if ((how == 1 || how == 2) && k < n && !re_changed) {
        for (i = 0; i < n; i++) MC_CHECK((re_state[gets + i] == 2) == (how == 1 ? i < k : i >= n - k), "element %d is %s", gets + i, re_state[gets + i] == 2 ? "dropped" : "not dropped");
    }
    if (mc_choose(2, "again")) { re_discard(0, 0); re_check(); }
    re_inside = 0;
    mc_outcome(gutil_ring_size(r) * 100 + re_next);
    mc_steps(2);
    gutil_ring_unref(r);
    for (i = 0; i < re_next; i++) MC_CHECK(re_state[i] != 1, "element %d never released", i);
}

static void null_run(u64 x)
{
    int n = 7;
    mc_note("NULL ring");
    gutil_ring_unref(NULL);
    MC_EXPECT(!gutil_ring_ref(NULL));
    gutil_ring_set_free_func(NULL, elem_free);
    MC_EXPECT(gutil_ring_max_size(NULL) == 0);
    gutil_ring_set_max_size(NULL, 3);
    MC_EXPECT(gutil_ring_size(NULL) == 0);
    gutil_ring_clear(NULL);
    gutil_ring_compact(NULL);
    MC_EXPECT(!gutil_ring_reserve(NULL, 1));
    MC_EXPECT(!gutil_ring_can_put(NULL, 0));
    MC_EXPECT(!gutil_ring_put(NULL, elem));
    MC_EXPECT(!gutil_ring_put_front(NULL, elem));
    MC_EXPECT(!gutil_ring_get(NULL));
    MC_EXPECT(!gutil_ring_get_last(NULL));
    MC_EXPECT(!gutil_ring_drop(NULL, 1));
    MC_EXPECT(!gutil_ring_drop_last(NULL, 1));
    MC_EXPECT(!gutil_ring_data_at(NULL, 0));
    MC_EXPECT(!gutil_ring_flatten(NULL, &n) && n == 0);
    MC_EXPECT(!gutil_ring_flatten(NULL, NULL));
}
static u64 one(void) { return 1; }

/*==========================================================================*
 * Long rings
 *==========================================================================*/

static const int long_n[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
#define NLOPS 10
static gpointer* long_freed;
static int long_nfreed;
static char long_elem[200000];
static void long_free(gpointer p) { if (long_freed) { MC_CHECK(long_nfreed < 160000, "too many elements freed"); long_freed[long_nfreed] = p; } long_nfreed++; }

static void long_check(GUtilRing* q, const gpointer* a, int n, const char* when)
{
    int i;
    MC_CHECK(gutil_ring_size(q) == n, "%s: size %d, expected %d", when, gutil_ring_size(q), n);
    for (i = 0; i < n; i++) MC_CHECK(gutil_ring_data_at(q, i) == a[i], "%s: element %d of %d is wrong", when, i, n);
    MC_CHECK(!gutil_ring_data_at(q, n) && !gutil_ring_data_at(q, -1), "%s: data_at out of range", when);
    mc_step();
}

static u64 long_count(void) { return (u64)NLONG * NLOPS * 2 * 3; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], o = x / NLONG % NLOPS, limited = x / NLONG / NLOPS % 2, g = (int[]){ 0, 1, n / 2 + 1 }[x / NLONG / NLOPS / 2];
    gpointer* buf = g_new(gpointer, 300000);
    gpointer* a = buf + 100000;
    gpointer* log = g_new(gpointer, 160000);
    int c = 0, i, k, first = 100000, last = 100000;
    GUtilRing* q = gutil_ring_new_full(0, limited ? n : -1, long_free);

    long_freed = log; long_nfreed = 0;
    mc_note("%d elements, limit %d, %d gets, operation %d", n, limited ? n : -1, g, o);
    for (i = 0; i < n; i++) { MC_CHECK(gutil_ring_put(q, long_elem + last), "put #%d refused", i); a[c++] = long_elem + last++; }
    MC_CHECK(!gutil_ring_can_put(q, 1) == limited && gutil_ring_can_put(q, 0), "can_put of a full ring");
    for (i = 0; i < g; i++) { MC_CHECK(gutil_ring_get(q) == a[0], "get #%d is wrong", i); a++; c--; first++; }
    for (i = 0; i < g / 2; i++) { MC_CHECK(gutil_ring_put(q, long_elem + last), "put after get refused"); a[c++] = long_elem + last++; }
    for (i = 0; i < g - g / 2; i++) { MC_CHECK(gutil_ring_put_front(q, long_elem + --first), "put_front after get refused"); *--a = long_elem + first; c++; }
    MC_CHECK(!gutil_ring_can_put(q, 1) == limited, "can_put");
    if (limited) MC_CHECK(!gutil_ring_put(q, long_elem) && !gutil_ring_put_front(q, long_elem) && gutil_ring_max_size(q) == n, "limit of %d", n);
    long_check(q, a, c, "filled");
    switch (o) {
    case 0: gutil_ring_compact(q); break;
    case 1: { gpointer* f = gutil_ring_flatten(q, &k); MC_CHECK(k == c && !memcmp(f, a, c * sizeof(*a)), "flatten"); break; }
    case 2: MC_CHECK(!gutil_ring_reserve(q, 2 * n) == limited, "reserve"); break;
    case 3: k = n - 3; MC_CHECK(gutil_ring_drop(q, k) == k, "drop"); MC_CHECK(long_nfreed == k && !memcmp(log, a, k * sizeof(*a)), "drop freed something else"); a += k; c -= k; break;
    case 4: k = n - 3; MC_CHECK(gutil_ring_drop_last(q, k) == k, "drop_last"); MC_CHECK(long_nfreed == k, "drop_last freed %d", long_nfreed);
        for (i = 0; i < k; i++) MC_CHECK(log[i] == a[c - 1 - i], "drop_last order"); c -= k; break;
    case 5: k = n / 3; gutil_ring_set_max_size(q, k); MC_CHECK(long_nfreed == n - k && !memcmp(log, a, (n - k) * sizeof(*a)), "the new limit freed something else");
        a += n - k; c = k; MC_CHECK(!gutil_ring_can_put(q, 1), "can_put"); break;
    case 6: gutil_ring_clear(q); MC_CHECK(long_nfreed == n && !memcmp(log, a, n * sizeof(*a)), "clear"); c = 0; break;
    case 7: for (i = 0; i < n; i++) MC_CHECK(gutil_ring_get_last(q) == a[c - 1 - i], "get_last #%d", i); c = 0; MC_CHECK(!gutil_ring_get(q), "get from an empty ring"); break;
    case 8: for (i = 0; i < n; i++) MC_CHECK(gutil_ring_get(q) == a[i], "get #%d", i); c = 0; MC_CHECK(!gutil_ring_get_last(q), "get_last from an empty ring"); break;
    case 9: gutil_ring_set_max_size(q, n + 1); MC_CHECK(gutil_ring_can_put(q, 1) && !gutil_ring_can_put(q, 2) && gutil_ring_put(q, long_elem + last), "one more element"); a[c++] = long_elem + last;
        MC_CHECK(!gutil_ring_put(q, long_elem), "two more elements"); break;
    }
    long_check(q, a, c, "then");
    k = long_nfreed = 0;
    mc_outcome(x);
    gutil_ring_unref(q);
    MC_CHECK(long_nfreed == c && !memcmp(log, a, c * sizeof(*a)), "unref freed %d of %d", long_nfreed, c);
    long_freed = NULL;
    g_free(log);
    g_free(buf);
}

#define BFS(nm, about_, setup_, dq, dt) { .name = nm, .kind = MC_BFS, .about = about_, \
    .create = bfs_create, .nops = bfs_nops, .apply = bfs_apply, .key = bfs_key, .destroy = bfs_destroy, \
    .depth_quick = dq, .depth_thorough = dt, .setup = setup_ }
#define CORE(nm, about_, setup_, dq, dt) { .name = nm, .kind = MC_BFS, .about = about_, \
    .create = bfs_create, .nops = core_nops, .apply = core_apply, .key = bfs_key, .destroy = bfs_destroy, \
    .depth_quick = dq, .depth_thorough = dt, .setup = setup_ }

const McSuite mc_suites[] = {
    BFS("C08.ops", "one ring, 11 initial configurations, 38 operations, up to 3 elements, lockstep with an ideal deque", small, 8, 30),
    CORE("C08.core", "one ring, 14 operations, up to 5 (6) elements", big, 12, 40),
    { .name = "C08.sweep", .kind = MC_FAMILY, .about = "0..70 puts x gets x front puts x limits x storage operations",
      .count = sweep_count, .run = sweep_run, .split = 4 },
    { .name = "C08.long", .kind = MC_FAMILY, .about = "19 sizes 255..70000 x limit or none x wrapped or not x 10 operations",
      .count = long_count, .run = long_run, .split = 4 },
    { .name = "C09.long", .kind = MC_FAMILY, .about = "19 sizes 255..70000 x limit or none x wrapped or not x 10 operations",
      .count = long_count, .run = long_run, .split = 4 },
    { .name = "C08.null", .kind = MC_FAMILY, .about = "absent ring", .count = one, .run = null_run },
    BFS("C09.ops", "limit, can-put and free-order oracle over all histories", small, 8, 30),
    { .name = "C09.sweep", .kind = MC_FAMILY, .about = "0..70 puts x gets x front puts x limits x storage operations",
      .count = sweep_count, .run = sweep_run, .split = 4 },
    { .name = "C09.reentrant", .kind = MC_DFS, .about = "every script of a free function modifying the ring which is discarding elements (clear, drop, lower limit)",
      .body = re_body, .dev_quick = -1, .dev_thorough = -1 },
    { NULL }
};
