/* Value history: C14 */
#include "mc.h"
#include "gutil_history.h"

static GUtilIntHistory* h;
static gint64 now_;
static int clock_reads;
static gint64 clk(void) { clock_reads++; return now_; }

typedef struct { int max; gint64 interval; gint64 scale, start; } Cfg;
static const Cfg cfgs[] = {
    { 1, 2, 1 }, { 2, 3, 1 }, { 3, 4, 1 }, { 4, 3, 1 }, { 5, 100, 1 },
    { 3, 4, G_GINT64_CONSTANT(3600000000) }, { 4, 1, 1 }, { 3, 4, G_GINT64_CONSTANT(1000000000000000) },
    /* Clocks which don't count from the boot, unlimited spans */
    { 3, 4, 1, -3 }, { 3, G_MAXINT64, 1, -3 }, { 3, G_MAXINT64 - 2, 1, 1 }, { 2, G_MAXINT64, 1, G_MININT64 + 30 }, { 3, 4, 1, G_MININT64 + 30 },
    { 3, 4, 1, G_MAXINT64 - 200 }, { 3, G_MAXINT64, 1, G_MAXINT64 - 200 }
};
#define NCFG ((int)G_N_ELEMENTS(cfgs))

static struct {
    int cfg, refs, n;
    gint64 t[16];
    int v[16];
    u64 pushes;
} m;

static const int vals[] = { INT_MIN, 0, INT_MAX, 7, -3 };
static int NVALS;
enum { ADD, SIZE, INTERVAL, MEDIAN, CLEAR, REF, UNREF };
typedef struct { int op, d, v; } Op;
static Op ops[128];
static int nops_;

static void setup(void)
{
    static const int d[] = { 1, 0, 2, 5, -1, -2 };
    int i, j;
    nops_ = 0;
    NVALS = mc_tier == MC_QUICK ? 3 : 4;
    for (i = 0; i < 6; i++) for (j = 0; j < NVALS; j++) ops[nops_++] = (Op){ ADD, d[i], j };
    for (i = 0; i < 4; i++) {
        ops[nops_++] = (Op){ SIZE, d[i], 0 };
        ops[nops_++] = (Op){ INTERVAL, d[i], 0 };
        ops[nops_++] = (Op){ MEDIAN, d[i], 0 };
        ops[nops_++] = (Op){ MEDIAN, d[i], 1 };
    }
    ops[nops_++] = (Op){ CLEAR, 0, 0 };
    ops[nops_++] = (Op){ REF, 0, 0 };
    ops[nops_++] = (Op){ UNREF, 0, 0 };
}

static void create(void)
{
    h = NULL;
    memset(&m, 0, sizeof(m));
    m.cfg = -1;
}

static int nops(void) { return m.cfg < 0 ? NCFG : nops_; }

static void expire(void)
{
    while (m.n && m.t[0] < (__int128)now_ - cfgs[m.cfg].interval * cfgs[m.cfg].scale) {
        m.n--;
        memmove(m.t, m.t + 1, sizeof(m.t[0]) * m.n);
        memmove(m.v, m.v + 1, sizeof(m.v[0]) * m.n);
    }
}

/* Within rounding (up or down). An average which is an integer is exact unless the numbers are too large for that */
static void near_avg(int r, __int128 area, __int128 T, __int128 mag, const char* what, int n)
{
    __int128 d = (__int128)r * 2 * T - area;
    if (d < 0) d = -d;
    MC_CHECK((mag >> 51) ? d <= 2 * T + T / 500 : d < 2 * T, "%s (%d): returned %d, too far from the average %.3f", what, n, r, (double)area / 2 / (double)T);
}

static void check_avg(int r, const char* what)
{
    int i, lo, hi;
    __int128 area = 0, mag = 0, T, d;
    if (m.n == 1) { MC_CHECK(r == m.v[0], "%s returned %d, the only value is %d", what, r, m.v[0]); return; }
    lo = hi = m.v[0];
    for (i = 1; i < m.n; i++) {
        d = (__int128)(m.t[i] - m.t[i - 1]) * ((gint64)m.v[i] + m.v[i - 1]);
        area += d;
        mag += d < 0 ? -d : d;
        lo = MIN(lo, m.v[i]); hi = MAX(hi, m.v[i]);
    }
    T = m.t[m.n - 1] - m.t[0];
    MC_CHECK(r >= lo && r <= hi, "%s returned %d, out of the range %d..%d", what, r, lo, hi);
    near_avg(r, area, T, mag, what, m.n);
}

static int apply(int op)
{
    int r, i;
    if (m.cfg < 0) {
        const Cfg* c = cfgs + op;
        m.cfg = op;
        m.refs = 1;
        now_ = c->start ? c->start : 1000 * c->scale;
        h = gutil_int_history_new_full(c->max, c->interval * c->scale, clk);
        MC_EXPECT(h != NULL);
        mc_note("new(%d, %lld) scale %lld", c->max, (long long)c->interval * c->scale, (long long)c->scale);
        return 1;
    }
    now_ += ops[op].d * cfgs[m.cfg].scale;
    if (m.n && now_ < m.t[m.n - 1] && (ops[op].d >= 0)) {
        /* Still behind the last sample */
        if (ops[op].op == INTERVAL) { now_ -= ops[op].d * cfgs[m.cfg].scale; return 0; }
    }
    if (!cfgs[m.cfg].start && now_ < 900 * cfgs[m.cfg].scale) return 0;
    switch (ops[op].op) {
    case ADD:
        r = gutil_int_history_add(h, vals[ops[op].v]);
        expire();
        if (!m.n || now_ > m.t[m.n - 1]) {
            if (m.n == cfgs[m.cfg].max) {
                m.n--;
                memmove(m.t, m.t + 1, sizeof(m.t[0]) * m.n);
                memmove(m.v, m.v + 1, sizeof(m.v[0]) * m.n);
            }
            if (m.n) m.pushes++; else m.pushes = 0;
            m.t[m.n] = now_;
            m.v[m.n++] = vals[ops[op].v];
        } else m.v[m.n - 1] = vals[ops[op].v];
        mc_note("t=%lld add(%d) => %d", (long long)now_, vals[ops[op].v], r);
        check_avg(r, "add");
        break;
    case SIZE:
        r = gutil_int_history_size(h);
        expire();
        mc_note("t=%lld size => %d", (long long)now_, r);
        MC_CHECK(r == m.n, "size is %d, expected %d", r, m.n);
        break;
    case INTERVAL: {
        gint64 x = gutil_int_history_interval(h);
        gint64 e;
        expire();
        e = m.n ? now_ - m.t[0] : 0;
        mc_note("t=%lld interval => %lld", (long long)now_, (long long)x);
        MC_CHECK(x == e, "interval is %lld, expected %lld", (long long)x, (long long)e);
        break;
    }
    case MEDIAN: {
        const int def = ops[op].v ? 12345 : INT_MIN;
        r = gutil_int_history_median(h, def);
        expire();
        mc_note("t=%lld median => %d", (long long)now_, r);
        if (m.n) check_avg(r, "median");
        else MC_CHECK(r == def, "median of nothing is %d", r);
        break;
    }
    case CLEAR: gutil_int_history_clear(h); m.n = 0; m.pushes = 0; mc_note("clear"); break;
    case REF: if (m.refs > 1) return 0; MC_EXPECT(gutil_int_history_ref(h) == h); m.refs++; break;
    case UNREF: if (m.refs < 2) return 0; gutil_int_history_unref(h); m.refs--; break;
    }
    for (i = 1; i < m.n; i++) MC_EXPECT(m.t[i] > m.t[i - 1]);
    return 1;
}

static void key_full(void) { mc_key_int(m.cfg); mc_key_int(now_); mc_key_ptr(h); mc_key_bytes(&m, sizeof(m)); }

/* Time shift invariant, knows the position in the ring */
static void key_shift(void)
{
    int i;
    mc_key_int(m.cfg); mc_key_int(m.refs); mc_key_int(m.n);
    if (m.cfg >= 0) {
        mc_key_int(m.pushes % cfgs[m.cfg].max);
        for (i = 0; i < m.n; i++) { mc_key_int((m.t[i] - now_) / cfgs[m.cfg].scale); mc_key_int(m.v[i]); }
    }
}

static void destroy(void) { while (m.refs-- > 0) gutil_int_history_unref(h); }

static void create_shift(void) { create(); }
static int nops_shift(void) { return m.cfg < 0 ? 4 : nops_; }

/* Larger histories */
static u64 sweep_count(void) { return 40 * 6; }
static void sweep_run(u64 x)
{
    static const int sizes[] = { 1, 2, 7, 16, 17, 100 };
    const int max = sizes[x % 6], step = x / 6;
    GUtilIntHistory* q = gutil_int_history_new_full(max, 50, clk);
    gint64 t[300];
    int v[300], n = 0, first = 0, i, k;
    now_ = 5000;
    for (i = 0; i < 260; i++) {
        const int val = (i * 7919 * (step + 1)) % 1000 - 500;
        int r;
        now_ += 1 + (i * step) % 5 + ((i % 41) == 40 ? 60 : 0);
        r = gutil_int_history_add(q, val);
        t[n] = now_; v[n++] = val;
        while (t[first] < now_ - 50 || n - first > max) first++;
        MC_CHECK((int)gutil_int_history_size(q) == n - first, "size %u, expected %d", gutil_int_history_size(q), n - first);
        MC_CHECK(gutil_int_history_interval(q) == now_ - t[first], "interval");
        MC_CHECK(gutil_int_history_median(q, 0) == r, "median");
        m.n = 0; m.cfg = 0;
        if (n - first <= 16) {
            for (k = first; k < n; k++) { m.t[m.n] = t[k]; m.v[m.n++] = v[k]; }
            check_avg(r, "add");
        }
        mc_step();
    }
    mc_note("max %d, step %d: %d samples in the window at the end", max, step, n - first);
    mc_outcome(x);
    gutil_int_history_unref(q);
}

/* Long histories: n samples per window, twice as many added */
static const int long_n[] = { 17, 64, 255, 256, 257, 1000, 1025, 4097, 8193, 16385, 32767, 32768, 65535, 65536 };
#define NLONG (mc_tier == MC_QUICK ? 8 : (int)G_N_ELEMENTS(long_n))
/* Adding a sample is linear, the longest one comes once */
static u64 long_count(void) { return NLONG * 3 + 1; }
static void long_run(u64 x)
{
    const int max = x ? long_n[(x - 1) % NLONG] : 65537, mode = x ? (x - 1) / NLONG : 0;
    const int total = x ? 2 * max + 5 : max + 200;
    /* Limited by the number, by the time, extreme values */
    GUtilIntHistory* q = gutil_int_history_new_full(mode == 1 ? 2 * max : max, mode == 1 ? 3 * max : G_MAXINT64 / 4, clk);
    gint64* t = g_new(gint64, 2 * max + 5);
    int* v = g_new(int, 2 * max + 5);
    int i, n = 0, first = 0;
    __int128 area = 0;  /* Doubled */
    mc_note("%d samples, mode %d", max, mode);
    now_ = 1000;
    for (i = 0; i < total; i++) {
        int r;
        __int128 T;
        now_ += mode == 1 ? 3 : 1 + (i & 3);
        t[n] = now_;
        v[n] = mode == 2 ? ((i & 1) ? INT_MAX - (i & 7) : INT_MIN + i) : (int)(((guint)i * 40503u) % 100003) - 50000;
        r = gutil_int_history_add(q, v[n]);
        if (n) area += (__int128)(t[n] - t[n - 1]) * ((gint64)v[n] + v[n - 1]);
        n++;
        while (n - first > (mode == 1 ? 2 * max : max) || (mode == 1 && t[first] < now_ - 3 * max)) {
            area -= (__int128)(t[first + 1] - t[first]) * ((gint64)v[first + 1] + v[first]);
            first++;
        }
        if ((i & 255) < 3 || i > total - 6 || ABS(i - max) < 4) {
            MC_CHECK((int)gutil_int_history_size(q) == n - first, "size %u, expected %d", gutil_int_history_size(q), n - first);
            MC_CHECK(gutil_int_history_interval(q) == t[n - 1] - t[first], "interval of sample %d", i);
            MC_CHECK(gutil_int_history_median(q, 0) == r, "median after sample %d", i);
        }
        T = t[n - 1] - t[first];
        if (T) {
            near_avg(r, area, T, T << 32, "sample", i);
        } else {
            MC_CHECK(r == v[n - 1], "sample %d: returned %d, the only value is %d", i, r, v[n - 1]);
        }
    }
    mc_steps(n);
    gutil_int_history_clear(q);
    MC_CHECK(!gutil_int_history_size(q), "size after clear");
    MC_CHECK(gutil_int_history_add(q, 5) == 5 && gutil_int_history_size(q) == 1, "add after clear");
    gutil_int_history_unref(q);
    g_free(t);
    g_free(v);
    mc_outcome(x);
}

static u64 one(void) { return 1; }
static void null_run(u64 x)
{
    int i;
    MC_EXPECT(!gutil_int_history_new(0, 1) && !gutil_int_history_new(1, 0) && !gutil_int_history_new(-1, 1) && !gutil_int_history_new_full(1, -1, clk));
    MC_EXPECT(!gutil_int_history_ref(NULL));
    gutil_int_history_unref(NULL);
    gutil_int_history_clear(NULL);
    MC_EXPECT(gutil_int_history_size(NULL) == 0 && gutil_int_history_interval(NULL) == 0 && gutil_int_history_add(NULL, 5) == 0);
    MC_EXPECT(gutil_int_history_median(NULL, 77) == 77);
    for (i = 0; i < 2; i++) {
        /* The default clock */
        GUtilIntHistory* q = i ? gutil_int_history_new_full(3, G_MAXINT64, NULL) : gutil_int_history_new(3, G_GINT64_CONSTANT(1) << 60);
        gint64 t1 = g_get_monotonic_time(), t2, d;
        MC_EXPECT(gutil_int_history_add(q, 5) == 5);
        g_usleep(2000);
        MC_EXPECT(gutil_int_history_add(q, 5) == 5);
        MC_EXPECT(gutil_int_history_size(q) == 2);
        d = gutil_int_history_interval(q);
        t2 = g_get_monotonic_time();
        MC_CHECK(d >= 2000 && d <= t2 - t1, "interval %d", (int)d);
        gutil_int_history_unref(q);
    }
    mc_note("absent history, invalid parameters, default clock");
}

const McSuite mc_suites[] = {
    { .name = "C14.ops", .kind = MC_BFS, .about = "15 configurations (size 1..5, spans from ticks to years and unlimited, clocks anywhere in 64 bits), samples over {INT_MIN,0,INT_MAX,..}, clock steps -2..+5, every query at every point",
      .create = create, .nops = nops, .apply = apply, .key = key_full, .destroy = destroy, .setup = setup, .depth_quick = 5, .depth_thorough = 6 },
    { .name = "C14.shift", .kind = MC_BFS, .about = "4 configurations, states modulo time shift: deeper",
      .create = create_shift, .nops = nops_shift, .apply = apply, .key = key_shift, .destroy = destroy, .setup = setup, .depth_quick = 9, .depth_thorough = 60 },
    { .name = "C14.sweep", .kind = MC_FAMILY, .about = "6 sizes x 40 sample sequences of 260", .count = sweep_count, .run = sweep_run },
    { .name = "C14.long", .kind = MC_FAMILY, .about = "capacities 17..4097 and 65537 (14 up to 65537) (limited by number, by time, extreme values), twice as many samples: size, interval and exact average", .count = long_count, .run = long_run, .split = 4, .slow_s = 120 },
    { .name = "C14.null", .kind = MC_FAMILY, .about = "absent history, invalid parameters", .count = one, .run = null_run },
    { NULL }
};
