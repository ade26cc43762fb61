/* Mutable integer array: C10 */
#include "mc.h"
#include "gutil_intarray.h"
#include "gutil_ints.h"

static GUtilIntArray* a;
static struct { int exists, n, v[32], refs; } m;
static int MAXN;

static const int vals[] = { INT_MIN, 0, INT_MAX };
#define NV 3

enum {
    NEW, SIZED, FROMVALS, FROMVALUE,
    APPEND, PREPEND, APPENDV, PREPENDV, INSERT, INSERTV, SETCOUNT,
    REMOVE, REMOVEF, REMALL, REMALLF, REMIDX, REMIDXF, REMRANGE,
    SORTA, SORTD, REF, UNREF, FREE, FREEKEEP, TOINTS
};
/* Symbolic positions/counts: 100 means n-1, 101 n, 102 n+1, 103 UINT_MAX, 104 UINT_MAX-1, 105 0x80000000 */
typedef struct { int op, x, y; } Op;
static Op ops[512];
static int nops_;

static guint sym(int x)
{
    switch (x) {
    case 100: return m.n ? m.n - 1 : 0;
    case 101: return m.n;
    case 102: return m.n + 1;
    case 103: return UINT_MAX;
    case 104: return UINT_MAX - 1;
    case 105: return 0x80000000u;
    }
    return x;
}

static void add(int op, int x, int y) { Op o = { op, x, y }; ops[nops_++] = o; }

static void setup(void)
{
    static const int pos[] = { 0, 1, 100, 101, 103, 104, 105 };
    static const int cnt[] = { 0, 1, 2, 100, 103, 104, 105 };
    int i, j;
    nops_ = 0;
    add(NEW, 0, 0); add(SIZED, 0, 0); add(SIZED, 3, 0);
    add(FROMVALS, 0, 0); add(FROMVALS, 1, 0); add(FROMVALS, 2, 0); add(FROMVALUE, 2, 0);
    for (i = 0; i < NV; i++) {
        add(APPEND, i, 0); add(PREPEND, i, 0);
        add(REMOVE, i, 0); add(REMOVEF, i, 0); add(REMALL, i, 0); add(REMALLF, i, 0);
        add(INSERT, 0, i); add(INSERT, 1, i); add(INSERT, 101, i);
    }
    for (i = 0; i < 3; i++) { add(APPENDV, i, 0); add(PREPENDV, i, 0); add(INSERTV, 1, i); }
    for (i = 0; i < 5; i++) add(SETCOUNT, (int[]){ 0, 1, 100, 101, 102 }[i], 0);
    for (i = 0; i < (int)G_N_ELEMENTS(pos); i++) {
        add(REMIDX, pos[i], 0); add(REMIDXF, pos[i], 0);
        for (j = 0; j < (int)G_N_ELEMENTS(cnt); j++) add(REMRANGE, pos[i], cnt[j]);
    }
    add(SORTA, 0, 0); add(SORTD, 0, 0); add(REF, 0, 0); add(UNREF, 0, 0);
    add(FREE, 0, 0); add(FREEKEEP, 0, 0); add(TOINTS, 0, 0);
    MAXN = mc_tier == MC_QUICK ? 5 : 6;
}

static void create(void) { a = NULL; memset(&m, 0, sizeof(m)); }
static int nops(void) { return nops_; }

static int find(int v)
{
    int i;
    for (i = 0; i < m.n; i++) if (m.v[i] == v) return i;
    return -1;
}

static void erase(int pos, int n)
{
    memmove(m.v + pos, m.v + pos + n, sizeof(int) * (m.n - pos - n));
    m.n -= n;
}

static void ins(int pos, const int* v, int n)
{
    memmove(m.v + pos + n, m.v + pos, sizeof(int) * (m.n - pos));
    memcpy(m.v + pos, v, sizeof(int) * n);
    m.n += n;
}

static int cmp_asc(const void* x, const void* y) { int p = *(int*)x, q = *(int*)y; return p < q ? -1 : p > q; }
static int cmp_desc(const void* x, const void* y) { return cmp_asc(y, x); }

/* Fast removal at pos: either of the two outcomes is fine */
static void fast(int pos)
{
    int alt[32];
    memcpy(alt, m.v, sizeof(alt));
    alt[pos] = alt[m.n - 1];
    erase(pos, 1);
    if ((int)a->count == m.n && memcmp(a->data, m.v, sizeof(int) * m.n)) memcpy(m.v, alt, sizeof(int) * m.n);
}

static void show(const char* what, int x, int y)
{
    char s[300] = "";
    int i, k = 0;
    if (!mc_verbose) return;
    for (i = 0; i < m.n; i++) k += snprintf(s + k, sizeof(s) - k, " %d", m.v[i]);
    mc_note("%s(%d,%d) => expect [%s ]%s", what, x, y, s, m.exists ? "" : " (none)");
}

static void observe(void)
{
    int i;
    if (!m.exists) return;
    MC_CHECK((int)a->count == m.n, "count %u, expected %d", a->count, m.n);
    for (i = 0; i < m.n; i++) MC_CHECK(a->data[i] == m.v[i], "element %d is %d, expected %d", i, a->data[i], m.v[i]);
    for (i = 0; i < NV; i++) {
        int p = find(vals[i]);
        MC_CHECK(gutil_int_array_find(a, vals[i]) == p, "find(%d) isn't %d", vals[i], p);
        MC_CHECK(!gutil_int_array_contains(a, vals[i]) == (p < 0), "contains(%d)", vals[i]);
    }
    MC_EXPECT(gutil_int_array_find(a, 12345) == find(12345));
}

static void sync_grown(int from)
{
    /* Contents of the new elements isn't specified; make it definite */
    int i;
    for (i = from; i < m.n; i++) a->data[i] = m.v[i] = 0;
}

static int apply(int op)
{
    const int o = ops[op].op, x = ops[op].x, y = ops[op].y;
    GUtilIntArray* r = a;
    const int two[3][2] = { { INT_MAX, INT_MIN }, { 0, 0 }, { INT_MIN, 0 } };
    guint p, c;
    int i, n, k;

    if (!m.exists) {
        if (o < APPEND) {
            switch (o) {
            case NEW: a = gutil_int_array_new(); break;
            case SIZED: a = gutil_int_array_sized_new(x); break;
            case FROMVALS: {
                int* src = mc_exact(two[0], x * sizeof(int));
                a = gutil_int_array_new_from_vals(src, x);
                m.n = x; memcpy(m.v, two[0], sizeof(int) * x);
                free(src);
                break;
            }
            case FROMVALUE: a = gutil_int_array_new_from_value(vals[x]); m.n = 1; m.v[0] = vals[x]; break;
            }
            m.exists = 1;
            m.refs = 1;
            MC_CHECK(a != NULL, "no array");
            show("new", o, x);
            observe();
            return 1;
        }
        /* Absent array */
        switch (o) {
        case APPEND: r = gutil_int_array_append(NULL, 1); break;
        case PREPEND: r = gutil_int_array_prepend(NULL, 1); break;
        case APPENDV: r = gutil_int_array_append_vals(NULL, two[0], 2); break;
        case PREPENDV: r = gutil_int_array_prepend_vals(NULL, two[0], 2); break;
        case INSERT: r = gutil_int_array_insert(NULL, 0, 1); break;
        case INSERTV: r = gutil_int_array_insert_vals(NULL, 0, two[0], 2); break;
        case SETCOUNT: r = gutil_int_array_set_count(NULL, x); break;
        case REMOVE: MC_EXPECT(!gutil_int_array_remove(NULL, 0)); break;
        case REMOVEF: MC_EXPECT(!gutil_int_array_remove_fast(NULL, 0)); break;
        case REMALL: MC_EXPECT(!gutil_int_array_remove_all(NULL, 0)); break;
        case REMALLF: MC_EXPECT(!gutil_int_array_remove_all_fast(NULL, 0)); break;
        case REMIDX: r = gutil_int_array_remove_index(NULL, sym(x)); break;
        case REMIDXF: r = gutil_int_array_remove_index_fast(NULL, sym(x)); break;
        case REMRANGE: r = gutil_int_array_remove_range(NULL, sym(x), sym(y)); break;
        case SORTA: gutil_int_array_sort_ascending(NULL); break;
        case SORTD: gutil_int_array_sort_descending(NULL); break;
        case REF: MC_EXPECT(!gutil_int_array_ref(NULL)); break;
        case UNREF: gutil_int_array_unref(NULL); break;
        case FREE: MC_EXPECT(!gutil_int_array_free(NULL, TRUE)); break;
        case FREEKEEP: MC_EXPECT(!gutil_int_array_free(NULL, FALSE)); break;
        case TOINTS: MC_EXPECT(!gutil_int_array_free_to_ints(NULL)); break;
        }
        MC_EXPECT(!r);
        MC_EXPECT(gutil_int_array_find(NULL, 0) == -1 && !gutil_int_array_contains(NULL, 0));
        mc_note("absent array, op %d", o);
        return 1;
    }
    if (o < APPEND) return 0;
    switch (o) {
    case APPEND: if (m.n + 1 > MAXN) return 0; r = gutil_int_array_append(a, vals[x]); ins(m.n, vals + x, 1); break;
    case PREPEND: if (m.n + 1 > MAXN) return 0; r = gutil_int_array_prepend(a, vals[x]); ins(0, vals + x, 1); break;
    case APPENDV: if (m.n + x > MAXN) return 0; r = gutil_int_array_append_vals(a, two[0], x); ins(m.n, two[0], x); break;
    case PREPENDV: if (m.n + x > MAXN) return 0; r = gutil_int_array_prepend_vals(a, two[0], x); ins(0, two[0], x); break;
    case INSERT:
        p = sym(x);
        if (m.n + 1 > MAXN || (int)p > m.n) return 0;
        r = gutil_int_array_insert(a, p, vals[y]); ins(p, vals + y, 1);
        break;
    case INSERTV:
        if (m.n + 2 > MAXN || x > m.n) return 0;
        r = gutil_int_array_insert_vals(a, x, two[y], 2); ins(x, two[y], 2);
        break;
    case SETCOUNT:
        p = sym(x);
        if ((int)p > MAXN) return 0;
        r = gutil_int_array_set_count(a, p);
        n = m.n; m.n = p;
        MC_EXPECT(a->count == p);
        sync_grown(n);
        break;
    case REMOVE: case REMOVEF:
        p = find(vals[x]);
        n = o == REMOVE ? gutil_int_array_remove(a, vals[x]) : gutil_int_array_remove_fast(a, vals[x]);
        MC_CHECK(!n == ((int)p < 0), "remove(%d) returned %d", vals[x], n);
        if ((int)p >= 0) { if (o == REMOVE) erase(p, 1); else fast(p); }
        break;
    case REMALL:
        c = gutil_int_array_remove_all(a, vals[x]);
        for (n = 0; (i = find(vals[x])) >= 0; n++) erase(i, 1);
        MC_CHECK((int)c == n, "remove_all(%d) returned %u, expected %d", vals[x], c, n);
        break;
    case REMALLF: {
        int rest[32], got[32];
        c = gutil_int_array_remove_all_fast(a, vals[x]);
        for (n = 0; (i = find(vals[x])) >= 0; n++) erase(i, 1);
        MC_CHECK((int)c == n, "remove_all_fast(%d) returned %u, expected %d", vals[x], c, n);
        MC_CHECK((int)a->count == m.n, "count %u, expected %d", a->count, m.n);
        memcpy(rest, m.v, sizeof(rest)); memcpy(got, a->data, sizeof(int) * m.n);
        qsort(rest, m.n, sizeof(int), cmp_asc); qsort(got, m.n, sizeof(int), cmp_asc);
        MC_CHECK(!memcmp(rest, got, sizeof(int) * m.n), "remove_all_fast lost or invented elements");
        if (!n) MC_CHECK(!memcmp(m.v, a->data, sizeof(int) * m.n), "remove_all_fast reordered for nothing");
        memcpy(m.v, a->data, sizeof(int) * m.n);
        break;
    }
    case REMIDX: p = sym(x); r = gutil_int_array_remove_index(a, p); if (p < (guint)m.n) erase(p, 1); break;
    case REMIDXF: p = sym(x); r = gutil_int_array_remove_index_fast(a, p); if (p < (guint)m.n) fast(p); break;
    case REMRANGE:
        p = sym(x); c = sym(y);
        r = gutil_int_array_remove_range(a, p, c);
        if (p < (guint)m.n) erase(p, MIN(c, m.n - p));
        break;
    case SORTA: gutil_int_array_sort_ascending(a); qsort(m.v, m.n, sizeof(int), cmp_asc); break;
    case SORTD: gutil_int_array_sort_descending(a); qsort(m.v, m.n, sizeof(int), cmp_desc); break;
    case REF: if (m.refs > 1) return 0; MC_EXPECT(gutil_int_array_ref(a) == a); m.refs++; break;
    case UNREF: gutil_int_array_unref(a); if (!--m.refs) { a = r = NULL; m.exists = m.n = 0; } break;
    case FREE: case FREEKEEP: {
        int* d;
        if (m.refs > 1) return 0;
        d = gutil_int_array_free(a, o == FREE);
        if (o == FREE || !m.n) MC_CHECK(!d, "data returned");
        else {
            MC_CHECK(d != NULL, "no data");
            for (i = 0; i < m.n; i++) MC_CHECK(d[i] == m.v[i], "data[%d]", i);
            g_free(d);
        }
        a = r = NULL; m.exists = m.n = m.refs = 0;
        break;
    }
    case TOINTS: {
        GUtilInts* t;
        const int* d;
        if (m.refs > 1) return 0;
        t = gutil_int_array_free_to_ints(a);
        MC_CHECK(!t == !m.n, "ints %p from %d elements", t, m.n);
        if (t) {
            d = gutil_ints_get_data(t, &c);
            MC_CHECK((int)c == m.n, "%u ints, expected %d", c, m.n);
            for (k = 0; k < m.n; k++) MC_CHECK(d[k] == m.v[k], "ints[%d]", k);
            gutil_ints_unref(t);
        }
        a = r = NULL; m.exists = m.n = m.refs = 0;
        break;
    }
    }
    show("op", o, x);
    MC_CHECK(r == a, "another array returned");
    observe();
    return 1;
}

static void key(void)
{
    int i;
    mc_key_int(m.exists); mc_key_int(m.refs); mc_key_int(m.n);
    for (i = 0; i < m.n; i++) mc_key_int(m.v[i]);
    if (a) mc_key_ptr(*(gpointer*)&a);
}

/* The stale tail of the buffer is garbage as far as the array is concerned */
static void key_small(void)
{
    int i;
    mc_key_int(m.exists); mc_key_int(m.refs); mc_key_int(m.n);
    for (i = 0; i < m.n; i++) mc_key_int(m.v[i]);
}

static void destroy(void) { while (m.refs-- > 0) gutil_int_array_unref(a); }

/*==========================================================================*/

static const int sv[] = { INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX - 1, INT_MAX };
#define SV 7
static u64 pw(int n) { u64 k = 1; while (n--) k *= SV; return k; }
static u64 sort_count(void) { int l, max = mc_tier == MC_QUICK ? 5 : 7; u64 n = 0; for (l = 0; l <= max; l++) n += pw(l); return n; }

static void sort_run(u64 x)
{
    int l = 0, i, v[8], e[8], dir;
    while (x >= pw(l)) { x -= pw(l); l++; }
    for (i = 0; i < l; i++) { v[i] = sv[x % SV]; x /= SV; }
    for (dir = 0; dir < 2; dir++) {
        GUtilIntArray* t = gutil_int_array_new_from_vals(v, l);
        memcpy(e, v, sizeof(v));
        qsort(e, l, sizeof(int), dir ? cmp_desc : cmp_asc);
        if (dir) gutil_int_array_sort_descending(t); else gutil_int_array_sort_ascending(t);
        MC_EXPECT((int)t->count == l);
        for (i = 0; i < l; i++) {
            MC_CHECK(t->data[i] == e[i], "sorted[%d] is %d, expected %d (length %d, %s)", i, t->data[i], e[i], l, dir ? "descending" : "ascending");
            mc_note("%d", t->data[i]);
        }
        mc_outcome(mc_hash(e, l * sizeof(int), l));
        gutil_int_array_unref(t);
        mc_step();
    }
}

/* Arrays which are constant, ascending or descending except for two positions */
#define NEAR_MIN 6
static int near_max(void) { return mc_tier == MC_QUICK ? 40 : 100; }
static u64 near_count(void) { u64 n, c = 0; for (n = NEAR_MIN; n <= (u64)near_max(); n++) c += n * n; return c * 3; }
static void near_run(u64 x)
{
    int kind = x % 3, n = NEAR_MIN, p, q, i, k, dir, v[128], e[128];
    x /= 3;
    while (x >= (u64)n * n) { x -= n * n; n++; }
    p = x % n; q = x / n;
    for (i = 0; i < n; i++) v[i] = kind ? kind == 1 ? i : n - i : 0;
    /* Two values are swapped, or the same one is put there */
    if (!kind) { v[p] = 1; v[q] = -1; }
    else if (p < q) { int t = v[p]; v[p] = v[q]; v[q] = t; }
    else { v[p] = INT_MIN; v[q] = INT_MAX; }
    mc_note("%d elements, kind %d, %d and %d are special", n, kind, p, q);
    for (dir = 0; dir < 2; dir++) {
        GUtilIntArray* t = gutil_int_array_new_from_vals(v, n);
        memcpy(e, v, sizeof(v));
        qsort(e, n, sizeof(int), dir ? cmp_desc : cmp_asc);
        if (dir) gutil_int_array_sort_descending(t); else gutil_int_array_sort_ascending(t);
        MC_EXPECT((int)t->count == n);
        for (i = 0; i < n; i++) MC_CHECK(t->data[i] == e[i], "sorted[%d] is %d, expected %d (%s)", i, t->data[i], e[i], dir ? "descending" : "ascending");
        for (i = 0; i < n; i++) {
            for (k = 0; k < i && e[k] != e[i]; k++);
            MC_CHECK(gutil_int_array_find(t, e[i]) == k, "found at %d, not %d", gutil_int_array_find(t, e[i]), k);
        }
        gutil_int_array_unref(t);
        mc_step();
    }
    mc_outcome(mc_hash(v, n * sizeof(int), n));
}

#define SWN 200
static u64 sweep_count(void) { return (SWN + 1) * 9; }
static void sweep_run(u64 x)
{
    const int n = x % (SWN + 1), kind = x / (SWN + 1);
    int e[3 * SWN + 10], i, c = 0;
    GUtilIntArray* t = gutil_int_array_new();
    for (i = 0; i < n; i++) {
        int v = (int)((guint)(i * 7919) % 101) - 50;
        if (i % 17 == 3) v = INT_MAX - i;
        if (i % 19 == 5) v = INT_MIN + i;
        gutil_int_array_append(t, v);
        e[c++] = v;
    }
    switch (kind) {
    case 0: gutil_int_array_sort_ascending(t); qsort(e, c, sizeof(int), cmp_asc); break;
    case 1: gutil_int_array_sort_descending(t); qsort(e, c, sizeof(int), cmp_desc); break;
    case 2: gutil_int_array_prepend_vals(t, e, c); memcpy(e + c, e, sizeof(int) * c); c *= 2; break;
    case 3: gutil_int_array_remove_range(t, n / 3, n / 2); {
        int k = n / 3 < n ? MIN(n / 2, n - n / 3) : 0;
        memmove(e + n / 3, e + n / 3 + k, sizeof(int) * (c - n / 3 - k)); c -= k; break; }
    case 4: { guint k = gutil_int_array_remove_all(t, 7), j = 0; int d = 0;
        for (i = 0; i < c; i++) { if (e[i] == 7) j++; else e[d++] = e[i]; } c = d; MC_EXPECT(k == j); break; }
    case 5: { int q[3] = { 1, 2, 3 }; gutil_int_array_insert_vals(t, n / 2, q, 3);
        memmove(e + n / 2 + 3, e + n / 2, sizeof(int) * (c - n / 2)); memcpy(e + n / 2, q, sizeof(q)); c += 3; break; }
    case 6: gutil_int_array_set_count(t, n * 2); MC_EXPECT((int)t->count == 2 * n); gutil_int_array_set_count(t, n / 2); c = n / 2; break;
    case 7: for (i = n - 1; i >= 0; i--) gutil_int_array_remove_index(t, i / 2);
        c = 0; break;
    case 8: { GUtilInts* k = gutil_int_array_free_to_ints(t); guint cc; const int* d = gutil_ints_get_data(k, &cc);
        MC_EXPECT((int)cc == n); for (i = 0; i < n; i++) MC_EXPECT(d[i] == e[i]);
        gutil_ints_unref(k); t = NULL; break; }
    }
    if (t) {
        MC_CHECK((int)t->count == c, "count %u, expected %d (n=%d op %d)", t->count, c, n, kind);
        for (i = 0; i < c; i++) MC_CHECK(t->data[i] == e[i], "element %d is %d, expected %d (n=%d op %d)", i, t->data[i], e[i], n, kind);
        for (i = 0; i < c; i++) {
            int f = gutil_int_array_find(t, e[i]);
            MC_EXPECT(f >= 0 && f <= i && t->data[f] == e[i]);
        }
        gutil_int_array_unref(t);
    }
    mc_note("%d elements, operation %d", n, kind);
    mc_outcome(x);
}

/* Long arrays */
static const int long_n[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
#define NLOPS 14
static u64 long_count(void) { return NLONG * NLOPS; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], kind = x / NLONG;
    int* e = g_new(int, 3 * n + 10);
    int i, c = n, k;
    GUtilIntArray* t;
    mc_note("%d elements, operation %d", n, kind);
    for (i = 0; i < n; i++) e[i] = (i & 7) == 5 ? -77 : (int)((guint)(i + 1) * 2654435761u >> 1) * ((i & 1) ? -1 : 1);
    if (n > 5000 && (kind < 2 || kind == 12)) for (i = 0; i < n; i++) { /* Nearly sorted, lest a simple algorithm takes too long */
        e[i] = (i - n / 2) * (kind == 1 ? -30000 : 30000);
        if (!(i % 1021)) e[i] = (int)((guint)(i + 1) * 2654435761u);
        if (kind == 12 && (i % 997) == 5) e[i] = -77;
    }
    e[n - 1] = 1234567; e[n - 2] = -7654321;
    t = gutil_int_array_new_from_vals(e, n);
    switch (kind) {
    case 0: gutil_int_array_sort_ascending(t); qsort(e, c, sizeof(int), cmp_asc); break;
    case 1: gutil_int_array_sort_descending(t); qsort(e, c, sizeof(int), cmp_desc); break;
    case 2: gutil_int_array_prepend_vals(t, e, n); memcpy(e + n, e, sizeof(int) * n); c *= 2; break;
    case 3: gutil_int_array_append_vals(t, e, n); memcpy(e + n, e, sizeof(int) * n); c *= 2; break;
    case 4: gutil_int_array_remove_range(t, 1, n - 3); memmove(e + 1, e + n - 2, 2 * sizeof(int)); c = 3; break;
    case 5: gutil_int_array_remove_range(t, n - 3, n); c = n - 3; break;
    case 6: k = gutil_int_array_remove_all(t, -77); for (i = c = 0; i < n; i++) if (e[i] != -77) e[c++] = e[i]; MC_CHECK(k == n - c, "removed %d of %d", k, n - c); break;
    case 7: gutil_int_array_insert(t, n - 1, 5); e[n] = e[n - 1]; e[n - 1] = 5; c++; break;
    case 8: MC_CHECK(gutil_int_array_remove(t, e[n - 1]), "remove the last value"); c--; break;
    case 9: gutil_int_array_remove_index(t, n - 2); e[n - 2] = e[n - 1]; c--; break;
    case 10: gutil_int_array_remove_index_fast(t, 0); e[0] = e[n - 1]; c--; break;
    case 11: { GUtilInts* q = gutil_int_array_free_to_ints(t); guint cc; const int* d = gutil_ints_get_data(q, &cc);
        MC_CHECK((int)cc == n && !memcmp(d, e, n * sizeof(int)), "%u ints", cc); gutil_ints_unref(q); t = NULL; break; }
    case 12: k = gutil_int_array_remove_all_fast(t, -77); for (i = c = 0; i < n; i++) if (e[i] != -77) e[c++] = e[i]; MC_CHECK(k == n - c, "removed %d of %d", k, n - c);
        gutil_int_array_sort_ascending(t); qsort(e, c, sizeof(int), cmp_asc); break;
    case 13: gutil_int_array_set_count(t, n / 2); c = n / 2; break;
    }
    if (t) {
        MC_CHECK((int)t->count == c, "count %u, expected %d", t->count, c);
        for (i = 0; i < c; i++) MC_CHECK(t->data[i] == e[i], "element %d is %d, expected %d", i, t->data[i], e[i]);
        for (i = c - 1; i >= MAX(c - 3, 0); i--) {
            int f = gutil_int_array_find(t, e[i]), w;
            for (w = 0; e[w] != e[i]; w++);
            MC_CHECK(f == w && gutil_int_array_contains(t, e[i]), "element %d found at %d, expected %d", i, f, w);
        }
        gutil_int_array_unref(t);
    }
    g_free(e);
    mc_outcome(x);
}

const McSuite mc_suites[] = {
    { .name = "C10.ops", .kind = MC_BFS, .about = "one array over {INT_MIN,0,INT_MAX}, up to 5 (6) elements, every operation with in-range and huge positions/counts, absent array; states include the real buffer",
      .create = create, .nops = nops, .apply = apply, .key = key, .destroy = destroy, .setup = setup, .depth_quick = 6, .depth_thorough = 12 },
    { .name = "C10.closure", .kind = MC_BFS, .about = "same, states identified by contents only: complete",
      .create = create, .nops = nops, .apply = apply, .key = key_small, .destroy = destroy, .setup = setup, .depth_quick = 100, .depth_thorough = 100 },
    { .name = "C10.sort", .kind = MC_FAMILY, .about = "all arrays up to length 5 (7) over 7 boundary values, both directions",
      .count = sort_count, .run = sort_run, .split = 2 },
    { .name = "C10.nearly", .kind = MC_FAMILY, .about = "sorting arrays of 6..40 (100) elements, constant or sorted but for two positions: all pairs", .count = near_count, .run = near_run, .split = 2 },
    { .name = "C10.sweep", .kind = MC_FAMILY, .about = "lengths 0..200 x 9 operations", .count = sweep_count, .run = sweep_run },
    { .name = "C10.long", .kind = MC_FAMILY, .about = "19 lengths 255..70000 x 14 operations", .count = long_count, .run = long_run, .split = 2, .slow_s = 60 },
    { NULL }
};
