/* Immutable integer arrays: C11 */
#include "mc.h"
#include "gutil_ints.h"

#define NS 3            /* handles */
#define NB 12           /* model objects */

static const int c0[] = { 1, 2, 3 };
static const int c1[] = { -1 };
static const int c2[] = { INT_MIN, INT_MAX };
static const int c3[] = { 1, 2, 3 };
static const struct { const int* v; int n; } contents[] = { { c0, 3 }, { c1, 1 }, { c2, 2 } };

typedef struct {
    int used, refs, parent;     /* parent: object index or -1 */
    int kind;                   /* 0 copy 1 take 2 static 3 free func 4 g_free of something else 5 slice */
    int content, off, n;
    int* mem;                   /* kinds 3 and 4 */
} Obj;
static Obj objs[NB];
static struct { GUtilInts* p; int obj; } slot[NS];
static int released[NB], expected[NB];

static void ff(gpointer data)
{
    const int i = GPOINTER_TO_INT(data) - 100;
    MC_CHECK(i >= 0 && i < NB, "free function called with a wrong argument");
    released[i]++;
    MC_CHECK(released[i] == 1, "data released twice");
    /* The data goes away, too */
    free(objs[i].mem);
    objs[i].mem = NULL;
}

enum { CREATE, REF, SLICE, UNREF, TODATA };
typedef struct { int op, s, x, y, z; } Op;
static Op ops[256];
static int nops_;

static void setup(void)
{
    int s, t, k, c, i;
    static const int sl[][2] = { { 0, 0 }, { 0, 1 }, { 0, 103 }, { 1, 1 }, { 1, 103 }, { 1, 104 }, { 2, 105 }, { 101, 1 }, { 103, 103 }, { 103, 2 } };
    nops_ = 0;
    for (s = 0; s < NS; s++) {
        for (k = 0; k < 5; k++) for (c = 0; c < 3; c++) { if (c && k != 3 && k != 1) continue; ops[nops_++] = (Op){ CREATE, s, k, c }; }
        for (t = 0; t < NS; t++) if (t != s) {
            ops[nops_++] = (Op){ REF, s, t };
            for (i = 0; i < (int)G_N_ELEMENTS(sl); i++) ops[nops_++] = (Op){ SLICE, s, t, sl[i][0], sl[i][1] };
        }
        ops[nops_++] = (Op){ UNREF, s };
        ops[nops_++] = (Op){ TODATA, s, 0 };
        ops[nops_++] = (Op){ TODATA, s, 1 };
    }
}

static void create(void)
{
    int i;
    memset(objs, 0, sizeof(objs));
    memset(released, 0, sizeof(released));
    memset(expected, 0, sizeof(expected));
    for (i = 0; i < NS; i++) { slot[i].p = NULL; slot[i].obj = -1; }
}

static int nops(void) { return nops_; }

static guint sym(int x, int n)
{
    switch (x) {
    case 101: return n;
    case 103: return UINT_MAX;
    case 104: return UINT_MAX - 1;
    case 105: return 0x80000000u;
    }
    return x;
}

static int obj_new(void) { int i; for (i = 0; i < NB; i++) if (!objs[i].used && !expected[i]) return i; return -1; }

static void obj_unref(int o)
{
    if (!--objs[o].refs) {
        objs[o].used = 0;
        if (objs[o].kind == 3) { expected[o] = 1; MC_CHECK(released[o] == 1, "data not released with its last user"); released[o] = expected[o] = 0; }
        if (objs[o].kind == 5) obj_unref(objs[o].parent);
    }
}

static void obj_rel_check(void)
{
    int i;
    for (i = 0; i < NB; i++) if (objs[i].used && objs[i].kind == 3) MC_CHECK(!released[i], "data released while still in use");
}

static const int* val(int o) { return contents[objs[o].content].v + objs[o].off; }

static void check_data(const int* d, guint n, int o, const char* what)
{
    int i;
    MC_CHECK((int)n == objs[o].n, "%s: count %u, expected %d", what, n, objs[o].n);
    MC_CHECK(d != NULL, "%s: no data", what);
    for (i = 0; i < objs[o].n; i++) MC_CHECK(d[i] == val(o)[i], "%s: [%d] is %d, expected %d", what, i, d[i], val(o)[i]);
}

static int model_equal(int a, int b)
{
    return objs[a].n == objs[b].n && !memcmp(val(a), val(b), sizeof(int) * objs[a].n);
}

static void observe(void)
{
    int s, t, i;
    obj_rel_check();
    for (s = 0; s < NS; s++) {
        guint n = 77;
        GUtilInts* p = slot[s].p;
        const int* d = gutil_ints_get_data(p, &n);
        if (!p) { MC_EXPECT(!d && n == 0 && gutil_ints_get_count(p) == 0); continue; }
        check_data(d, n, slot[s].obj, "get_data");
        MC_EXPECT(gutil_ints_get_data(p, NULL) == d);
        MC_EXPECT(gutil_ints_get_count(p) == n);
        for (i = 0; i < 6; i++) {
            const int v = (int[]){ 1, 2, 3, -1, INT_MAX, 55 }[i];
            int k, f = -1;
            for (k = 0; k < (int)n && f < 0; k++) if (val(slot[s].obj)[k] == v) f = k;
            MC_CHECK(gutil_ints_find(p, v) == f, "find(%d) isn't %d", v, f);
            MC_CHECK(!gutil_ints_contains(p, v) == (f < 0), "contains(%d)", v);
        }
        for (t = 0; t < NS; t++) if (slot[t].p) {
            const int eq = model_equal(slot[s].obj, slot[t].obj);
            MC_CHECK(!gutil_ints_equal(p, slot[t].p) == !eq, "equal(%d,%d)", s, t);
            MC_CHECK(!gutil_ints_compare(p, slot[t].p) == eq, "compare(%d,%d)", s, t);
            if (eq) MC_CHECK(gutil_ints_hash(p) == gutil_ints_hash(slot[t].p), "hash(%d,%d)", s, t);
        }
    }
}

static int apply(int op)
{
    const Op* o = ops + op;
    const int s = o->s;
    int i;

    switch (o->op) {
    case CREATE: {
        const int k = o->x, c = o->y;
        const int* v = contents[c].v;
        const int n = contents[c].n;
        GUtilInts* p = NULL;
        if (slot[s].p) return 0;
        i = obj_new();
        objs[i] = (Obj){ .used = 1, .refs = 1, .parent = -1, .kind = k, .content = c, .n = n };
        switch (k) {
        case 0: { int* tmp = mc_exact(v, n * sizeof(int)); p = gutil_ints_new(tmp, n); memset(tmp, 0x11, n * sizeof(int)); free(tmp); break; }
        case 1: p = gutil_ints_new_take(g_memdup(v, n * sizeof(int)), n); break;
        case 2: p = gutil_ints_new_static(v, n); break;
        case 3: objs[i].mem = mc_exact(v, n * sizeof(int));
            p = gutil_ints_new_with_free_func(objs[i].mem, n, ff, GINT_TO_POINTER(100 + i)); break;
        case 4: p = gutil_ints_new_with_free_func(v, n, g_free, g_malloc(5)); break;
        }
        MC_CHECK(p != NULL, "nothing created");
        slot[s].p = p;
        slot[s].obj = i;
        mc_note("#%d = new kind %d, %d elements", s, k, n);
        break;
    }
    case REF: {
        const int t = o->x;
        if (slot[s].p || !slot[t].p) return 0;
        slot[s] = slot[t];
        objs[slot[s].obj].refs++;
        MC_EXPECT(gutil_ints_ref(slot[t].p) == slot[t].p);
        mc_note("#%d = ref #%d", s, t);
        break;
    }
    case SLICE: {
        const int t = o->x;
        guint off, cnt;
        GUtilInts* p;
        int n;
        if (slot[s].p) return 0;
        off = sym(o->y, slot[t].p ? objs[slot[t].obj].n : 0);
        cnt = sym(o->z, slot[t].p ? objs[slot[t].obj].n : 0);
        p = gutil_ints_new_from_ints(slot[t].p, off, cnt);
        n = slot[t].p && off < (guint)objs[slot[t].obj].n ? (int)MIN(cnt, (guint)objs[slot[t].obj].n - off) : 0;
        mc_note("#%d = slice of #%d at %u, %u => %d elements", s, t, off, cnt, n);
        MC_CHECK(!p == !n, "slice(%u,%u) returned %p, expected %d elements", off, cnt, p, n);
        if (p) {
            i = obj_new();
            objs[i] = (Obj){ .used = 1, .refs = 1, .parent = slot[t].obj, .kind = 5,
                .content = objs[slot[t].obj].content, .off = objs[slot[t].obj].off + off, .n = n };
            objs[slot[t].obj].refs++;
            slot[s].p = p;
            slot[s].obj = i;
        }
        break;
    }
    case UNREF:
        if (!slot[s].p) return 0;
        gutil_ints_unref(slot[s].p);
        slot[s].p = NULL;
        obj_unref(slot[s].obj);
        slot[s].obj = -1;
        mc_note("unref #%d", s);
        break;
    case TODATA: {
        guint n = 99;
        int* d;
        if (!slot[s].p) {
            MC_EXPECT(!gutil_ints_unref_to_data(NULL, o->x ? &n : NULL));
            if (o->x) MC_EXPECT(n == 0);
            return 1;
        }
        d = gutil_ints_unref_to_data(slot[s].p, o->x ? &n : NULL);
        check_data(d, o->x ? n : (guint)objs[slot[s].obj].n, slot[s].obj, "unref_to_data");
        slot[s].p = NULL;
        obj_unref(slot[s].obj);
        slot[s].obj = -1;
        mc_note("unref_to_data #%d", s);
        /* Independent copy: may be scribbled on and freed */
        d[0] ^= 0x5555;
        observe();
        g_free(d);
        break;
    }
    }
    observe();
    return 1;
}

static void key(void)
{
    int s;
    for (s = 0; s < NS; s++) {
        const int o = slot[s].obj;
        mc_key_int(o < 0 ? -1 : objs[o].kind);
        mc_key_ptr(slot[s].p);
    }
}

static void destroy(void)
{
    int s;
    for (s = 0; s < NS; s++) if (slot[s].p) {
        gutil_ints_unref(slot[s].p);
        slot[s].p = NULL;
        obj_unref(slot[s].obj);
        slot[s].obj = -1;
        observe();
    }
}

/* Contents alone: all arrays up to length 3 over boundary values, all pairs and triples */
static const int av[] = { INT_MIN, -1, 0, 1, 256, INT_MAX };
#define AN 6
#define NALL (1 + AN + AN * AN + AN * AN * AN)
static GUtilInts *all1[NALL], *all2[NALL];
static int len[NALL], cont[NALL][3];
static signed char cm[NALL][NALL];

static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void laws_setup(void)
{
    int i, j, k = 0, l;
    for (l = 0; l <= 3; l++) {
        int n = 1;
        for (i = 0; i < l; i++) n *= AN;
        for (i = 0; i < n; i++, k++) {
            int x = i;
            len[k] = l;
            for (j = 0; j < l; j++) { cont[k][j] = av[x % AN]; x /= AN; }
            all1[k] = gutil_ints_new(cont[k], l);
            all2[k] = gutil_ints_new_static(g_memdup(cont[k], sizeof(int) * 3), l);
        }
    }
    for (i = 0; i < NALL; i++) for (j = 0; j < NALL; j++) cm[i][j] = sgn(gutil_ints_compare(all1[i], all2[j]));
}

static u64 laws_count(void) { return NALL; }
static void laws_run(u64 i)
{
    int j, k;
    MC_EXPECT(gutil_ints_hash(all1[i]) == gutil_ints_hash(all2[i]));
    MC_EXPECT(gutil_ints_equal(all1[i], all2[i]));
    for (j = 0; j < NALL; j++) {
        int eq = gutil_ints_equal(all1[i], all2[j]);
        int prefix = len[i] < len[j] && !memcmp(cont[i], cont[j], len[i] * sizeof(int));
        MC_CHECK(!eq == ((int)i != j), "equal(%d,%d) is %d", (int)i, j, eq);
        MC_CHECK((cm[i][j] == 0) == ((int)i == j), "compare(%d,%d) is %d", (int)i, j, cm[i][j]);
        MC_CHECK(cm[i][j] == -cm[j][i], "compare(%d,%d) isn't antisymmetric", (int)i, j);
        if (prefix) MC_CHECK(cm[i][j] < 0, "prefix doesn't precede: compare(%d,%d) is %d", (int)i, j, cm[i][j]);
        for (k = 0; k < NALL; k++) {
            if (cm[i][j] < 0 && cm[j][k] < 0) MC_CHECK(cm[i][k] < 0, "compare isn't transitive: %d %d %d", (int)i, j, k);
        }
        mc_step();
    }
    mc_note("array %d of length %d against all %d", (int)i, len[i], NALL);
    mc_outcome(i);
}

/* Lengths */
static u64 sweep_count(void) { return 301; }
static void sweep_run(u64 n)
{
    int v[400], i, o;
    GUtilInts* p, *q;
    for (i = 0; i < 400; i++) v[i] = i * 40503 + (i << 20);
    p = gutil_ints_new(v, n);
    MC_EXPECT(!p == !n);
    MC_EXPECT(gutil_ints_get_count(p) == n);
    MC_EXPECT(!n || !memcmp(gutil_ints_get_data(p, NULL), v, n * sizeof(int)));
    for (o = 0; o < (int)n; o += 1 + n / 7) {
        guint c;
        const int* d;
        q = gutil_ints_new_from_ints(p, o, n / 2 + 1);
        d = gutil_ints_get_data(q, &c);
        MC_CHECK(c == MIN(n / 2 + 1, n - o), "slice of %u at %d has %u elements", (guint)n, o, c);
        MC_EXPECT(!memcmp(d, v + o, c * sizeof(int)));
        gutil_ints_unref(q);
        mc_step();
    }
    if (n) {
        int* d;
        guint c;
        q = gutil_ints_new(v, n);
        MC_EXPECT(gutil_ints_equal(p, q) && gutil_ints_hash(p) == gutil_ints_hash(q) && !gutil_ints_compare(p, q));
        gutil_ints_unref(q);
        v[n - 1] ^= 0x40000000;
        q = gutil_ints_new(v, n);
        MC_EXPECT(!gutil_ints_equal(p, q) && gutil_ints_compare(p, q) && gutil_ints_compare(p, q) == -gutil_ints_compare(q, p));
        v[n - 1] ^= 0x40000000;
        gutil_ints_unref(p);
        d = gutil_ints_unref_to_data(q, &c);
        MC_EXPECT(c == n && d[n - 1] == (v[n - 1] ^ 0x40000000) && !memcmp(d, v, (n - 1) * sizeof(int)));
        g_free(d);
    }
    mc_note("length %d", (int)n);
    mc_outcome(n);
}

static const int long_n[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
static int long_frees;
static void long_free(gpointer p) { long_frees++; }
static u64 long_count(void) { return NLONG * 4; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], mode = x / NLONG;
    int* v = g_new(int, n);
    int i, o;
    guint c;
    GUtilInts* p, *q;
    mc_note("%d integers, mode %d", n, mode);
    for (i = 0; i < n; i++) v[i] = i * 40503 + (i << 20);
    long_frees = 0;
    switch (mode) {
    case 0: p = gutil_ints_new(v, n); break;
    case 1: p = gutil_ints_new_take(g_memdup2(v, n * sizeof(int)), n); break;
    case 2: p = gutil_ints_new_static(v, n); break;
    default: p = gutil_ints_new_with_free_func(v, n, long_free, v); break;
    }
    MC_CHECK((int)gutil_ints_get_count(p) == n && !memcmp(gutil_ints_get_data(p, &c), v, n * sizeof(int)) && (int)c == n, "%u ints", gutil_ints_get_count(p));
    for (o = 0; o < 5; o++) {
        const int off = (int[]){ 0, 1, n / 2, n - 2, n }[o];
        for (i = 0; i < 5; i++) {
            const int len = (int[]){ 1, n / 2, n - 1, n, INT_MAX }[i], want = MIN(len, n - off);
            const int* d;
            q = gutil_ints_new_from_ints(p, off, len);
            d = gutil_ints_get_data(q, &c);
            MC_CHECK((int)c == want && !q == !want && (!want || !memcmp(d, v + off, want * sizeof(int))), "slice of %d at %d has %u elements", len, off, c);
            gutil_ints_unref(q);
            mc_step();
        }
    }
    for (i = n - 1; i >= n - 2; i--) MC_CHECK(gutil_ints_find(p, v[i]) == i && gutil_ints_contains(p, v[i]), "element %d", i);
    q = gutil_ints_new(v, n);
    MC_EXPECT(gutil_ints_equal(p, q) && gutil_ints_hash(p) == gutil_ints_hash(q) && !gutil_ints_compare(p, q));
    gutil_ints_unref(q);
    q = gutil_ints_new(v, n - 1);
    MC_EXPECT(!gutil_ints_equal(p, q) && gutil_ints_compare(p, q) > 0 && gutil_ints_compare(q, p) < 0);
    gutil_ints_unref(q);
    q = gutil_ints_new_from_ints(p, n - 2, 2);
    gutil_ints_unref(p);
    MC_CHECK(!long_frees, "the data is released too early");
    MC_EXPECT(gutil_ints_get_data(q, NULL)[1] == v[n - 1]);
    i = 0;
    gutil_ints_unref(q);
    MC_CHECK(long_frees == (mode == 3), "the data is released %d times", long_frees);
    q = gutil_ints_new(v, n);
    {
        int* d = gutil_ints_unref_to_data(q, &c);
        MC_EXPECT((int)c == n && !memcmp(d, v, n * sizeof(int)));
        g_free(d);
    }
    g_free(v);
    mc_outcome(x);
}

static u64 one(void) { return 1; }
static void null_run(u64 x)
{
    GUtilInts* p = gutil_ints_new(c0, 1);
    int one_[1] = { 1 };
    MC_EXPECT(!gutil_ints_new(NULL, 1) && !gutil_ints_new(c0, 0) && !gutil_ints_new_static(c0, 0) && !gutil_ints_new_static(NULL, 3));
    MC_EXPECT(!gutil_ints_new_take(NULL, 0) && !gutil_ints_new_with_free_func(NULL, 0, ff, NULL));
    MC_EXPECT(!gutil_ints_ref(NULL));
    gutil_ints_unref(NULL);
    MC_EXPECT(gutil_ints_find(NULL, 0) < 0 && !gutil_ints_contains(NULL, 0));
    MC_EXPECT(gutil_ints_equal(NULL, NULL) && !gutil_ints_equal(p, NULL) && !gutil_ints_equal(NULL, p));
    MC_EXPECT(!gutil_ints_get_data(NULL, NULL) && !gutil_ints_unref_to_data(NULL, NULL));
    MC_EXPECT(!gutil_ints_compare(NULL, NULL) && gutil_ints_compare(p, NULL) > 0 && gutil_ints_compare(NULL, p) < 0);
    MC_EXPECT(gutil_ints_hash(NULL) == gutil_ints_hash(NULL));
    gutil_ints_unref(p);
    mc_note("absent arrays %d", one_[0]);
    (void)c3;
}

const McSuite mc_suites[] = {
    { .name = "C11.ops", .kind = MC_BFS, .about = "3 handles over arrays of every ownership mode, slices of slices, every release order; ownership model in lockstep",
      .create = create, .nops = nops, .apply = apply, .key = key, .destroy = destroy, .setup = setup, .depth_quick = 5, .depth_thorough = 8 },
    { .name = "C11.laws", .kind = MC_FAMILY, .about = "all pairs and triples of all 259 arrays up to length 3 over 6 boundary values",
      .count = laws_count, .run = laws_run, .setup = laws_setup },
    { .name = "C11.sweep", .kind = MC_FAMILY, .about = "lengths 0..300", .count = sweep_count, .run = sweep_run },
    { .name = "C11.long", .kind = MC_FAMILY, .about = "19 lengths 255..70000 x 4 ownership modes: slices, search, laws, extraction", .count = long_count, .run = long_run },
    { .name = "C11.null", .kind = MC_FAMILY, .about = "absent arrays", .count = one, .run = null_run },
    { NULL }
};
