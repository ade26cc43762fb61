/* Object vectors: C13 */
#include "mc.h"
#include <glib-object.h>
#include "gutil_objv.h"
#include "gutil_misc.h"

#define NO 3
#define NVEC 2
static int MAXN;
static GObject* obj[NO];        /* NULL when dead */
static GObject** vec[NVEC];
static struct { int own[NO]; int exists[NVEC], n[NVEC], id[NVEC][16]; } m;

enum { NEW, COPY, ADD, INSERT, APPEND, REMOVE, REMOVEAT, FREE, DROP, MAKE };
typedef struct { int op, v, x, y; } Op;
static Op ops[400];
static int nops_;

static void died(gpointer data, GObject* o) { *(GObject**)data = NULL; }

static GObject* mkobj(int i)
{
    obj[i] = g_object_new(G_TYPE_OBJECT, NULL);
    g_object_weak_ref(obj[i], died, obj + i);
    return obj[i];
}

static void setup(void)
{
    int v, i, j;
    MAXN = mc_tier == MC_QUICK ? 3 : 4;
    nops_ = 0;
#define O(o,v_,x_,y_) ops[nops_++] = (Op){ o, v_, x_, y_ }
    for (v = 0; v < NVEC; v++) {
        for (i = 0; i < 6; i++) O(NEW, v, i, 0);
        O(COPY, v, 1 - v, 0);
        for (i = -1; i < NO; i++) {
            O(ADD, v, i, 0);
            for (j = 0; j < 4; j++) O(INSERT, v, i, j);
            for (j = 0; j < 2; j++) O(REMOVE, v, i, j);
        }
        O(APPEND, v, 1 - v, 0); O(APPEND, v, -1, 0); O(APPEND, v, v, 0);
        for (j = 0; j < 6; j++) O(REMOVEAT, v, j, 0);
        O(FREE, v, 0, 0);
    }
    for (i = 0; i < NO; i++) { O(DROP, 0, i, 0); O(MAKE, 0, i, 0); }
    g_object_unref(g_object_new(G_TYPE_OBJECT, NULL));
}

static void create(void)
{
    int i;
    memset(&m, 0, sizeof(m));
    memset(vec, 0, sizeof(vec));
    for (i = 0; i < NO; i++) { mkobj(i); m.own[i] = 1; }
}
static int nops(void) { return nops_; }

static int refs(int i)
{
    int v, k, n = m.own[i];
    for (v = 0; v < NVEC; v++) for (k = 0; k < m.n[v]; k++) if (m.id[v][k] == i) n++;
    return n;
}

static void observe(void)
{
    int i, v, k;
    for (i = 0; i < NO; i++) {
        const int n = refs(i);
        if (n) {
            MC_CHECK(obj[i] != NULL, "object %d is dead, expected %d reference(s)", i, n);
            MC_CHECK((int)obj[i]->ref_count == n, "object %d has %d reference(s), expected %d", i, obj[i]->ref_count, n);
        } else MC_CHECK(!obj[i], "object %d is still alive", i);
    }
    for (v = 0; v < NVEC; v++) {
        GObject** p = vec[v];
        const int n = m.n[v];
        MC_CHECK(!p == !m.exists[v], "vector is %p", p);
        for (k = 0; k < n; k++) {
            MC_CHECK(p[k] == obj[m.id[v][k]], "wrong object at %d", k);
            MC_CHECK(gutil_objv_at(p, k) == p[k], "at(%d)", k);
        }
        if (p) MC_CHECK(!p[n], "not terminated");
        MC_EXPECT(!gutil_objv_at(p, n) && !gutil_objv_at(p, n + 1) && !gutil_objv_at(p, G_MAXSIZE) && !gutil_objv_at(p, (gsize)G_MAXUINT + 1));
        MC_EXPECT(gutil_objv_first(p) == (n ? p[0] : NULL));
        MC_EXPECT(gutil_objv_last(p) == (n ? p[n - 1] : NULL));
        for (i = 0; i < NO; i++) if (obj[i]) {
            int f = -1, l = -1;
            for (k = 0; k < n; k++) if (m.id[v][k] == i) { if (f < 0) f = k; l = k; }
            MC_CHECK(gutil_objv_find(p, obj[i]) == f, "find is %d, expected %d", (int)gutil_objv_find(p, obj[i]), f);
            MC_CHECK(gutil_objv_find_last(p, obj[i]) == l, "find_last is %d, expected %d", (int)gutil_objv_find_last(p, obj[i]), l);
            MC_CHECK(!gutil_objv_contains(p, obj[i]) == (f < 0), "contains");
        }
        MC_EXPECT(gutil_objv_find(p, NULL) == -1 && gutil_objv_find_last(p, NULL) == -1 && !gutil_objv_contains(p, NULL));
        MC_CHECK(gutil_objv_equal(p, p), "not equal to itself");
        MC_CHECK(!gutil_objv_equal(p, NULL) == !!n && !gutil_objv_equal(NULL, p) == !!n, "equality to NULL");
    }
    k = m.n[0] == m.n[1] && !memcmp(m.id[0], m.id[1], sizeof(int) * m.n[0]);
    MC_CHECK(!gutil_objv_equal(vec[0], vec[1]) == !k, "equal isn't %d", k);
    MC_CHECK(!gutil_objv_equal(vec[1], vec[0]) == !k, "equal isn't %d (swapped)", k);
}

static int apply(int op)
{
    const int o = ops[op].op, v = ops[op].v, x = ops[op].x, y = ops[op].y;
    int k;
    int* id = m.id[v];

    switch (o) {
    case NEW:
        if (vec[v]) return 0;
        for (k = 0; k < NO; k++) if (!obj[k]) return 0;
        m.n[v] = 0; m.exists[v] = 1;
        switch (x) {
        case 0: vec[v] = gutil_objv_new(NULL, NULL); break;
        case 1: vec[v] = gutil_objv_new(obj[0], NULL); id[m.n[v]++] = 0; break;
        case 2: vec[v] = gutil_objv_new(obj[1], obj[1], NULL); id[m.n[v]++] = 1; id[m.n[v]++] = 1; break;
        case 3: vec[v] = gutil_objv_new(obj[2], obj[0], obj[1], NULL); id[m.n[v]++] = 2; id[m.n[v]++] = 0; id[m.n[v]++] = 1; break;
        case 4: vec[v] = gutil_objv_new(NULL, obj[0], NULL); break;
        case 5: vec[v] = gutil_objv_new(obj[0], obj[1], obj[0], NULL); id[m.n[v]++] = 0; id[m.n[v]++] = 1; id[m.n[v]++] = 0; break;
        }
        break;
    case COPY:
        if (vec[v]) return 0;
        vec[v] = gutil_objv_copy(vec[x]);
        m.exists[v] = m.exists[x]; m.n[v] = m.n[x]; memcpy(id, m.id[x], sizeof(m.id[0]));
        if (vec[v]) MC_CHECK(vec[v] != vec[x], "not a copy");
        break;
    case ADD:
        if (x < 0) { vec[v] = gutil_objv_add(vec[v], NULL); break; }
        if (m.n[v] >= MAXN || !obj[x]) return 0;
        vec[v] = gutil_objv_add(vec[v], obj[x]);
        id[m.n[v]++] = x; m.exists[v] = 1;
        break;
    case INSERT: {
        const gsize pos = (gsize[]){ 0, 1, 2, G_MAXSIZE }[y];
        if (x < 0) { vec[v] = gutil_objv_insert(vec[v], NULL, pos); break; }
        if (m.n[v] >= MAXN || !obj[x]) return 0;
        vec[v] = gutil_objv_insert(vec[v], obj[x], pos);
        k = pos > (gsize)m.n[v] ? m.n[v] : (int)pos;
        memmove(id + k + 1, id + k, sizeof(int) * (m.n[v] - k));
        id[k] = x; m.n[v]++; m.exists[v] = 1;
        break;
    }
    case APPEND:
        if (x < 0) { vec[v] = gutil_objv_append(vec[v], NULL); break; }
        if (m.n[v] + m.n[x] > MAXN + 1) return 0;
        vec[v] = gutil_objv_append(vec[v], vec[x]);
        if (m.n[x]) {
            memcpy(id + m.n[v], m.id[x], sizeof(int) * m.n[x]);
            m.n[v] += m.n[x]; m.exists[v] = 1;
        }
        break;
    case REMOVE:
        if (x < 0) { vec[v] = gutil_objv_remove(vec[v], NULL, y); break; }
        if (!obj[x]) return 0;
        vec[v] = gutil_objv_remove(vec[v], obj[x], y);
        for (k = 0; k < m.n[v]; ) {
            if (id[k] == x) { memmove(id + k, id + k + 1, sizeof(int) * (m.n[v] - k - 1)); m.n[v]--; if (!y) break; }
            else k++;
        }
        break;
    case REMOVEAT: {
        const gsize pos = (gsize[]){ 0, 1, 2, 3, G_MAXSIZE, (gsize)G_MAXUINT + 1 }[x];
        vec[v] = gutil_objv_remove_at(vec[v], pos);
        if (pos < (gsize)m.n[v]) { memmove(id + pos, id + pos + 1, sizeof(int) * (m.n[v] - pos - 1)); m.n[v]--; }
        break;
    }
    case FREE:
        gutil_objv_free(vec[v]); vec[v] = NULL; m.n[v] = m.exists[v] = 0;
        break;
    case DROP: if (!m.own[x]) return 0; m.own[x] = 0; g_object_unref(obj[x]); break;
    case MAKE: if (obj[x]) return 0; mkobj(x); m.own[x] = 1; break;
    }
    if (mc_verbose) {
        char s[200]; int q, i = 0;
        for (q = 0; q < NVEC; q++) {
            i += sprintf(s + i, m.exists[q] ? "[" : "(");
            for (k = 0; k < m.n[q]; k++) i += sprintf(s + i, " %d", m.id[q][k]);
            i += sprintf(s + i, " ] ");
        }
        mc_note("op %d vector %d (%d,%d) => expect %s own %d%d%d", o, v, x, y, s, m.own[0], m.own[1], m.own[2]);
    }
    observe();
    return 1;
}

static void key(void)
{
    int v, k, i;
    for (i = 0; i < NO; i++) mc_key_int(m.own[i]);
    for (v = 0; v < NVEC; v++) {
        mc_key_int(m.exists[v]); mc_key_int(m.n[v]);
        for (k = 0; k < m.n[v]; k++) mc_key_int(m.id[v][k]);
    }
}

static void destroy(void)
{
    int i, v;
    for (v = 0; v < NVEC; v++) { gutil_objv_free(vec[v]); vec[v] = NULL; m.n[v] = m.exists[v] = 0; observe(); }
    for (i = 0; i < NO; i++) if (obj[i]) g_object_unref(obj[i]);
    for (i = 0; i < NO; i++) MC_CHECK(!obj[i], "object %d survived", i);
}

#define SN 120
static u64 sweep_count(void) { return SN * 4; }
static void sweep_run(u64 x)
{
    const int n = x / 4, o = x % 4;
    GObject** v = NULL, **w;
    int i;
    for (i = 0; i < NO; i++) mkobj(i);
    for (i = 0; i < n; i++) v = (i & 1) ? gutil_objv_insert(v, obj[i % NO], 0) : gutil_objv_add(v, obj[i % NO]);
    for (i = 0; i < NO; i++) MC_EXPECT((int)obj[i]->ref_count == 1 + n / NO + (i < n % NO));
    w = gutil_objv_copy(v);
    MC_EXPECT(gutil_objv_equal(v, w));
    switch (o) {
    case 0: v = gutil_objv_remove(v, obj[1], TRUE); MC_EXPECT(gutil_objv_find(v, obj[1]) < 0);
        MC_EXPECT((int)obj[1]->ref_count == 1 + n / NO + (1 < n % NO)); break;
    case 1: v = gutil_objv_append(v, w);
        for (i = 0; i < n; i++) MC_EXPECT(v[i] == w[i] && v[n + i] == w[i]);
        if (n) MC_EXPECT(!v[2 * n]);
        break;
    case 2: for (i = 0; i < n; i++) v = gutil_objv_remove_at(v, (n - i) / 2 < n - i ? (n - i) / 2 : 0); MC_EXPECT(!v || !v[0]); break;
    case 3: v = gutil_objv_insert(v, obj[0], n / 2); MC_EXPECT(v[n / 2] == obj[0] && !v[n + 1]);
        for (i = 0; i < n; i++) MC_EXPECT(v[i < n / 2 ? i : i + 1] == w[i]); break;
    }
    gutil_objv_free(v);
    gutil_objv_free(w);
    for (i = 0; i < NO; i++) { MC_CHECK(obj[i] && obj[i]->ref_count == 1, "object %d has %d references", i, obj[i] ? obj[i]->ref_count : 0); g_object_unref(obj[i]); MC_EXPECT(!obj[i]); }
    mc_note("length %d op %d", n, o);
    mc_outcome(x);
}

/* Long vectors, made directly because every operation is linear */
static const int long_n[] = { 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
static u64 long_count(void) { return NLONG * 7; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], o = x / NLONG;
    GObject** v = g_new0(GObject*, n + 1), **w;
    int i, c;
    mc_note("%d objects, operation %d", n, o);
    for (i = 0; i < NO; i++) mkobj(i);
    for (i = 0; i < n; i++) v[i] = g_object_ref(i == n - 1 ? obj[2] : obj[i & 1]);
    w = gutil_objv_copy(v);
    MC_EXPECT(gutil_objv_equal(v, w) && !w[n]);
    MC_EXPECT((int)gutil_ptrv_length(v) == n && gutil_objv_find(v, obj[2]) == n - 1 && gutil_objv_contains(v, obj[2]) && gutil_objv_at(v, n - 1) == obj[2] && !gutil_objv_at(v, n));
    MC_EXPECT(gutil_objv_first(v) == obj[0] && gutil_objv_last(v) == obj[2] && gutil_objv_find_last(v, obj[2]) == n - 1);
    MC_EXPECT(obj[2]->ref_count == 3 && (int)obj[0]->ref_count == 1 + 2 * (n / 2));
    switch (o) {
    case 0: v = gutil_objv_remove(v, obj[1], TRUE); MC_EXPECT(gutil_objv_find(v, obj[1]) < 0 && (int)obj[1]->ref_count == 1 + (n - 1) / 2 && (int)gutil_ptrv_length(v) == n - (n - 1) / 2); break;
    case 1: v = gutil_objv_append(v, w); MC_EXPECT(!v[2 * n] && (int)gutil_ptrv_length(v) == 2 * n && gutil_objv_find(v, obj[2]) == n - 1 && gutil_objv_find_last(v, obj[2]) == 2 * n - 1); break;
    case 2: v = gutil_objv_remove_at(v, n - 1); MC_EXPECT(obj[2]->ref_count == 2 && !v[n - 1] && (int)gutil_ptrv_length(v) == n - 1 && !gutil_objv_equal(v, w)); break;
    case 3: v = gutil_objv_insert(v, obj[2], n - 1); MC_EXPECT(v[n - 1] == obj[2] && v[n] == obj[2] && !v[n + 1] && obj[2]->ref_count == 4); break;
    case 4: v = gutil_objv_add(v, obj[0]); MC_EXPECT(v[n - 1] == obj[2] && v[n] == obj[0] && !v[n + 1]); break;
    case 5: v = gutil_objv_remove(v, obj[2], FALSE); MC_EXPECT(obj[2]->ref_count == 2 && gutil_objv_find(v, obj[2]) < 0); break;
    case 6: v = gutil_objv_remove_at(v, 0); MC_EXPECT(v[0] == obj[1] && v[n - 2] == obj[2] && !v[n - 1]); break;
    }
    for (c = 0; v && v[c]; c++);
    for (i = 0; i < NO; i++) {
        int k, s = 1;
        for (k = 0; k < c; k++) s += v[k] == obj[i];
        for (k = 0; k < n; k++) s += w[k] == obj[i];
        MC_CHECK((int)obj[i]->ref_count == s, "object %d has %d references, expected %d", i, obj[i]->ref_count, s);
    }
    gutil_objv_free(v);
    gutil_objv_free(w);
    for (i = 0; i < NO; i++) { MC_CHECK(obj[i] && obj[i]->ref_count == 1, "object %d has %d references", i, obj[i] ? obj[i]->ref_count : 0); g_object_unref(obj[i]); MC_EXPECT(!obj[i]); }
    mc_outcome(x);
}

/* Floating references belong to someone else */
static u64 float_count(void) { return 9 * 3; }
static void float_run(u64 x)
{
    GObject *o = g_object_new(G_TYPE_INITIALLY_UNOWNED, NULL), *p, **v = NULL, **w = NULL;
    const int op = x % 9, k = x / 9;
    int i, n = 0;
    obj[0] = o;
    g_object_weak_ref(o, died, obj);
    p = mkobj(1);
    for (i = 0; i < k; i++) v = gutil_objv_add(v, p);
    switch (op) {
    case 0: v = gutil_objv_add(v, o); n = 1; break;
    case 1: v = gutil_objv_insert(v, o, 0); n = 1; break;
    case 2: v = gutil_objv_insert(v, o, k); n = 1; break;
    case 3: gutil_objv_free(v); v = gutil_objv_new(o, k ? p : NULL, NULL); n = 1; break;
    case 4: v = gutil_objv_add(v, o); w = gutil_objv_copy(v); n = 2; break;
    case 5: v = gutil_objv_add(v, o); w = gutil_objv_append(NULL, v); w = gutil_objv_append(w, v); n = 3; break;
    case 6: v = gutil_objv_add(v, o); v = gutil_objv_add(v, o); v = gutil_objv_remove(v, o, FALSE); n = 1; break;
    case 7: v = gutil_objv_add(v, o); v = gutil_objv_add(v, o); v = gutil_objv_remove(v, o, TRUE); break;
    case 8: v = gutil_objv_add(v, o); v = gutil_objv_remove_at(v, k); break;
    }
    MC_CHECK(obj[0] && g_object_is_floating(o), "floating reference has been taken");
    MC_CHECK((int)o->ref_count == n + 1, "%d references, expected %d", o->ref_count, n + 1);
    g_object_ref_sink(o);
    gutil_objv_free(v);
    gutil_objv_free(w);
    MC_CHECK(obj[0] && o->ref_count == 1, "references are lost or leaked");
    g_object_unref(o);
    MC_CHECK(!obj[0], "object is kept alive");
    g_object_unref(p);
    MC_CHECK(!obj[1], "object is kept alive");
    mc_outcome(x + 1);
}

const McSuite mc_suites[] = {
    { .name = "C13.ops", .kind = MC_BFS, .about = "two vectors over three objects (own reference droppable), up to 3 (4) slots, every operation; exact reference accounting; complete up to the size bound",
      .create = create, .nops = nops, .apply = apply, .key = key, .destroy = destroy, .setup = setup, .depth_quick = 5, .depth_thorough = 7 },
    { .name = "C13.sweep", .kind = MC_FAMILY, .about = "lengths 0..119 x 4 operations", .count = sweep_count, .run = sweep_run, .setup = setup },
    { .name = "C13.long", .kind = MC_FAMILY, .about = "15 lengths 255..65537 x 7 operations", .count = long_count, .run = long_run, .setup = setup },
    { .name = "C13.floating", .kind = MC_FAMILY, .about = "Objects with a floating reference, which isn't touched", .count = float_count, .run = float_run, .setup = setup },
    { NULL }
};
