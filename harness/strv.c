/* String vectors: C12 */
#include "mc.h"
#include "gutil_strv.h"

static GStrV* sv;
static struct { int exists, n; char s[12][12]; } m;
static int MAXN;

static const char* const abc[] = { "", "a", "ab", " a\t", "b" };
static int NA = 5;

enum { ADD, ADDOWN, ADDV, REMAT, REM, REMOWN, DUPS, SORT, STRIP, RESET, EMPTY };
typedef struct { int op, x, y; } Op;
static Op ops[256];
static int nops_;

static void setup(void)
{
    int i, j;
    static const int pos[] = { INT_MIN, -1, 0, 1, 2, 100, 101, INT_MAX };
    nops_ = 0;
#define ADD_(o,p,q) ops[nops_++] = (Op){ o, p, q }
    NA = mc_tier == MC_QUICK ? 4 : 5;
    MAXN = 4;
    for (i = 0; i < NA; i++) ADD_(ADD, i, 0);
    ADD_(ADD, -1, 0);
    for (i = 0; i < 3; i++) ADD_(ADDOWN, i, 0);
    for (i = 0; i < 6; i++) ADD_(ADDV, i, 0);
    for (i = 0; i < (int)G_N_ELEMENTS(pos); i++) for (j = 0; j < 2; j++) ADD_(REMAT, pos[i], j);
    for (i = -1; i < NA; i++) for (j = 0; j < 2; j++) ADD_(REM, i, j);
    for (i = 0; i < 4; i++) for (j = 0; j < 2; j++) ADD_(REMOWN, i, j);
    ADD_(DUPS, 0, 0); ADD_(SORT, 1, 0); ADD_(SORT, 0, 0); ADD_(STRIP, 0, 0); ADD_(RESET, 0, 0); ADD_(EMPTY, 0, 0);
}

static void create(void) { sv = NULL; memset(&m, 0, sizeof(m)); }
static int nops(void) { return nops_; }

static void madd(const char* s) { strcpy(m.s[m.n++], s); m.exists = 1; }
static void merase(int i) { memmove(m.s[i], m.s[i + 1], sizeof(m.s[0]) * (m.n - i - 1)); m.n--; }
static int mfind(const char* s) { int i; for (i = 0; i < m.n; i++) if (!strcmp(m.s[i], s)) return i; return -1; }
static int mfind_last(const char* s) { int i; for (i = m.n - 1; i >= 0; i--) if (!strcmp(m.s[i], s)) return i; return -1; }
static int casc(const void* a, const void* b) { return strcmp(a, b); }
static int cdesc(const void* a, const void* b) { return strcmp(b, a); }

static void query(const char* s)
{
    int asc = 1, desc = 1, i, r;
    MC_CHECK(gutil_strv_find(sv, s) == mfind(s), "find(\"%s\") is %d, expected %d", s, gutil_strv_find(sv, s), mfind(s));
    MC_CHECK(gutil_strv_find_last(sv, s) == mfind_last(s), "find_last(\"%s\") is %d, expected %d", s, gutil_strv_find_last(sv, s), mfind_last(s));
    MC_CHECK(!gutil_strv_contains(sv, s) == (mfind(s) < 0), "contains(\"%s\")", s);
    for (i = 1; i < m.n; i++) { int c = strcmp(m.s[i - 1], m.s[i]); if (c > 0) asc = 0; if (c < 0) desc = 0; }
    if (asc) {
        r = gutil_strv_bsearch(sv, s, TRUE);
        MC_CHECK((r < 0) == (mfind(s) < 0) && (r < 0 || (r < m.n && !strcmp(m.s[r], s))), "bsearch(\"%s\") is %d", s, r);
    }
    if (desc) {
        r = gutil_strv_bsearch(sv, s, FALSE);
        MC_CHECK((r < 0) == (mfind(s) < 0) && (r < 0 || (r < m.n && !strcmp(m.s[r], s))), "descending bsearch(\"%s\") is %d", s, r);
    }
}

static void eq(char** other, int want, const char* what)
{
    MC_CHECK(!gutil_strv_equal(sv, other) == !want, "equal() with %s isn't %d", what, want);
    MC_CHECK(!gutil_strv_equal(other, sv) == !want, "equal() of %s isn't %d", what, want);
}

static void observe(void)
{
    int i;
    char* copy[16];
    MC_CHECK(!sv == !m.exists, "vector is %p", sv);
    MC_CHECK((int)gutil_strv_length(sv) == m.n, "length %u, expected %d", gutil_strv_length(sv), m.n);
    if (sv) {
        for (i = 0; i < m.n; i++) {
            MC_CHECK(sv[i] && !strcmp(sv[i], m.s[i]), "string %d is \"%s\", expected \"%s\"", i, sv[i], m.s[i]);
            MC_EXPECT(gutil_strv_at(sv, i) == sv[i]);
        }
        MC_CHECK(!sv[m.n], "not terminated");
    }
    MC_EXPECT(!gutil_strv_at(sv, m.n) && !gutil_strv_at(sv, m.n + 1) && !gutil_strv_at(sv, UINT_MAX) && !gutil_strv_at(sv, 0x80000000u));
    MC_EXPECT(gutil_strv_last(sv) == (m.n ? sv[m.n - 1] : NULL));
    for (i = 0; i < NA; i++) query(abc[i]);
    for (i = 0; i < m.n; i++) query(sv[i]);
    query("zz");
    MC_EXPECT(gutil_strv_find(sv, NULL) == -1 && gutil_strv_find_last(sv, NULL) == -1 && !gutil_strv_contains(sv, NULL));
    MC_EXPECT(gutil_strv_bsearch(sv, NULL, TRUE) == -1);
    /* Equality */
    for (i = 0; i < m.n; i++) copy[i] = m.s[i];
    copy[m.n] = NULL;
    eq(copy, 1, "a copy");
    eq(sv, 1, "itself");
    eq(NULL, !m.n, "NULL");
    for (i = 0; i < m.n; i++) {
        char* save = copy[i];
        copy[i] = "x"; eq(copy, 0, "a changed copy");
        copy[i] = NULL; eq(copy, 0, "a prefix");
        copy[i] = save;
    }
    copy[m.n] = ""; copy[m.n + 1] = NULL;
    eq(copy, 0, "a longer copy");
}

static void show(const char* what)
{
    char s[400];
    int i, k = 0;
    if (!mc_verbose) return;
    s[0] = 0;
    for (i = 0; i < m.n; i++) k += snprintf(s + k, sizeof(s) - k, " \"%s\"", m.s[i]);
    mc_note("%s => expect {%s }", what, s);
}

static int apply(int op)
{
    const int o = ops[op].op, x = ops[op].x, y = ops[op].y;
    char what[100];
    int i, k, p;
    snprintf(what, sizeof(what), "op %d(%d,%d)", o, x, y);
    switch (o) {
    case ADD:
        if (x < 0) { sv = gutil_strv_add(sv, NULL); break; }
        if (m.n >= MAXN) return 0;
        { char* tmp = mc_exact(abc[x], strlen(abc[x]) + 1); sv = gutil_strv_add(sv, tmp); free(tmp); }
        madd(abc[x]);
        break;
    case ADDOWN:
        if (m.n >= MAXN || x >= m.n) return 0;
        sv = gutil_strv_add(sv, sv[x]);
        { char t[12]; strcpy(t, m.s[x]); madd(t); }
        break;
    case ADDV:
        switch (x) {
        case 0: sv = gutil_strv_addv(sv, NULL, NULL); break;
        case 1: if (m.n + 1 > MAXN) return 0; sv = gutil_strv_addv(sv, "a", NULL); madd("a"); break;
        case 2: if (m.n + 2 > MAXN) return 0; sv = gutil_strv_addv(sv, "ab", "", NULL); madd("ab"); madd(""); break;
        case 3: if (m.n + 3 > MAXN) return 0; sv = gutil_strv_addv(sv, "a", "ab", "a", NULL); madd("a"); madd("ab"); madd("a"); break;
        case 4: if (m.n + 2 > MAXN || m.n < 1) return 0; sv = gutil_strv_addv(sv, sv[0], sv[m.n - 1], NULL);
            { char t[2][12]; strcpy(t[0], m.s[0]); strcpy(t[1], m.s[m.n - 1]); madd(t[0]); madd(t[1]); } break;
        case 5: sv = gutil_strv_addv(sv, NULL, "a", NULL); break;
        }
        break;
    case REMAT: {
        char* keep = NULL;
        k = x == 100 ? m.n - 1 : x == 101 ? m.n : x;
        if (k >= 0 && k < m.n && !y) keep = sv[k];
        sv = gutil_strv_remove_at(sv, k, y);
        if (keep) { MC_CHECK(!strcmp(keep, m.s[k]), "the string to be kept has changed"); g_free(keep); }
        if (k >= 0 && k < m.n) merase(k);
        break;
    }
    case REM: case REMOWN: {
        char t[12];
        const char* s;
        if (o == REM) s = x < 0 ? NULL : abc[x];
        else { if (x >= m.n) return 0; s = sv[x]; }
        if (s) strcpy(t, s);
        sv = gutil_strv_remove(sv, s, y);
        if (s) { while ((p = mfind(t)) >= 0) { merase(p); if (!y) break; } }
        break;
    }
    case DUPS:
        sv = gutil_strv_remove_dups(sv);
        for (i = 0; i < m.n; i++) while ((p = mfind_last(m.s[i])) > i) merase(p);
        break;
    case SORT:
        sv = gutil_strv_sort(sv, x);
        qsort(m.s, m.n, sizeof(m.s[0]), x ? casc : cdesc);
        break;
    case STRIP:
        sv = gutil_strv_strip(sv);
        for (i = 0; i < m.n; i++) { char t[12]; strcpy(t, m.s[i]); strcpy(m.s[i], g_strstrip(t)); }
        break;
    case RESET:
        g_strfreev(sv); sv = NULL; m.exists = m.n = 0;
        break;
    case EMPTY:
        if (sv) return 0;
        sv = g_new0(char*, 1);
        m.exists = 1;
        break;
    }
    show(what);
    observe();
    return 1;
}

static void key(void)
{
    int i;
    mc_key_int(m.exists); mc_key_int(m.n);
    for (i = 0; i < m.n; i++) mc_key_bytes(m.s[i], strlen(m.s[i]));
}
static void key_full(void) { key(); mc_key_ptr(sv); }
static void destroy(void) { g_strfreev(sv); }

/*==========================================================================*/

static const char* const sa_short[] = { "", "a", "aa", "b", "\x80", "A" };
static const char* const* sa = sa_short;
#define SA 6
static u64 pw(int n) { u64 k = 1; while (n--) k *= SA; return k; }
static u64 vec_count(void) { int l, max = mc_tier == MC_QUICK ? 5 : 7; u64 n = 0; for (l = 0; l <= max; l++) n += pw(l); return n; }
static const char* vx[16];
static int vn;
static int pasc(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static int pdesc(const void* a, const void* b) { return strcmp(*(char**)b, *(char**)a); }

static void vec_check(char** v, const char** e, int n, const char* what)
{
    int i;
    MC_CHECK((int)gutil_strv_length(v) == n, "%s: %u strings, expected %d", what, gutil_strv_length(v), n);
    for (i = 0; i < n; i++) MC_CHECK(!strcmp(v[i], e[i]), "%s: string %d is \"%s\", expected \"%s\"", what, i, v[i], e[i]);
    MC_CHECK(!n || !v[n], "%s: not terminated", what);
    mc_step();
}

static void vec_run(u64 x)
{
    int l = 0, i, j, n, dir;
    const char* e[16];
    char** v;
    while (x >= pw(l)) { x -= pw(l); l++; }
    for (i = 0; i < l; i++) { vx[i] = sa[x % SA]; x /= SA; mc_note("\"%s\"", vx[i]); }
    vn = l;
    for (dir = 0; dir < 2; dir++) {
        for (v = NULL, i = 0; i < l; i++) v = gutil_strv_add(v, vx[i]);
        memcpy(e, vx, sizeof(e));
        qsort(e, l, sizeof(e[0]), dir ? pasc : pdesc);
        v = gutil_strv_sort(v, dir);
        vec_check(v, e, l, dir ? "sort" : "sort descending");
        for (i = 0; i < SA; i++) {
            int r = gutil_strv_bsearch(v, sa[i], dir);
            for (j = 0; j < l && strcmp(e[j], sa[i]); j++);
            MC_CHECK((r < 0) == (j == l) && r < l && (r < 0 || !strcmp(v[r], sa[i])), "bsearch(%s) is %d", sa[i], r);
        }
        g_strfreev(v);
    }
    for (v = NULL, i = 0; i < l; i++) v = gutil_strv_add(v, vx[i]);
    for (i = 0; i < SA; i++) {
        int last;
        for (j = 0; j < l && strcmp(vx[j], sa[i]); j++);
        for (last = l - 1; last >= 0 && strcmp(vx[last], sa[i]); last--);
        MC_CHECK(gutil_strv_find(v, sa[i]) == (j < l ? j : -1), "find(%s) is %d", sa[i], gutil_strv_find(v, sa[i]));
        MC_CHECK(gutil_strv_find_last(v, sa[i]) == last, "find_last(%s) is %d", sa[i], gutil_strv_find_last(v, sa[i]));
        MC_CHECK(!gutil_strv_contains(v, sa[i]) == (j == l), "contains(%s)", sa[i]);
        for (n = 0; n < l; n++) {
            char** w = g_strdupv(v);
            g_free(w[n]);
            w[n] = g_strdup(sa[i]);
            MC_CHECK(!gutil_strv_equal(v, w) == !!strcmp(sa[i], vx[n]), "equal");
            g_strfreev(w);
        }
    }
    /* Vectors sharing some of the strings */
    for (n = 0; n < l; n++) for (i = 0; i <= SA; i++) {
        char* w[SA + 16];
        for (j = 0; j <= l; j++) w[j] = v[j];
        w[n] = i < SA ? (char*)sa[i] : NULL;
        MC_CHECK(!gutil_strv_equal(v, w) == !(i < SA && !strcmp(sa[i], vx[n])), "equal to the one sharing its strings");
        MC_CHECK(!gutil_strv_equal(w, v) == !(i < SA && !strcmp(sa[i], vx[n])), "equal to the one sharing its strings");
    }
    v = gutil_strv_remove_dups(v);
    for (n = 0, i = 0; i < l; i++) {
        for (j = 0; j < n && strcmp(e[j], vx[i]); j++);
        if (j == n) e[n++] = vx[i];
    }
    vec_check(v, e, n, "remove_dups");
    g_strfreev(v);
    for (j = 0; j < SA; j++) {
        for (v = NULL, i = 0; i < l; i++) v = gutil_strv_add(v, vx[i]);
        v = gutil_strv_remove(v, sa[j], TRUE);
        for (n = 0, i = 0; i < l; i++) if (strcmp(vx[i], sa[j])) e[n++] = vx[i];
        vec_check(v, e, n, "remove all");
        g_strfreev(v);
    }
    mc_outcome(mc_hash(vx, l * sizeof(vx[0]), l));
}

/* Strings having a lot in common */
static const int pre_len[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096 };
static u64 pre_vectors(void) { return 1 + pw(1) + pw(2) + pw(3) + (mc_tier == MC_QUICK ? 0 : pw(4)); }
static u64 pre_count(void) { return pre_vectors() * G_N_ELEMENTS(pre_len); }
static void pre_run(u64 x)
{
    const int len = pre_len[x / pre_vectors()];
    char* s[SA];
    int k;
    for (k = 0; k < SA; k++) {
        s[k] = g_malloc(len + 2);
        memset(s[k], 'p', len);
        s[k][len] = s[k][len + 1] = 0;
    }
    s[1][len] = 'a';
    s[2][len] = 'b';
    s[3][0] = 'q';
    s[4][len - 1] = 'q';
    s[5][len / 2] = '\x80';
    sa = (const char* const*)s;
    vec_run(x % pre_vectors());
    sa = sa_short;
    mc_outcome(x + 1);
    for (k = 0; k < SA; k++) g_free(s[k]);
}

static u64 sweep_count(void) { return 130 * 3; }
static void sweep_run(u64 x)
{
    const int n = x / 3, k = x % 3;
    char** v = NULL;
    int i;
    char buf[400];
    for (i = 0; i < n; i++) {
        snprintf(buf, sizeof(buf), "%d", (i * 37) % 53);
        v = gutil_strv_add(v, buf);
    }
    MC_EXPECT((int)gutil_strv_length(v) == n);
    for (i = 0; i < n; i++) {
        snprintf(buf, sizeof(buf), "%d", (i * 37) % 53);
        MC_EXPECT(!strcmp(gutil_strv_at(v, i), buf));
        MC_EXPECT(gutil_strv_find(v, buf) == i % 53);
    }
    switch (k) {
    case 0: v = gutil_strv_remove_dups(v); MC_CHECK((int)gutil_strv_length(v) == MIN(n, 53), "%u after remove_dups", gutil_strv_length(v)); break;
    case 1: v = gutil_strv_sort(v, TRUE); for (i = 1; i < n; i++) MC_EXPECT(strcmp(v[i - 1], v[i]) <= 0);
        for (i = 0; i < n; i++) MC_EXPECT(!strcmp(v[gutil_strv_bsearch(v, v[i], TRUE)], v[i])); break;
    case 2: /* Strings of length n, own element removal */
        g_strfreev(v); v = NULL;
        memset(buf, 'q', n); buf[n] = 0;
        v = gutil_strv_addv(v, buf, "x", buf, buf, NULL);
        MC_EXPECT(gutil_strv_length(v) == 4 && !strcmp(v[3], buf) && strlen(v[0]) == (gsize)n);
        v = gutil_strv_remove(v, v[3], TRUE);
        MC_EXPECT(gutil_strv_length(v) == 1 && !strcmp(v[0], "x"));
        break;
    }
    mc_note("length %d op %d", n, k);
    mc_outcome(x);
    g_strfreev(v);
}

/* Long vectors, long strings. The functions which append are linear, so the longest vectors are made directly */
static const int long_n[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537 };
#define NLONG ((int)G_N_ELEMENTS(long_n))
#define NLOPS 10
static u64 long_count(void) { return NLONG * NLOPS; }
static void long_run(u64 x)
{
    const int n = long_n[x % NLONG], k = x / NLONG;
    char** v = g_new0(char*, n + 1);
    char** w;
    char* kept;
    int i;
    mc_note("%d strings, operation %d", n, k);
    for (i = 0; i < n; i++) v[i] = g_strdup_printf("%07d", (int)((i * 40503LL) % 1000003));
    if (n > 5000 && (k == 2 || k == 3)) for (i = 0; i < n; i++) { /* Nearly sorted, lest a simple algorithm takes too long */
        int d = (i % 1021) ? i : (int)((i * 40503LL) % n);
        g_snprintf(v[i], 8, "%07d", k == 2 ? d : n - d);
    }
    w = g_strdupv(v);
    MC_CHECK((int)gutil_strv_length(v) == n && !gutil_strv_at(v, n), "length %u", gutil_strv_length(v));
    MC_CHECK(gutil_strv_at(v, n - 1) == v[n - 1] && gutil_strv_last(v) == v[n - 1], "the last string");
    MC_CHECK(gutil_strv_find(v, w[n - 1]) == n - 1 && gutil_strv_contains(v, w[n - 1]), "find the last string");
    MC_CHECK(gutil_strv_equal(v, w), "equal");
    switch (k) {
    case 0: v = gutil_strv_add(v, "end"); MC_CHECK(!strcmp(v[n], "end") && !v[n + 1] && (int)gutil_strv_length(v) == n + 1 && !gutil_strv_equal(v, w), "add");
        v = gutil_strv_remove_at(v, n, TRUE); MC_CHECK(gutil_strv_equal(v, w), "remove the added string"); break;
    case 1: v = gutil_strv_addv(v, "a", "b", "a", NULL); MC_CHECK(!strcmp(v[n + 1], "b") && !v[n + 3], "addv");
        v = gutil_strv_remove_all(v, "a"); MC_CHECK(!strcmp(v[n], "b") && !v[n + 1], "remove all"); break;
    case 2: v = gutil_strv_sort(v, TRUE); for (i = 1; i < n; i++) MC_CHECK(strcmp(v[i - 1], v[i]) <= 0, "order");
        for (i = 0; i < n; i += 1 + n / 500) { int b = gutil_strv_bsearch(v, w[i], TRUE); MC_CHECK(b >= 0 && !strcmp(v[b], w[i]), "search for %s", w[i]); }
        MC_CHECK(gutil_strv_bsearch(v, v[n - 1], TRUE) == n - 1 && gutil_strv_bsearch(v, "x", TRUE) < 0, "search for the last one"); break;
    case 3: v = gutil_strv_sort(v, FALSE); for (i = 1; i < n; i++) MC_CHECK(strcmp(v[i - 1], v[i]) >= 0, "order");
        for (i = 0; i < n; i += 1 + n / 500) { int b = gutil_strv_bsearch(v, w[i], FALSE); MC_CHECK(b >= 0 && !strcmp(v[b], w[i]), "search for %s", w[i]); } break;
    case 4: v = gutil_strv_remove_at(v, 0, TRUE); MC_CHECK((int)gutil_strv_length(v) == n - 1 && gutil_strv_equal(v, w + 1), "remove the first one"); break;
    case 5: kept = v[n - 1]; v = gutil_strv_remove_at(v, n - 1, FALSE); MC_CHECK((int)gutil_strv_length(v) == n - 1 && !strcmp(kept, w[n - 1]) && !strcmp(v[n - 2], w[n - 2]), "remove the last one"); g_free(kept); break;
    case 6: v = gutil_strv_remove_one(v, v[n - 1]); MC_CHECK((int)gutil_strv_length(v) == n - 1 && !strcmp(v[n - 2], w[n - 2]), "remove the last one by value"); break;
    case 7: for (i = 0; i < n; i++) v[i][6] |= 0x20; g_free(v[n - 1]); v[n - 1] = g_strdup(" x "); v = gutil_strv_strip(v);
        MC_CHECK(!strcmp(v[n - 1], "x") && strlen(v[n - 2]) == 7 && (int)gutil_strv_length(v) == n, "strip"); break;
    case 8: g_free(v[n - 1]); v[n - 1] = g_strdup("zz"); MC_CHECK(!gutil_strv_equal(v, w) && !gutil_strv_equal(w, v), "a difference in the last one"); break;
    case 9: { /* A long string */
        char* s = g_malloc(n + 3);
        memset(s, 'q', n); s[0] = ' '; s[n] = '\t'; s[n + 1] = 0;
        g_strfreev(v);
        v = gutil_strv_addv(NULL, s, "x", s, NULL);
        MC_CHECK(strlen(v[2]) == (gsize)n + 1 && gutil_strv_find(v, s) == 0, "a long string");
        v = gutil_strv_strip(gutil_strv_remove_at(v, 0, TRUE));
        s[n] = 0;
        MC_CHECK(gutil_strv_find(v, s + 1) == 1 && gutil_strv_length(v) == 2, "a long string stripped");
        g_free(s);
        break; }
    }
    if (n < 2000 && (k == 4 || k == 5)) {
        /* Every other string twice */
        for (i = 0; i < n - 1; i += 2) v = gutil_strv_add(v, v[i]);
        MC_EXPECT((int)gutil_strv_length(v) == n - 1 + (n - 1 + 1) / 2);
        v = gutil_strv_remove_dups(v);
        MC_CHECK((int)gutil_strv_length(v) == n - 1 && !strcmp(v[n - 2], w[k == 4 ? n - 1 : n - 2]), "%u left without duplicates", gutil_strv_length(v));
    }
    mc_outcome(x);
    g_strfreev(v);
    g_strfreev(w);
}

/* Strip: all strings of up to 4 characters over whitespace and not whitespace */
static const char ws[] = { ' ', '\t', '\n', '\r', 'a', '\f', '\v', (char)0xa0, '\b', '.' };
static u64 strip_count(void) { return 1 + 10 + 100 + 1000 + 10000; }
static void strip_run(u64 x)
{
    int l = 0, i;
    u64 n = 1;
    char s[8], t[8];
    char** v;
    while (x >= n) { x -= n; n *= 10; l++; }
    for (i = 0; i < l; i++) { s[i] = ws[x % 10]; x /= 10; }
    s[l] = 0;
    v = gutil_strv_addv(NULL, s, "k", s, NULL);
    v = gutil_strv_strip(v);
    {
        int b = 0, e = l;
        while (b < e && g_ascii_isspace(s[b])) b++;
        while (e > b && g_ascii_isspace(s[e - 1])) e--;
        memcpy(t, s + b, e - b); t[e - b] = 0;
    }
    MC_CHECK(!strcmp(v[0], t) && !strcmp(v[2], t) && !strcmp(v[1], "k") && !v[3], "stripped to \"%s\", expected \"%s\"", v[0], t);
    mc_outcome(mc_hash(t, strlen(t), 0));
    mc_note("strip \"%s\" => \"%s\"", s, v[0]);
    g_strfreev(v);
}

const McSuite mc_suites[] = {
    { .name = "C12.ops", .kind = MC_BFS, .about = "one vector over 4 (5) strings incl. empty and blank, up to 4 elements, every operation incl. own elements as arguments, absent and empty vectors; states are contents: complete",
      .create = create, .nops = nops, .apply = apply, .key = key, .destroy = destroy, .setup = setup, .depth_quick = 100, .depth_thorough = 100 },
    { .name = "C12.heap", .kind = MC_BFS, .about = "same, states include the real heap graph",
      .create = create, .nops = nops, .apply = apply, .key = key_full, .destroy = destroy, .setup = setup, .depth_quick = 5, .depth_thorough = 12 },
    { .name = "C12.vectors", .kind = MC_FAMILY, .about = "all vectors up to length 5 (7) over 6 strings: sort, bsearch, remove_dups, remove all",
      .count = vec_count, .run = vec_run, .split = 4 },
    { .name = "C12.prefix", .kind = MC_FAMILY, .about = "25 prefixes up to 4096 characters, all vectors of up to 3 (4) of 6 strings having those in common", .count = pre_count, .run = pre_run, .split = 2 },
    { .name = "C12.sweep", .kind = MC_FAMILY, .about = "vector lengths and string lengths 0..129", .count = sweep_count, .run = sweep_run },
    { .name = "C12.long", .kind = MC_FAMILY, .about = "18 lengths 255..65537 x 10 operations", .count = long_count, .run = long_run, .split = 4, .slow_s = 60 },
    { .name = "C12.strip", .kind = MC_FAMILY, .about = "all strings up to length 4 over 10 characters", .count = strip_count, .run = strip_run },
    { NULL }
};
