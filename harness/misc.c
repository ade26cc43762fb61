/* Hex, numbers, byte blocks and small helpers: C05, C06, C07, C28 */
#include "mc.h"
#include "gutil_misc.h"
#include "gutil_strv.h"
#include <glib-object.h>
#include <sys/mman.h>

static int quick(void) { return mc_tier == MC_QUICK; }

static u64 cnt(u64 q, u64 t) { return quick() ? q : t; }

/*==========================================================================*
 * C05: hex
 *==========================================================================*/

static int hexval(int c)
{
    return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 :
        (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1;
}

/* Conversion of n characters, exactly n characters and n/2 bytes are there */
static void hex2bin_check(const guchar* s, gssize n)
{
    guchar want[64], *in = mc_exact(s, n), *out = mc_exact(NULL, n / 2);
    gssize i;
    int ok = n > 0 && !(n & 1);
    void* ret;
    GBytes* b;
    for (i = 0; i < n; i++) if (hexval(s[i]) < 0) ok = 0;
    for (i = 0; ok && i < n / 2; i++) want[i] = hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]);
    ret = gutil_hex2bin((char*)in, n, out);
    MC_CHECK(ret == (ok ? out : NULL), "hex2bin(%.*s, %d) %s", (int)n, (char*)s, (int)n, ok ? "refused" : "accepted");
    if (ok) MC_CHECK(!memcmp(out, want, n / 2), "hex2bin(%.*s) is wrong", (int)n, (char*)s);
    MC_CHECK(!memcmp(in, s, n), "hex2bin modified its input");
    MC_EXPECT(!gutil_hex2bin((char*)in, n, NULL));
    b = gutil_hex2bytes((char*)in, n);
    MC_CHECK(!b == !ok, "hex2bytes(%.*s, %d) %s", (int)n, (char*)s, (int)n, ok ? "refused" : "accepted");
    if (b) {
        gsize size;
        const void* d = g_bytes_get_data(b, &size);
        MC_CHECK(size == (gsize)n / 2 && !memcmp(d, want, size), "hex2bytes(%.*s) is wrong", (int)n, (char*)s);
        g_bytes_unref(b);
    }
    free(in);
    free(out);
    /* Null-terminated */
    if (!memchr(s, 0, n)) {
        in = mc_exact(NULL, n + 1);
        memcpy(in, s, n);
        in[n] = 0;
        b = gutil_hex2bytes((char*)in, -1);
        MC_CHECK(!b == !ok, "hex2bytes(%s, -1) %s", (char*)in, ok ? "refused" : "accepted");
        if (b) {
            gsize size;
            const void* d = g_bytes_get_data(b, &size);
            MC_CHECK(size == (gsize)n / 2 && !memcmp(d, want, size), "hex2bytes(%s) is wrong", (char*)in);
            g_bytes_unref(b);
        }
        b = gutil_hex2bytes((char*)in, INT_MIN);
        MC_EXPECT(!b == !ok);
        if (b) g_bytes_unref(b);
        free(in);
    }
    mc_outcome(mc_hash(s, n, ok));
    mc_steps(4);
}

/* Any two characters in the first, any other or last position of 1..n bytes */
#define PAIR_LENS 4
static u64 hexpair_count(void) { return (u64)65536 * PAIR_LENS * 3; }
static void hexpair_run(u64 i)
{
    static const int lens[PAIR_LENS] = { 2, 4, 6, 16 };
    const int n = lens[(i >> 16) % PAIR_LENS], where = (int)((i >> 16) / PAIR_LENS);
    guchar s[32] = "7Fa09bCd3E1246f8";
    const int pos = where == 0 ? 0 : where == 1 ? (n / 2) & ~1 : n - 2;
    if (n == 2 && where) return;
    s[pos] = i & 0xff;
    s[pos + 1] = (i >> 8) & 0xff;
    hex2bin_check(s, n);
}

/* All strings over an alphabet, of each length including odd ones */
static const char hexalpha[] = "09afAFgG/:@`x \xff";
#define HA ((int)sizeof(hexalpha))      /* With NUL */
static int hexstr_max(void) { return quick() ? 5 : 6; }
static u64 hexstr_count(void) { u64 n = 1, t = 0; int k; for (k = 0; k <= hexstr_max(); k++) { t += n; n *= HA; } return t; }
static void hexstr_run(u64 i)
{
    guchar s[16];
    int k, n = 0;
    u64 c = 1;
    while (i >= c) { i -= c; c *= HA; n++; }
    for (k = 0; k < n; k++) { s[k] = hexalpha[i % HA]; i /= HA; }
    hex2bin_check(s, n);
    if (!n) {
        char out[1] = { 7 };
        MC_EXPECT(!gutil_hex2bin("11", 0, out));
        MC_EXPECT(!gutil_hex2bin("11", -2, out));
        MC_EXPECT(!gutil_hex2bin("11", -1, out));
        MC_EXPECT(!gutil_hex2bin(NULL, 2, out));
        MC_EXPECT(!gutil_hex2bin(NULL, 0, NULL));
        MC_EXPECT(!gutil_hex2bytes(NULL, 2));
        MC_EXPECT(!gutil_hex2bytes(NULL, -1));
        MC_EXPECT(!gutil_hex2bytes("", -1));
        MC_EXPECT(!gutil_hex2bytes("11", 0));
        MC_EXPECT(out[0] == 7);
        MC_EXPECT(!gutil_data2hex(NULL, TRUE) && !gutil_data2hex(NULL, FALSE));
    }
}

/* There and back: all pairs of bytes in a block of each length */
static u64 round_count(void) { return cnt(40 * 256, 40 * 65536); }
static void round_run(u64 i)
{
    const int n = i % 40, v = (int)(i / 40);
    guchar b[40], *in;
    int k, up;
    for (k = 0; k < n; k++) b[k] = (k & 1) ? (v >> 8) + k * 17 : v + k;
    in = mc_exact(b, n);
    for (up = 0; up < 3; up++) {
        static const char* digits[] = { "0123456789abcdef", "0123456789ABCDEF" };
        GUtilData d = { in, n };
        char* s = gutil_bin2hex(n ? in : NULL, n, up);
        char* s2 = gutil_data2hex(&d, up);
        MC_CHECK(strlen(s) == 2 * n, "bin2hex: %d bytes, %d characters", n, (int)strlen(s));
        MC_CHECK(!strcmp(s, s2), "data2hex isn't bin2hex");
        for (k = 0; k < n; k++)
            MC_CHECK(s[2 * k] == digits[!!up][b[k] >> 4] && s[2 * k + 1] == digits[!!up][b[k] & 15], "bin2hex of %02x at %d is %.2s", b[k], k, s + 2 * k);
        if (n) {
            guchar* out = mc_exact(NULL, n);
            GBytes* by = gutil_hex2bytes(s, -1);
            MC_CHECK(gutil_hex2bin(s, 2 * n, out) == out && !memcmp(out, b, n), "hex2bin of %s isn't the source", s);
            MC_CHECK(by && g_bytes_get_size(by) == (gsize)n && !memcmp(g_bytes_get_data(by, NULL), b, n), "hex2bytes of %s isn't the source", s);
            g_bytes_unref(by);
            free(out);
        }
        mc_outcome(mc_hash(s, 2 * n, 0));
        g_free(s);
        g_free(s2);
        mc_steps(4);
    }
    MC_EXPECT(!memcmp(in, b, n));
    free(in);
}

/* Long ones, with and without a wrong digit */
static const int hexlong_n[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20 };
#define HEXLONG ((int)G_N_ELEMENTS(hexlong_n))
#define HEXSHORT 127
static u64 hexlong_count(void) { return (HEXLONG + HEXSHORT) * 2 * 9; }
static void hexlong_run(u64 i)
{
    const int x = i % (HEXLONG + HEXSHORT), up = i / (HEXLONG + HEXSHORT) % 2, bad = i / (HEXLONG + HEXSHORT) / 2;
    const int n = x < HEXSHORT ? x + 1 : hexlong_n[x - HEXSHORT];
    static const char wrong[] = "gG/:@` \x80";
    guchar *b = mc_exact(NULL, n), *out = mc_exact(NULL, n);
    GUtilData d = { b, n };
    GBytes* by;
    char *s, *s2, *e;
    int k;
    for (k = 0; k < n; k++) b[k] = (guchar)(k * 37 + k / 256 + x);
    s = gutil_bin2hex(b, n, up);
    s2 = gutil_data2hex(&d, up);
    MC_CHECK(strlen(s) == 2 * (gsize)n && !strcmp(s, s2), "bin2hex of %d bytes", n);
    for (k = 0; k < n; k++) {
        const char* digits = up ? "0123456789ABCDEF" : "0123456789abcdef";
        MC_CHECK(s[2 * k] == digits[b[k] >> 4] && s[2 * k + 1] == digits[b[k] & 15], "bin2hex of %d bytes is wrong at %d", n, k);
    }
    if (bad) s[bad == 1 ? 0 : bad == 2 ? 1 : bad == 3 ? n : bad == 4 ? 2 * n - 2 : bad == 5 ? 2 * n - 1 : (int)((u64)(bad - 5) * 2 * n / 4)] = wrong[(x + bad) % 8];
    e = (char*)mc_exact((guchar*)s, 2 * n);
    MC_CHECK(!gutil_hex2bin(e, 2 * n, out) == !!bad, "%d digits are %s", 2 * n, bad ? "accepted" : "refused");
    if (!bad) MC_CHECK(!memcmp(out, b, n), "%d digits are converted into something else", 2 * n);
    MC_EXPECT(!gutil_hex2bin(e, 2 * n - 1, out) && !gutil_hex2bytes(e, 2 * n - 1));
    for (k = 0; k < 2; k++) {
        by = k ? gutil_hex2bytes(s, -1) : gutil_hex2bytes(e, 2 * n);
        MC_CHECK(!by == !!bad, "%d digits are %s", 2 * n, bad ? "accepted" : "refused");
        if (by) {
            MC_CHECK(g_bytes_get_size(by) == (gsize)n && !memcmp(g_bytes_get_data(by, NULL), b, n), "%d digits are converted into something else", 2 * n);
            g_bytes_unref(by);
        }
    }
    mc_steps(6);
    mc_outcome(i + 1);
    free(e); free(b); free(out);
    g_free(s); g_free(s2);
}

/* Dump lines */
static u64 dump_count(void) { return 256 * (16 + 1) * 36; }
static void dump_run(u64 i)
{
    const int v = i & 0xff, pos = (int)(i >> 8) % 17, n = (int)(i >> 8) / 17;
    guchar b[40], *in;
    char want[GUTIL_HEXDUMP_BUFSIZE], *buf = mc_exact(NULL, GUTIL_HEXDUMP_BUFSIZE);
    int k, off = 0;
    guint ret;
    const int shown = MIN(n, 16);
    for (k = 0; k < 40; k++) b[k] = 'A' + k * 7;
    if (pos < 16) b[pos] = v; else for (k = 0; k < 40; k++) b[k] = v;
    /* There is no more than this to read */
    in = mc_exact(b, shown);
    memset(want, ' ', sizeof(want));
    for (k = 0; k < shown; k++) {
        char h[3];
        snprintf(h, sizeof(h), "%02x", b[k]);
        off = k * 3 + (k >= 8);
        want[off] = h[0]; want[off + 1] = h[1];
        want[16 * 3 + 4 + k + (k >= 8)] = (b[k] >= 0x20 && b[k] < 0x7f) ? b[k] : '.';
    }
    want[16 * 3 + 4 + shown + (shown > 8)] = 0;
    memset(buf, 1, GUTIL_HEXDUMP_BUFSIZE);
    /* How much more there is doesn't matter */
    ret = gutil_hexdump(buf, in, n < 32 ? n : ((guint[]){ 255, 0x10000, 0x7fffffff, 0xffffffff })[n - 32]);
    MC_CHECK(ret == (guint)shown, "hexdump of %d bytes returned %u", n, ret);
    MC_CHECK(memchr(buf, 0, GUTIL_HEXDUMP_BUFSIZE), "hexdump isn't terminated");
    MC_CHECK(!strcmp(buf, want), "hexdump of %d bytes:\n%s\n%s (expected)", n, buf, want);
    mc_outcome(mc_hash(buf, strlen(buf), 0));
    free(in);
    free(buf);
}

/*==========================================================================*
 * C06: numbers
 *==========================================================================*/

static int isspace_(int c) { return c == ' ' || (c >= '\t' && c <= '\r' && c != '\v'); }

/* Complete literal? */
static int ref_parse(const char* s0, int base, int sign, __int128* out)
{
    const char* s = s0;
    const char* e;
    __int128 v = 0;
    const __int128 big = (__int128)1 << 100;
    int neg = 0, digits = 0;
    if (!s) return 0;
    while (isspace_((guchar)*s)) s++;
    e = s + strlen(s);
    while (e > s && isspace_((guchar)e[-1])) e--;
    if (base < 0 || base == 1 || base > 36) return 0;
    if (s < e && (*s == '-' || *s == '+')) { neg = (*s == '-'); s++; }
    if (neg && !sign) return 0;
    if (e - s > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && (base == 0 || base == 16)) { s += 2; base = 16; }
    else if (!base) base = s < e && *s == '0' ? 8 : 10;
    for (; s < e; s++, digits++) {
        const int c = *s;
        const int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'z') ? c - 'a' + 10 :
            (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : 99;
        if (d >= base) return 0;
        if (v < big) v = v * base + d;
    }
    if (!digits) return 0;
    *out = neg ? -v : v;
    return 1;
}

static void parse_check(const char* s0, int base)
{
    const gsize n = strlen(s0) + 1;
    char* s = mc_exact(s0, n);
    __int128 v = 0;
    int t, okv, ok;

    for (t = 0; t < 4; t++) {
        static const char* names[] = { "int", "uint", "int64", "uint64" };
        const int sign = !(t & 1);
        const u64 junk = 0x5a5a5a5a5a5a5a5aULL;
        u64 val = junk, want = junk;
        gboolean r, r0;
        okv = ref_parse(s0, base, sign, &v);
        ok = okv && (t == 0 ? (v >= INT_MIN && v <= INT_MAX) : t == 1 ? v <= (__int128)UINT_MAX :
            t == 2 ? (v >= (__int128)G_MININT64 && v <= (__int128)G_MAXINT64) : v <= (__int128)G_MAXUINT64);
        switch (t) {
        case 0: r = gutil_parse_int(s, base, (int*)&val); r0 = gutil_parse_int(s, base, NULL); break;
        case 1: r = gutil_parse_uint(s, base, (guint*)&val); r0 = gutil_parse_uint(s, base, NULL); break;
        case 2: r = gutil_parse_int64(s, base, (gint64*)&val); r0 = gutil_parse_int64(s, base, NULL); break;
        default: r = gutil_parse_uint64(s, base, (guint64*)&val); r0 = gutil_parse_uint64(s, base, NULL); break;
        }
        if (ok) { if (t < 2) memcpy(&want, &(guint){ (guint)v }, 4); else want = (u64)v; }
        MC_CHECK(!r == !ok, "parse_%s(\"%s\", %d) %s", names[t], s0, base, ok ? "refused" : "accepted");
        MC_CHECK(!r0 == !ok, "parse_%s(\"%s\", %d, NULL) %s", names[t], s0, base, ok ? "refused" : "accepted");
        MC_CHECK(val == want, ok ? "parse_%s(\"%s\", %d) is wrong" : "parse_%s(\"%s\", %d) touched the output of a refused number", names[t], s0, base);
        MC_CHECK(!memcmp(s, s0, n), "parse_%s modified its input", names[t]);
        mc_outcome(val * 8 + t * 2 + ok + 1);
    }
    mc_steps(8);
    free(s);
}

static const int bases[] = { 0, 10, 16, 8, 2, 36, 3, 35, 1, 37, -1, INT_MAX, INT_MIN };
static const char numalpha[] = " \n\v+-017fxZ.\x80";
#define NA ((int)sizeof(numalpha) - 1)
static int num_max(void) { return quick() ? 5 : 6; }
static int num_bases(void) { return G_N_ELEMENTS(bases); }
static u64 numstr_count(void) { u64 n = 1, t = 0; int k; for (k = 0; k <= num_max(); k++) { t += n; n *= NA; } return t * num_bases(); }
static void numstr_run(u64 i)
{
    char s[16];
    int k, n = 0;
    const int base = bases[i % num_bases()];
    u64 c = 1;
    i /= num_bases();
    while (i >= c) { i -= c; c *= NA; n++; }
    for (k = 0; k < n; k++) { s[k] = numalpha[i % NA]; i /= NA; }
    s[n] = 0;
    parse_check(s, base);
    if (!n) {
        int v = 5;
        MC_EXPECT(!gutil_parse_int(NULL, base, &v) && v == 5);
        MC_EXPECT(!gutil_parse_uint(NULL, base, (guint*)&v) && v == 5);
        MC_EXPECT(!gutil_parse_int64(NULL, base, NULL));
        MC_EXPECT(!gutil_parse_uint64(NULL, base, NULL));
    }
}

/* Every character in every position of a three character text */
static u64 numchr_count(void) { return 255 * 4 * 4; }
static void numchr_run(u64 i)
{
    static const char* tmpl[] = { "?", "?1", "1?", "1?1" };
    static const int bb[] = { 0, 10, 16, 36 };
    char s[8], *q;
    strcpy(s, tmpl[(i / 255) % 4]);
    q = strchr(s, '?');
    *q = (char)(1 + i % 255);
    parse_check(s, bb[i / 255 / 4]);
}

/* Numbers around the limits, in every base, variously decorated */
#define ND 11
#define NLIM 8
#define NDELTA 7
static u64 limit_count(void) { return (u64)37 * NLIM * NDELTA * 2 * ND; }
static void limit_run(u64 i)
{
    const int base = (int[]){ 0 }[0] + (i % 37 == 1 ? 16 : i % 37); i /= 37;
    const int lim = i % NLIM; i /= NLIM;
    const int delta = (int)(i % NDELTA) - 3; i /= NDELTA;
    const int neg = i % 2; i /= 2;
    const int deco = (int)i;
    const int b = base ? base : (deco & 1) ? 16 : 10;
    __int128 v;
    char digits[140], s[200], *p = digits + sizeof(digits) - 1;
    switch (lim) {
    case 0: v = 4; break;
    case 1: v = INT_MAX; break;
    case 2: v = UINT_MAX; break;
    case 3: v = G_MAXINT64; break;
    case 4: v = G_MAXUINT64; break;
    case 5: v = (__int128)G_MAXUINT64 + ((__int128)1 << 32); break;
    case 6: v = (__int128)G_MAXUINT64 * b; break;
    default: v = ((__int128)1 << 90); break;
    }
    v += delta;
    *p = 0;
    do { const int d = (int)(v % b); *--p = d < 10 ? '0' + d : ((deco & 2) ? 'A' : 'a') + d - 10; v /= b; } while (v);
    s[0] = 0;
    if (deco == 3) strcat(s, " ");
    if (deco == 4) strcat(s, "\t\r ");
    strcat(s, neg ? "-" : deco == 5 ? "+" : "");
    if (b == 16 && (!base || deco == 6)) strcat(s, (deco & 2) ? "0X" : "0x");
    else if (deco >= 6 && base) strcat(s, "000000000000000000000000");
    strcat(s, p);
    if (deco == 3 || deco == 8) strcat(s, "\n");
    if (deco == 9) strcat(s, " 0");
    if (deco == 10) strcat(s, "\f \n");
    parse_check(s, base);
}

/*==========================================================================*
 * C07: byte blocks
 *==========================================================================*/

#define MAXB 64
typedef struct { int absent; int n; guchar b[MAXB]; } Blk;

/* Strings over a small alphabet up to n bytes, and an absent one */
static int nblocks(int maxlen) { int n = 1, t = 1, k; for (k = 0; k <= maxlen; k++) { t += n; n *= 3; } return t; }
static void block(Blk* d, int i)
{
    static const guchar alpha[] = { 0, 0x80, 1 };
    int c = 1, k;
    memset(d, 0, sizeof(*d));
    if (!i) { d->absent = 1; return; }
    i--;
    while (i >= c) { i -= c; c *= 3; d->n++; }
    for (k = 0; k < d->n; k++) { d->b[k] = alpha[i % 3]; i /= 3; }
}
static int ref_eq(const Blk* a, const Blk* b) { return a->absent || b->absent ? a->absent == b->absent : a->n == b->n && !memcmp(a->b, b->b, a->n); }
static int ref_begins(const Blk* a, const Blk* b) { return b->n <= a->n && !memcmp(a->b, b->b, b->n); }
static int ref_ends(const Blk* a, const Blk* b) { return b->n <= a->n && !memcmp(a->b + a->n - b->n, b->b, b->n); }

static int pair_len(void) { return quick() ? 4 : 6; }
static u64 pair_count(void) { const u64 n = nblocks(pair_len()); return n * n; }
static void pair_run(u64 i)
{
    Blk A, B, R;
    const int nb = nblocks(pair_len());
    void *pa, *pb;
    GUtilData da, db, *a, *b;
    GBytes *ba, *bb;
    GUtilRange r;
    int k, absent;

    block(&A, i % nb);
    block(&B, (int)(i / nb));
    absent = A.absent || B.absent;
    pa = mc_exact(A.b, A.n);
    pb = mc_exact(B.b, B.n);
    da.bytes = pa; da.size = A.n;
    db.bytes = pb; db.size = B.n;
    a = A.absent ? NULL : &da;
    b = B.absent ? NULL : &db;
    ba = A.absent ? NULL : g_bytes_new(A.b, A.n);
    bb = B.absent ? NULL : g_bytes_new(B.b, B.n);

    MC_EXPECT(!gutil_data_equal(a, b) == !ref_eq(&A, &B));
    MC_EXPECT(gutil_data_equal(a, a) && gutil_data_equal(b, b));
    if (a && b) {
        /* Two ranges of the same memory */
        GUtilData dc;
        if (A.n >= B.n) {
            Blk C = A;
            int off;
            for (off = 0; off <= A.n - B.n; off++) {
                C.n = B.n;
                memcpy(C.b, A.b + off, B.n);
                dc.bytes = da.bytes + off; dc.size = B.n;
                MC_CHECK(!gutil_data_equal(a, &dc) == (A.n != B.n), "ranges of the same memory are compared wrong");
                MC_CHECK(!gutil_data_equal(&dc, a) == (A.n != B.n), "ranges of the same memory are compared wrong");
                MC_CHECK(!gutil_data_equal(&dc, b) == !ref_eq(&C, &B), "wrong result of comparison");
                MC_CHECK(!gutil_data_has_prefix(a, &dc) == !ref_begins(&A, &C), "prefix in the same memory");
                MC_CHECK(!gutil_data_has_suffix(a, &dc) == !ref_ends(&A, &C), "suffix in the same memory");
                MC_CHECK(!gutil_data_has_prefix(&dc, a) == !ref_begins(&C, &A), "prefix longer than data in the same memory");
                MC_CHECK(!gutil_data_has_suffix(&dc, a) == !ref_ends(&C, &A), "suffix longer than data in the same memory");
                if (ba) {
                    MC_CHECK(!gutil_bytes_equal_data(ba, &dc) == !ref_eq(&A, &C), "wrong result of comparison");
                    dc.bytes = (const guint8*)g_bytes_get_data(ba, NULL) + off;
                    if (A.n) {
                        MC_CHECK(!gutil_bytes_equal_data(ba, &dc) == !ref_eq(&A, &C), "bytes are compared wrong with a part of those");
                        MC_CHECK(!gutil_bytes_equal(ba, dc.bytes, dc.size) == !ref_eq(&A, &C), "bytes are compared wrong with a part of those");
                        MC_CHECK(!gutil_bytes_has_prefix(ba, dc.bytes, dc.size) == !ref_begins(&A, &C), "prefix in the same bytes");
                        MC_CHECK(!gutil_bytes_has_suffix(ba, dc.bytes, dc.size) == !ref_ends(&A, &C), "suffix in the same bytes");
                    }
                }
            }
        }
    }
    if (absent) {
        MC_EXPECT(!gutil_data_has_prefix(a, b) == !(A.absent && B.absent));
        MC_EXPECT(!gutil_data_has_suffix(a, b) == !(A.absent && B.absent));
    } else {
        MC_EXPECT(!gutil_data_has_prefix(a, b) == !ref_begins(&A, &B));
        MC_EXPECT(!gutil_data_has_suffix(a, b) == !ref_ends(&A, &B));
    }
    MC_EXPECT(!gutil_bytes_equal_data(ba, b) == !ref_eq(&A, &B));
    MC_EXPECT(!gutil_bytes_equal(ba, B.absent ? NULL : pb, B.n) == !ref_eq(&A, &B));
    if (A.absent) {
        MC_EXPECT(!gutil_bytes_has_prefix(ba, pb, B.n) && !gutil_bytes_has_suffix(ba, pb, B.n));
    } else {
        MC_EXPECT(!gutil_bytes_has_prefix(ba, B.n ? pb : NULL, B.n) == !ref_begins(&A, &B));
        MC_EXPECT(!gutil_bytes_has_suffix(ba, B.n ? pb : NULL, B.n) == !ref_ends(&A, &B));
    }
    /* Ranges */
    memset(&r, 0xff, sizeof(r));
    MC_EXPECT(gutil_range_init_with_bytes(&r, ba) == (gsize)A.n);
    MC_EXPECT(gutil_range_init_with_bytes(NULL, ba) == 0);
    if (ba) {
        MC_EXPECT(r.ptr == g_bytes_get_data(ba, NULL) && r.end == r.ptr + A.n);
    } else {
        MC_EXPECT(!r.ptr && !r.end);
    }
    MC_EXPECT(!gutil_range_has_prefix(NULL, b));
    MC_EXPECT(!gutil_range_skip_prefix(NULL, b));
    for (k = 0; k < 2; k++) {
        GUtilRange r2, was;
        int ok;
        if (!k) {
            r2 = r;
            ok = r2.ptr && b && ref_begins(&A, &B);
        } else {
            if (!a) continue;
            r2.ptr = pa; r2.end = r2.ptr + A.n; /* Not NULL even if empty */
            ok = b && ref_begins(&A, &B);
        }
        was = r2;
        MC_CHECK(!gutil_range_has_prefix(&r2, b) == !ok, "range_has_prefix isn't %d (%d)", ok, k);
        MC_EXPECT(r2.ptr == was.ptr && r2.end == was.end);
        MC_CHECK(!gutil_range_skip_prefix(&r2, b) == !ok, "range_skip_prefix isn't %d (%d)", ok, k);
        MC_CHECK(r2.ptr == was.ptr + (ok ? B.n : 0) && r2.end == was.end, "range_skip_prefix left a wrong range");
        mc_steps(2);
    }
    /* XOR */
    {
        GBytes* x = gutil_bytes_xor(ba, bb);
        if (absent) MC_EXPECT(!x);
        else {
            gsize n;
            const guchar* d;
            GBytes* copy;
            R.n = MIN(A.n, B.n);
            for (k = 0; k < R.n; k++) R.b[k] = A.b[k] ^ B.b[k];
            d = g_bytes_get_data(x, &n);
            MC_CHECK(n == (gsize)R.n && !memcmp(d ? (gpointer)d : R.b, R.b, n), "xor is wrong");
            /* Survives its arguments */
            copy = g_bytes_new(R.b, R.n);
            g_bytes_unref(ba); ba = g_bytes_new(A.b, A.n);
            g_bytes_unref(bb); bb = g_bytes_new(B.b, B.n);
            MC_EXPECT(g_bytes_equal(copy, x));
            g_bytes_unref(copy);
            g_bytes_unref(x);
        }
    }
    MC_EXPECT(!memcmp(pa, A.b, A.n) && !memcmp(pb, B.b, B.n));
    MC_EXPECT(!A.absent ? (ba && g_bytes_get_size(ba) == (gsize)A.n && !memcmp(A.n ? g_bytes_get_data(ba, NULL) : A.b, A.b, A.n)) : !ba);
    if (ba) g_bytes_unref(ba);
    if (bb) g_bytes_unref(bb);
    free(pa);
    free(pb);
    mc_steps(14);
    mc_outcome(i + 1);
}

/* XOR: lengths and alignments */
#define XOR_SHORT ((u64)34 * 34 * 8 * 8)
#define XOR_LONG 300
static u64 xor_count(void) { return XOR_SHORT + (u64)(XOR_LONG - 34) * 3 * 8 * 8; }
static void xor_run(u64 i)
{
    static guchar A[XOR_LONG + 2], B[XOR_LONG + 2];
    const u64 l = i - XOR_SHORT;
    const int lng = i >= XOR_SHORT;
    const int n1 = lng ? 34 + (int)(l / 192) : i % 34, n2 = lng ? n1 - 1 + (int)(l / 64 % 3) : (int)(i / 34 % 34);
    const int o1 = lng ? (int)(l / 8 % 8) : (int)(i / 34 / 34 % 8), o2 = lng ? (int)(l % 8) : (int)(i / 34 / 34 / 8);
    guchar *m1 = mc_exact(NULL, n1 + o1), *m2 = mc_exact(NULL, n2 + o2);
    const int n = MIN(n1, n2);
    GBytes *b1, *b2, *x;
    const guchar* d;
    gsize size;
    int k;
    for (k = 0; k < XOR_LONG + 2; k++) { A[k] = m1 ? 3 + k * 37 : 0; B[k] = 0xf1 - k * 29; }
    memcpy(m1 + o1, A, n1);
    memcpy(m2 + o2, B, n2);
    b1 = g_bytes_new_static(m1 + o1, n1);
    b2 = g_bytes_new_static(m2 + o2, n2);
    x = gutil_bytes_xor(b1, b2);
    MC_EXPECT(!memcmp(m1 + o1, A, n1) && !memcmp(m2 + o2, B, n2));
    free(m1); free(m2);
    MC_EXPECT(x != NULL);
    if (n) {
        d = g_bytes_get_data(x, &size);
        MC_EXPECT(size == (gsize)n);
        for (k = 0; k < n; k++) MC_CHECK(d[k] == (A[k] ^ B[k]), "xor of %d and %d bytes (%d, %d): [%d]", n1, n2, o1, o2, k);
    } else MC_EXPECT(!g_bytes_get_size(x));
    g_bytes_unref(x);
    g_bytes_unref(b1);
    g_bytes_unref(b2);
    mc_outcome(i + 1);
}

/* XOR word by word: each of the words (and the tail after them) of one of the kinds below, at all positions */
#define XW 5
static u64 words_count(void) { u64 n = 1; int k; for (k = 0; k < XW; k++) n *= 6; return n * 8 * (quick() ? 2 : 16); }
static void words_run(u64 i)
{
    guchar A[XW * 8], B[XW * 8];
    const int cut = (int)(i % 8), variant = (int)(i / 8 % (quick() ? 2 : 16));
    const int n = XW * 8 - cut, o1 = quick() ? variant * 3 : variant & 7, o2 = quick() ? 0 : variant >> 1;
    u64 c = i / 8 / (quick() ? 2 : 16);
    guchar *m1 = mc_exact(NULL, n + o1), *m2 = mc_exact(NULL, n + o2);
    GBytes *b1, *b2, *x;
    const guchar* d;
    gsize size;
    int k, j;
    for (k = 0; k < XW; k++) {
        const int kind = (int)(c % 6);
        c /= 6;
        for (j = 0; j < 8; j++) {
            const guchar v = 1 + k * 8 + j, w = 0xf7 - (k * 8 + j) * 3;
            guchar* a = A + k * 8 + j;
            guchar* b = B + k * 8 + j;
            switch (kind) {
            case 0: *a = 0; *b = w; break;
            case 1: *a = v; *b = 0; break;
            case 2: *a = *b = v; break;
            case 3: *a = v; *b = w; break;
            case 4: *a = 0xff; *b = v; break;
            default: *a = *b = 0; break;
            }
        }
    }
    memcpy(m1 + o1, A, n);
    memcpy(m2 + o2, B, n);
    b1 = g_bytes_new_static(m1 + o1, n);
    b2 = g_bytes_new_static(m2 + o2, n);
    x = gutil_bytes_xor(b1, b2);
    MC_EXPECT(!memcmp(m1 + o1, A, n) && !memcmp(m2 + o2, B, n));
    free(m1); free(m2);
    MC_EXPECT(x != NULL);
    d = g_bytes_get_data(x, &size);
    MC_EXPECT(size == (gsize)n);
    for (k = 0; k < n; k++) MC_CHECK(d[k] == (A[k] ^ B[k]), "xor of %d bytes: [%d] is %02x, not %02x", n, k, d[k], A[k] ^ B[k]);
    g_bytes_unref(x);
    g_bytes_unref(b1);
    g_bytes_unref(b2);
    mc_outcome(i + 1);
}

/* Long blocks: one byte different (or none), everywhere it matters */
static const int long_sizes[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513,
    4095, 4096, 4097, 65535, 65536, 65537, 65536 + 256 };
static u64 long_count(void) { return (u64)G_N_ELEMENTS(long_sizes) * G_N_ELEMENTS(long_sizes) * 40; }
static void long_run(u64 i)
{
    const int n1 = long_sizes[i % G_N_ELEMENTS(long_sizes)];
    const int n2 = long_sizes[i / G_N_ELEMENTS(long_sizes) % G_N_ELEMENTS(long_sizes)];
    const int d = (int)(i / G_N_ELEMENTS(long_sizes) / G_N_ELEMENTS(long_sizes)); /* Where they differ */
    const int min = MIN(n1, n2);
    /* At the first 16, at the last 16, at a few in between, nowhere */
    const int pos = d < 16 ? d : d < 32 ? min - 1 - (d - 16) : d < 36 ? min / 2 + d - 34 : d < 39 ? (255 << (d - 36)) : min;
    guchar *m1, *m2, *s1;
    int k, differ;
    GUtilData d1, d2;
    GBytes *b1, *b2, *x;
    GUtilData* copy;
    gsize size;
    const guchar* p;

    if (pos < 0) return;
    m1 = mc_exact(NULL, n1); m2 = mc_exact(NULL, n2);
    for (k = 0; k < n1; k++) m1[k] = (guchar)(k * 7 + (k >> 8));
    for (k = 0; k < n2; k++) m2[k] = (guchar)(k * 7 + (k >> 8));
    differ = pos < min;
    if (differ) m2[pos] ^= 1 << (pos & 7);
    d1.bytes = m1; d1.size = n1;
    d2.bytes = m2; d2.size = n2;
    b1 = g_bytes_new_static(m1, n1);
    b2 = g_bytes_new_static(m2, n2);
    MC_EXPECT(!gutil_data_equal(&d1, &d2) == !(n1 == n2 && !differ));
    MC_EXPECT(!gutil_bytes_equal(b1, m2, n2) == !(n1 == n2 && !differ));
    MC_EXPECT(!gutil_bytes_equal_data(b1, &d2) == !(n1 == n2 && !differ));
    MC_EXPECT(!gutil_data_has_prefix(&d1, &d2) == !(n1 >= n2 && !differ));
    MC_EXPECT(!gutil_bytes_has_prefix(b1, m2, n2) == !(n1 >= n2 && !differ));
    {
        GUtilRange r;
        MC_EXPECT(gutil_range_init_with_bytes(&r, b1) == (gsize)n1);
        MC_EXPECT(!gutil_range_has_prefix(&r, &d2) == !(n1 >= n2 && !differ));
        MC_EXPECT(!gutil_range_skip_prefix(&r, &d2) == !(n1 >= n2 && !differ));
        MC_EXPECT(r.end == m1 + n1 && r.ptr == m1 + (n1 >= n2 && !differ ? n2 : 0));
    }
    if (n2 <= n1) {
        /* The end of the first one */
        s1 = mc_exact(m1 + n1 - n2, n2);
        d2.bytes = s1;
        MC_EXPECT(gutil_data_has_suffix(&d1, &d2));
        MC_EXPECT(gutil_bytes_has_suffix(b1, s1, n2));
        if (differ) {
            s1[pos] ^= 0x80;
            MC_EXPECT(!gutil_data_has_suffix(&d1, &d2));
            MC_EXPECT(!gutil_bytes_has_suffix(b1, s1, n2));
        }
        free(s1);
    } else {
        MC_EXPECT(!gutil_data_has_suffix(&d1, &d2));
        MC_EXPECT(!gutil_bytes_has_suffix(b1, m2, n2));
    }
    x = gutil_bytes_xor(b1, b2);
    p = g_bytes_get_data(x, &size);
    MC_EXPECT(size == (gsize)min);
    for (k = 0; k < min; k++) MC_CHECK(p[k] == (m1[k] ^ m2[k]), "xor of %d and %d bytes: [%d]", n1, n2, k);
    g_bytes_unref(x);
    x = gutil_bytes_concat(b1, b2, NULL);
    p = g_bytes_get_data(x, &size);
    MC_EXPECT(size == (gsize)n1 + n2 && !memcmp(p, m1, n1) && !memcmp(p + n1, m2, n2));
    g_bytes_unref(x);
    copy = gutil_data_copy(&d1);
    MC_EXPECT(copy && copy != &d1 && copy->size == (gsize)n1 && copy->bytes != m1 && !memcmp(copy->bytes, m1, n1));
    g_free(copy);
    copy = gutil_data_new(m1, n1);
    MC_EXPECT(copy && copy->size == (gsize)n1 && copy->bytes != m1 && !memcmp(copy->bytes, m1, n1));
    g_free(copy);
    if (d == 39) {
        GVariant* v = g_variant_ref_sink(gutil_data_copy_as_variant(&d1));
        p = g_variant_get_fixed_array(v, &size, 1);
        MC_EXPECT(size == (gsize)n1 && p != m1 && !memcmp(p, m1, n1));
        g_variant_unref(v);
    }
    g_bytes_unref(b1);
    g_bytes_unref(b2);
    free(m1);
    free(m2);
    mc_outcome(i + 1);
}

/* Concatenation of up to n blocks. Identical objects are possible, too */
static int ncat(void) { return quick() ? 4 : 6; }
static u64 cat_count(void) { u64 n = 1, t = 0; int k; for (k = 0; k <= ncat(); k++) { t += n; n *= 6; } return t; }
static void cat_run(u64 i)
{
    static const char* texts[] = { "", "", "a", "bc", "\0d", "efghijklm" };
    static const int lens[] = { 0, 0, 1, 2, 2, 9 };
    GBytes *pool[6], *arg[8], *x;
    guchar want[80];
    gsize total = 0, size;
    int k, n = 0, j;
    u64 c = 1;
    const void* d;
    while (i >= c) { i -= c; c *= 6; n++; }
    for (k = 0; k < 6; k++) pool[k] = k & 1 ? g_bytes_new_take(g_memdup2(texts[k], lens[k] ? lens[k] : 0), lens[k]) : g_bytes_new(texts[k], lens[k]);
    for (k = 0; k < n; k++) {
        j = i % 6; i /= 6;
        arg[k] = pool[j];
        memcpy(want + total, texts[j], lens[j]);
        total += lens[j];
    }
    for (; k < 8; k++) arg[k] = NULL;
    x = gutil_bytes_concat(arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], NULL);
    for (k = 0; k < 6; k++) {
        MC_EXPECT(g_bytes_get_size(pool[k]) == (gsize)lens[k] && !memcmp(lens[k] ? g_bytes_get_data(pool[k], NULL) : "", texts[k], lens[k]));
        g_bytes_unref(pool[k]);
    }
    if (!n) { MC_EXPECT(!x); return; }
    MC_EXPECT(x != NULL);
    d = g_bytes_get_data(x, &size);
    MC_CHECK(size == total, "%d bytes instead of %d", (int)size, (int)total);
    MC_CHECK(!memcmp(d ? d : "", want, total), "wrong contents");
    mc_outcome(mc_hash(want, total, n));
    g_bytes_unref(x);
}

/* Copies: all blocks, lengths and alignments */
static u64 copy_count(void) { return 70 * 8 + nblocks(6); }
static void copy_run(u64 i)
{
    guchar want[80];
    gsize n;
    int off = 0, k, absent = 0;
    guchar* m;
    GUtilData src, *d, *d2;
    GVariant* v;
    GBytes* b;
    void* dup;

    if (i < 70 * 8) {
        n = i % 70; off = (int)(i / 70);
        for (k = 0; k < (int)n; k++) want[k] = 11 + k * 13;
    } else {
        Blk B;
        block(&B, (int)(i - 70 * 8));
        n = B.n; absent = B.absent;
        memcpy(want, B.b, n);
    }
    m = mc_exact(NULL, off + n);
    memcpy(m + off, want, n);
    src.bytes = m + off;
    src.size = n;
    d = gutil_data_copy(absent ? NULL : &src);
    d2 = gutil_data_new(absent ? NULL : src.bytes, n);
    v = gutil_data_copy_as_variant(absent ? NULL : &src);
    dup = gutil_memdup(absent ? NULL : src.bytes, n);
    b = absent ? NULL : g_bytes_new_static(src.bytes, n);
    if (!absent) {
        GUtilData fb;
        MC_EXPECT(gutil_data_from_bytes(&fb, b) == &fb && fb.size == n && fb.bytes == src.bytes);
    }
    if (b) g_bytes_unref(b);
    MC_EXPECT(!memcmp(m + off, want, n));
    free(m);
    if (absent) {
        GUtilData fb = { (void*)1, 1 };
        MC_EXPECT(!d && !v && !dup);
        MC_EXPECT(d2 && !d2->bytes && !d2->size);
        MC_EXPECT(gutil_data_from_bytes(&fb, NULL) == &fb && !fb.bytes && !fb.size);
        MC_EXPECT(!gutil_data_from_bytes(NULL, NULL));
        fb.size = 1;
        MC_EXPECT(gutil_data_from_string(&fb, NULL) == &fb && !fb.bytes && !fb.size);
        MC_EXPECT(!gutil_data_from_string(NULL, NULL) && !gutil_data_from_string(NULL, "x"));
        g_free(d2);
        d2 = gutil_data_new(NULL, 100);
        MC_EXPECT(d2 && !d2->bytes && !d2->size);
        src.bytes = NULL; src.size = 0;
        g_free(gutil_data_copy(&src));
        v = g_variant_ref_sink(gutil_data_copy_as_variant(&src));
        MC_EXPECT(g_variant_is_of_type(v, G_VARIANT_TYPE_BYTESTRING) && g_variant_n_children(v) == 0);
        g_variant_unref(v);
    } else {
        gsize vn;
        const void* vd;
        GUtilData fs;
        char* str;
        MC_EXPECT(d && d->size == n && !memcmp(d->bytes, want, n));
        MC_EXPECT(d2 && d2->size == n && !memcmp(d2->bytes, want, n));
        MC_EXPECT(v && g_variant_is_floating(v));
        g_variant_ref_sink(v);
        MC_EXPECT(g_variant_is_of_type(v, G_VARIANT_TYPE("ay")));
        vd = g_variant_get_fixed_array(v, &vn, 1);
        MC_CHECK(vn == n && !memcmp(vn ? vd : "", want, n), "variant of %d bytes has %d", (int)n, (int)vn);
        g_variant_unref(v);
        if (n) MC_EXPECT(dup && !memcmp(dup, want, n)); else MC_EXPECT(!dup);
        /* Text */
        for (k = 0; k < (int)n; k++) if (!want[k]) want[k] = 'z';
        want[n] = 0;
        str = mc_exact(want, n + 1);
        MC_EXPECT(gutil_data_from_string(&fs, str) == &fs && fs.bytes == (guchar*)str && fs.size == n);
        MC_EXPECT(gutil_strlen0(str) == n);
        free(str);
    }
    g_free(dup);
    g_free(d);
    g_free(d2);
    mc_steps(8);
    mc_outcome(i + 1);
}

/* Blocks which don't fit in 32 bits */
static u64 huge_count(void) { return quick() ? 0 : 2; }
static void huge_run(u64 i)
{
    const gsize n = ((gsize)1 << 32) + (i ? 3 : 0);
    void* p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    GUtilData src = { p, n }, *d;
    MC_EXPECT(p != MAP_FAILED);
    d = gutil_data_copy(&src);
    MC_CHECK(d->size == n, "copy has a wrong size");
    MC_EXPECT(gutil_data_equal(d, &src));
    MC_EXPECT(d->bytes[n - 1] == 0);
    g_free(d);
    munmap(p, n);
    mc_outcome(i + 1);
}

/*==========================================================================*
 * C28
 *==========================================================================*/

/* A type with a signal */
typedef struct { GObject o; } TObj;
typedef GObjectClass TObjClass;
G_DEFINE_TYPE(TObj, t_obj, G_TYPE_OBJECT)
static guint sig;
static int nfinal;
static void t_fin(GObject* o) { nfinal++; G_OBJECT_CLASS(t_obj_parent_class)->finalize(o); }
static void t_obj_init(TObj* o) { }
static void t_obj_class_init(TObjClass* c)
{
    G_OBJECT_CLASS(c)->finalize = t_fin;
    sig = g_signal_new("sig", G_OBJECT_CLASS_TYPE(c), G_SIGNAL_RUN_FIRST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
}
static int calls[8], destroyed[8];
static void on_sig(TObj* o, gpointer p) { calls[GPOINTER_TO_INT(p)]++; }
static void on_gone(gpointer p, GClosure* c) { destroyed[GPOINTER_TO_INT(p)]++; }

#define NH 4
/* slots: nothing or the handler; other handlers stay; calls per count */
static u64 disc_count(void) { return 5 * 5 * 5 * 5 * 6 * 2; }
static void disc_run(u64 i)
{
    TObj* o;
    gulong id[NH], ids[NH], was[NH];
    int k, count, want[NH], s, twice;
    u64 j = i;
    int used[NH] = { 0 };
    for (s = 0; s < NH; s++) {
        const int x = (int)(j % 5); j /= 5;
        if (x && used[x - 1]++) return; /* Same handler twice is a misuse */
    }
    count = (int)(j % 6) - 1; j /= 6;
    twice = (int)j;
    if (count > NH) return;
    o = g_object_new(t_obj_get_type(), NULL);
    memset(calls, 0, sizeof(calls));
    memset(destroyed, 0, sizeof(destroyed));
    for (k = 0; k < NH; k++) { id[k] = g_signal_connect_data(o, "sig", G_CALLBACK(on_sig), GINT_TO_POINTER(k), on_gone, 0); want[k] = 1; }
    j = i;
    for (s = 0; s < NH; s++) {
        const int x = (int)(j % 5); j /= 5;
        ids[s] = was[s] = x ? id[x - 1] : 0;
        if (x && s < count) { want[x - 1] = 0; was[s] = 0; }
    }
    gutil_disconnect_handlers(NULL, ids, count);
    gutil_disconnect_handlers(o, NULL, count);
    for (k = 0; k < NH; k++) MC_EXPECT(!destroyed[k]);
    gutil_disconnect_handlers(o, ids, count);
    if (twice) gutil_disconnect_handlers(o, ids, count);
    for (k = 0; k < NH; k++) {
        MC_CHECK(ids[k] == was[k], "slot %d is %lu, expected %lu", k, ids[k], was[k]);
        MC_CHECK(destroyed[k] == !want[k], "handler %d released %d times", k, destroyed[k]);
    }
    g_signal_emit(o, sig, 0);
    for (k = 0; k < NH; k++) MC_CHECK(calls[k] == want[k], "handler %d called %d times", k, calls[k]);
    nfinal = 0;
    MC_EXPECT(gutil_object_ref(o) == o);
    gutil_object_unref(o);
    MC_EXPECT(!nfinal);
    gutil_object_unref(o);
    MC_EXPECT(nfinal == 1);
    MC_EXPECT(!gutil_object_ref(NULL));
    gutil_object_unref(NULL);
    /* Floating reference belongs to someone else */
    o = g_object_new(G_TYPE_INITIALLY_UNOWNED, NULL);
    MC_EXPECT(gutil_object_ref(o) == o && ((GObject*)o)->ref_count == 2 && g_object_is_floating(o));
    g_object_ref_sink(o);
    gutil_object_unref(o);
    MC_EXPECT(((GObject*)o)->ref_count == 1);
    g_object_unref(o);
    mc_outcome(i + 1);
}

/* Sources */
#define NSRC 3
static guint src_id[NSRC];
static int src_on[NSRC], src_calls[NSRC], src_gone[NSRC], src_add[NSRC];
static gboolean src_cb(gpointer p) { src_calls[GPOINTER_TO_INT(p)]++; return TRUE; }
static void src_done(gpointer p) { src_gone[GPOINTER_TO_INT(p)]++; }

static void src_create(void) { int k; for (k = 0; k < NSRC; k++) { src_id[k] = 0; src_on[k] = src_calls[k] = src_gone[k] = src_add[k] = 0; } }
static int src_nops(void) { return NSRC * 3 + 2; }
static int src_apply(int op)
{
    const int s = op % NSRC;
    int k, g0[NSRC];
    for (k = 0; k < NSRC; k++) g0[k] = src_gone[k];
    if (op >= NSRC * 3) {
        if (op == NSRC * 3) {
            int c0[NSRC];
            memcpy(c0, src_calls, sizeof(c0));
            g_main_context_iteration(NULL, FALSE);
            for (k = 0; k < NSRC; k++) MC_CHECK(src_calls[k] - c0[k] == src_on[k], "source %d ran %d times, expected %d", k, src_calls[k] - c0[k], src_on[k]);
        } else {
            MC_EXPECT(!gutil_source_remove(0));
            MC_EXPECT(!gutil_source_clear(NULL));
        }
    } else switch (op / NSRC) {
    case 0:
        if (src_on[s]) return 0;
        src_id[s] = g_idle_add_full(G_PRIORITY_DEFAULT, src_cb, GINT_TO_POINTER(s), src_done);
        src_on[s] = 1;
        break;
    case 1:
        MC_CHECK(!gutil_source_remove(src_id[s]) == !src_on[s], "source_remove verdict");
        if (src_on[s]) { MC_CHECK(src_gone[s] == g0[s] + 1, "source %d wasn't removed", s); g0[s]++; }
        src_id[s] = 0;
        src_on[s] = 0;
        break;
    default:
        MC_CHECK(!gutil_source_clear(src_id + s) == !src_on[s], "source_clear verdict");
        MC_CHECK(!src_id[s], "identifier isn't cleared");
        if (src_on[s]) { MC_CHECK(src_gone[s] == g0[s] + 1, "source %d wasn't removed", s); g0[s]++; }
        src_on[s] = 0;
        break;
    }
    for (k = 0; k < NSRC; k++) MC_CHECK(src_gone[k] == g0[k], "wrong source %d was removed", k);
    return 1;
}
static void src_key(void) { int k; for (k = 0; k < NSRC; k++) { mc_key_int(src_on[k]); mc_key_int(!!src_id[k]); } }
static void src_destroy(void) { int k; for (k = 0; k < NSRC; k++) if (src_on[k]) g_source_remove(src_id[k]); }

/* Destroy notifications which disconnect and remove the same things */
#define NRE 3
static TObj* re_obj;
static gulong re_ids[NRE];
static guint re_src[NRE];
static int re_fin[NRE], re_expect[NRE], re_what, re_depth, re_emit;
static void re_some(void);
static void re_called(TObj* o, gpointer p)
{
    const int k = GPOINTER_TO_INT(p);
    MC_CHECK(!re_expect[k], "disconnected handler %d is called", k);
    MC_CHECK(re_emit, "who called that?");
    if (mc_choose_dev(2, "handler")) re_some();
}
static void re_gone(gpointer p)
{
    const int k = GPOINTER_TO_INT(p);
    mc_note("%*s%s %d is released", re_depth * 2, "", re_what ? "source" : "handler", k);
    re_fin[k]++;
    MC_CHECK(re_fin[k] == 1, "%d is released again", k);
    MC_CHECK(re_expect[k], "%d isn't supposed to be released", k);
    if (mc_choose_dev(2, "notify")) re_some();
}
static void re_closure(gpointer p, GClosure* c) { re_gone(p); }
static gboolean re_cb(gpointer p)
{
    const int k = GPOINTER_TO_INT(p);
    int stay = 1;
    MC_CHECK(!re_expect[k], "removed source %d has been called", k);
    if (mc_choose_dev(2, "callback")) re_some();
    if (re_src[k]) {
        stay = mc_choose(2, "stay");
        if (!stay) { re_src[k] = 0; re_expect[k] = 1; }
    }
    return stay;
}
static void re_some(void)
{
    int i, k = mc_choose(NRE, "first"), n = re_what ? 1 : 1 + mc_choose(NRE - k, "count");
    re_depth++;
    for (i = k; i < k + n; i++) if (re_what ? re_src[i] : re_ids[i]) re_expect[i] = 1;
    mc_note("%*s%s %d..%d {", re_depth * 2, "", re_what ? "remove" : "disconnect", k, k + n - 1);
    if (re_what) {
        const guint id = re_src[k];
        const gboolean was = id != 0;
        gboolean res;
        if (mc_choose(2, "how")) {
            re_src[k] = 0;
            res = gutil_source_remove(id);
        } else res = gutil_source_clear(re_src + k);
        MC_CHECK(res == was, "removing the source returned %d", res);
        MC_CHECK(!re_src[k], "identifier isn't cleared");
    } else {
        gutil_disconnect_handlers(re_obj, re_ids + k, n);
        for (i = k; i < k + n; i++) MC_CHECK(!re_ids[i], "identifier %d isn't cleared", i);
    }
    mc_note("%*s}", re_depth * 2, "");
    for (i = k; i < k + n; i++) if (re_expect[i] && re_depth == 1) MC_CHECK(re_fin[i] || g_main_depth() || re_emit, "%d isn't released", i);
    re_depth--;
}
static void re_body(void)
{
    int k, len = 3;
    re_what = mc_choose(2, "what");
    memset(re_src, 0, sizeof(re_src));
    memset(re_ids, 0, sizeof(re_ids));
    re_depth = re_emit = 0;
    re_obj = g_object_new(t_obj_get_type(), NULL);
    for (k = 0; k < NRE; k++) {
        re_fin[k] = re_expect[k] = 0;
        if (re_what) re_src[k] = g_idle_add_full(G_PRIORITY_DEFAULT, re_cb, GINT_TO_POINTER(k), re_gone);
        else re_ids[k] = g_signal_connect_data(re_obj, "sig", G_CALLBACK(re_called), GINT_TO_POINTER(k), re_closure, 0);
    }
    while (len-- > 0) {
        const int a = mc_choose(3, "op");
        if (!a) break;
        if (a == 1) re_some();
        else if (re_what) g_main_context_iteration(NULL, FALSE);
        else { re_emit = 1; g_signal_emit(re_obj, sig, 0); re_emit = 0; }
        mc_step();
        for (k = 0; k < NRE; k++) MC_CHECK(re_fin[k] == re_expect[k], "%d was released %d times", k, re_fin[k]);
    }
    for (k = 0; k < NRE; k++) {
        MC_CHECK(!(re_what ? re_src[k] : re_ids[k]) == re_expect[k], "identifier %d is %s", k, re_expect[k] ? "still there" : "lost");
        if (!re_expect[k]) {
            re_expect[k] = 1;
            const gulong id = re_what ? re_src[k] : re_ids[k];
            re_ids[k] = re_src[k] = 0;
            if (re_what) g_source_remove(id); else g_signal_handler_disconnect(re_obj, id);
        }
    }
    g_object_unref(re_obj);
    mc_outcome(re_what + 1);
}

/* Pointer vectors */
static u64 ptrv_count(void) { return 12; }
static void ptrv_run(u64 i)
{
    const int n = (int)i - 1;
    void** v = n < 0 ? NULL : mc_exact(NULL, sizeof(void*) * (n + 1));
    int k;
    MC_EXPECT(gutil_strlen0(NULL) == 0 && gutil_strlen0("") == 0);
    if (v) {
        const u64 live = mc_heap_live();
        free(v);
        v = g_new(void*, n + 1);
        MC_EXPECT(mc_heap_live() == live);
        for (k = 0; k < n; k++) v[k] = g_malloc(1 + k);
        v[n] = NULL;
    }
    MC_CHECK(gutil_ptrv_length(v) == (gsize)MAX(n, 0), "length of %d pointers is wrong", n);
    MC_CHECK(!gutil_ptrv_is_empty(v) == (n > 0), "is_empty of %d pointers is wrong", n);
    gutil_ptrv_free(v); /* The rest is up to leak check */
    mc_outcome(i + 1);
}

static void quiet(void) { g_type_ensure(t_obj_get_type()); g_main_context_iteration(NULL, FALSE); }

const McSuite mc_suites[] = {
    { "C05.pairs", MC_FAMILY, "Every pair of characters (65536) at the first, middle and last place of hexadecimal texts of 2, 4, 6 and 16 characters", hexpair_count, hexpair_run, .split = 8 },
    { "C05.texts", MC_FAMILY, "All texts up to 5 (6) characters over 16 characters around the digit ranges, even and odd lengths, in exactly sized buffers", hexstr_count, hexstr_run, .split = 8 },
    { "C05.round", MC_FAMILY, "Blocks of 0..39 bytes with all values of one (each pair) of bytes there and back, either case", round_count, round_run, .split = 8 },
    { "C05.long", MC_FAMILY, "There and back: each size up to 127 and 31 sizes up to 1 MiB, either case, 8 places of a wrong digit", hexlong_count, hexlong_run, .split = 4 },
    { "C05.dump", MC_FAMILY, "Dump lines of 0..35 bytes, every byte value in every position", dump_count, dump_run, .split = 4 },
    { "C06.texts", MC_FAMILY, "All texts up to 5 (6) characters over 14 (spaces, signs, digits, letters, garbage) in 13 bases, as 4 types, with and without the output", numstr_count, numstr_run, .split = 8 },
    { "C06.chars", MC_FAMILY, "Every character in each place of short texts", numchr_count, numchr_run },
    { "C06.limits", MC_FAMILY, "Numbers within 3 of the limits of each type and far beyond those, in all bases 0, 2..36, with signs, prefixes, zeros, spaces and garbage", limit_count, limit_run, .split = 4 },
    { "C07.pairs", MC_FAMILY, "All pairs of blocks up to 4 (6) bytes over 3 values, absent ones included: equality, prefix, suffix, ranges, XOR", pair_count, pair_run, .split = 8 },
    { "C07.xor", MC_FAMILY, "XOR of all pairs of lengths 0..33, and of (almost) equal lengths up to 299, at all alignments", xor_count, xor_run, .split = 4 },
    { "C07.words", MC_FAMILY, "XOR of all sequences of 5 words of 6 kinds (zeros, equal, opposite...), shortened by 0..7 bytes", words_count, words_run, .split = 4 },
    { "C07.long", MC_FAMILY, "All pairs of blocks of 29 sizes (7..65792), different in one byte: at each end, in the middle, nowhere", long_count, long_run, .split = 4 },
    { "C07.concat", MC_FAMILY, "Concatenation of all sequences of up to 4 (6) out of 6 blocks, repeated ones included", cat_count, cat_run, .split = 4 },
    { "C07.copy", MC_FAMILY, "Copies of blocks of 0..69 bytes at all alignments and of all blocks up to 6 bytes, the source being released", copy_count, copy_run },
    { "C07.huge", MC_FAMILY, "Copies of blocks larger than 4 GiB", huge_count, huge_run, .slow_s = 200, .only = 2 },
    { "C28.handlers", MC_FAMILY, "All assignments of 4 handlers to 4 slots, all counts", disc_count, disc_run, .setup = quiet, .split = 2 },
    { "C28.sources", MC_BFS, "Adding, removing, clearing and running of 3 sources", .create = src_create, .nops = src_nops, .apply = src_apply, .key = src_key, .destroy = src_destroy, .depth_quick = 12, .depth_thorough = 20, .setup = quiet },
    { "C28.reentrant", MC_DFS, "3 handlers or sources: all scripts of up to 3 operations with up to 2 (4) actions of destroy notifications, handlers and callbacks which remove the same ones", .body = re_body, .dev_quick = 2, .dev_thorough = 4, .split = 8, .setup = quiet },
    { "C28.vectors", MC_FAMILY, "Pointer vectors of 0..10 elements and no vector", ptrv_count, ptrv_run },
    { NULL }
};
