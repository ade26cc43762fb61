/* Compact integers and TLVs: C01..C04 */
#include "mc.h"
#include "gutil_datapack.h"

typedef __int128 i128;
typedef unsigned __int128 u128;

static const char* hex(const guchar* p, gsize n)
{
    static char s[4][200];
    static int k;
    gsize i;
    char* b = s[k++ & 3];
    b[0] = 0;
    for (i = 0; i < n && i < 60; i++) sprintf(b + 2 * i, "%02x", p[i]);
    return b;
}

/*==========================================================================*
 * Reference decoder. Returns number of bytes or 0
 *==========================================================================*/

static int ref_decode(const guchar* p, gsize avail, int sign, u64* out)
{
    gsize n = 0;
    u128 v = 0;
    while (n < avail && n < 10 && (p[n] & 0x80)) n++;
    if (n == avail || n == 10) return 0;
    n++;
    for (gsize i = 0; i < n; i++) v = (v << 7) | (p[i] & 0x7f);
    if (sign) {
        i128 s = (i128)v;
        if (v >> (7 * n - 1)) s -= ((i128)1) << (7 * n);
        if (s < (i128)G_MININT64 || s > (i128)G_MAXINT64) return 0;
        *out = (u64)(gint64)s;
    } else {
        if (v >> 64) return 0;
        *out = (u64)v;
    }
    return (int)n;
}

/* Exactly sized blocks */
static guchar* exact_block[64];
static guchar* exact(const void* p, gsize n)
{
    if (n >= 64) return NULL;
    if (!exact_block[n]) exact_block[n] = mc_exact(NULL, n);
    memcpy(exact_block[n], p, n);
    return exact_block[n];
}
static void blocks(void) { guchar z[64] = { 0 }; int i; for (i = 0; i < 64; i++) exact(z, i); }

/*==========================================================================*
 * C01
 *==========================================================================*/

static int min_size(u64 v, int sign)
{
    int n;
    for (n = 1; n < 10; n++) {
        if (sign) {
            gint64 s = (gint64)v, lim = G_GINT64_CONSTANT(1) << (7 * n - 1);
            if (s >= -lim && s <= lim - 1) break;
        } else if (!(v >> (7 * n))) break;
    }
    return n;
}

static guint sz(u64 v, int sign) { return sign ? gutil_signed_mbn_size((gint64)v) : gutil_unsigned_mbn_size(v); }
static guint enc(void* b, u64 v, int sign) { return sign ? gutil_signed_mbn_encode(b, (gint64)v) : gutil_unsigned_mbn_encode(b, v); }
static guint enc2(void* b, u64 v, guint n, int sign) { return sign ? gutil_signed_mbn_encode2(b, (gint64)v, n) : gutil_unsigned_mbn_encode2(b, v, n); }
static gboolean dec(GUtilRange* in, u64* out, int sign) { return sign ? gutil_signed_mbn_decode(in, (gint64*)out) : gutil_unsigned_mbn_decode(in, (guint64*)out); }
static gboolean dec2(const GUtilData* in, u64* out, int sign) { return sign ? gutil_signed_mbn_decode2(in, (gint64*)out) : gutil_unsigned_mbn_decode2(in, (guint64*)out); }

static void value_check(u64 v, int sign)
{
    const guint n = min_size(v, sign);
    guint w, i;
    guchar buf[32];
    guchar* b = buf + 8;

    MC_CHECK(sz(v, sign) == n, "size(%llx, %s) is %u, expected %u", (unsigned long long)v, sign ? "signed" : "unsigned", sz(v, sign), n);
    memset(buf, 0xa5, sizeof(buf));
    MC_CHECK(enc2(b, v, 0, sign) == 0, "encode(%llx) into nothing returned something", (unsigned long long)v);
    for (i = 0; i < sizeof(buf); i++) MC_CHECK(buf[i] == 0xa5, "encode(%llx) into nothing wrote at %d", (unsigned long long)v, (int)i - 8);
    for (w = n - 1; w <= 10; w++) {
        u64 out = 0xfeedfeedfeedfeedULL, r = 0;
        GUtilRange in;
        GUtilData d;
        guint rc;
        const guint len = (w == n - 1) ? n : w;
        memset(buf, 0xa5, sizeof(buf));
        rc = (w == n - 1) ? enc(b, v, sign) : enc2(b, v, w, sign);
        MC_CHECK(rc == len, "encode(%llx) into %u bytes returned %u", (unsigned long long)v, len, rc);
        for (i = 0; i < sizeof(buf); i++) if (i < 8 || i >= 8 + len) MC_CHECK(buf[i] == 0xa5, "encode(%llx) into %u bytes wrote at %d", (unsigned long long)v, len, (int)i - 8);
        MC_CHECK(ref_decode(b, len, sign, &r) == (int)len && r == v, "%llx encoded in %u bytes as %s", (unsigned long long)v, len, hex(b, len));
        if (w == n - 1) mc_outcome(mc_hash(b, len, sign));
        mc_note("%s %llx in %u bytes: %s", sign ? "signed" : "unsigned", (unsigned long long)v, len, hex(b, len));
        for (i = 0; i < 3; i++) {
            in.ptr = b;
            in.end = b + len + i * 3;
            MC_CHECK(dec(&in, &out, sign) && out == v, "%s decodes to %llx instead of %llx", hex(b, len), (unsigned long long)out, (unsigned long long)v);
            MC_CHECK(in.ptr == b + len, "decoding %s consumed %d bytes", hex(b, len), (int)(in.ptr - b));
            MC_CHECK(in.end == b + len + i * 3, "end moved");
            in.ptr = b;
            MC_CHECK(dec(&in, NULL, sign) && in.ptr == b + len, "decoding %s without output", hex(b, len));
        }
        d.bytes = b;
        d.size = len;
        out = 1;
        MC_CHECK(dec2(&d, &out, sign) && out == v && dec2(&d, NULL, sign), "decode2(%s) failed", hex(b, len));
        d.size++;
        out = 0x77;
        MC_CHECK(!dec2(&d, &out, sign) && out == 0x77 && !dec2(&d, NULL, sign), "decode2(%s) accepted a trailing byte", hex(b, len + 1));
        mc_step();
    }
}

static const guchar chunk5[] = { 0x00, 0x3f, 0x40, 0x7f, 0x01 };
static u64 chunks_count(void) { u64 k = mc_tier == MC_QUICK ? 4 : 5, n = 2; int i; for (i = 0; i < 9; i++) n *= k; return n; }
static void chunks_run(u64 x)
{
    const u64 k = mc_tier == MC_QUICK ? 4 : 5;
    u64 v = x & 1;
    int i;
    x >>= 1;
    for (i = 0; i < 9; i++) { v = (v << 7) | chunk5[x % k]; x /= k; }
    value_check(v, 0);
    value_check(v, 1);
}

static u64 bounds_count(void) { return 65 * 65 * 7; }
static void bounds_run(u64 x)
{
    /* +/- 2^a +/- 2^b + d */
    const int a = x % 65, b = (x / 65) % 65, d = (int)(x / 65 / 65) - 3;
    const u64 p = a == 64 ? 0 : 1ULL << a, q = b == 64 ? 0 : 1ULL << b;
    u64 v[4] = { p + q + d, p - q + d, -p - q + d, -p + q + d };
    int i;
    for (i = 0; i < 4; i++) { value_check(v[i], 0); value_check(v[i], 1); }
}

static u64 small_count(void) { return mc_tier == MC_QUICK ? 70000 : 4200000; }
static void small_run(u64 x)
{
    const gint64 v = (gint64)x - (gint64)small_count() / 2;
    value_check((u64)v, 1);
    value_check(x, 0);
}

/*==========================================================================*
 * C02
 *==========================================================================*/

static void seq_check(const guchar* seq, gsize n)
{
    const guchar* p = exact(seq, n);
    int sign;
    for (sign = 0; sign < 2; sign++) {
        u64 want = 0, out = 0xabcdef0123456789ULL;
        const int len = ref_decode(p, n, sign, &want);
        GUtilRange in = { p, p + n };
        GUtilData d = { p, n };
        gboolean ok = dec(&in, &out, sign);
        MC_CHECK(!ok == !len, "%s %s is %s", sign ? "signed" : "unsigned", hex(p, n), ok ? "accepted" : "refused");
        if (len) {
            MC_CHECK(out == want, "%s %s decodes to %llx, expected %llx", sign ? "signed" : "unsigned", hex(p, n), (unsigned long long)out, (unsigned long long)want);
            MC_CHECK(in.ptr == p + len, "decoding %s consumed %d bytes, expected %d", hex(p, n), (int)(in.ptr - p), len);
        } else {
            MC_CHECK(in.ptr == p, "position moved by %d when %s was refused", (int)(in.ptr - p), hex(p, n));
            MC_CHECK(out == 0xabcdef0123456789ULL, "output changed when %s was refused", hex(p, n));
        }
        MC_CHECK(in.end == p + n, "end moved");
        in.ptr = p;
        MC_CHECK(!dec(&in, NULL, sign) == !len && in.ptr == p + len, "decoding %s without output is different", hex(p, n));
        out = 0x1234;
        ok = dec2(&d, &out, sign);
        MC_CHECK(!ok == !(len && (gsize)len == n), "decode2(%s) returned %d", hex(p, n), ok);
        MC_CHECK(out == (ok ? want : 0x1234), "decode2(%s) output is %llx", hex(p, n), (unsigned long long)out);
        MC_CHECK(!dec2(&d, NULL, sign) == !ok, "decode2(%s) without output is different", hex(p, n));
        if (!n) {
            out = 0x77;
            MC_EXPECT(!dec2(NULL, &out, sign) && out == 0x77 && !dec2(NULL, NULL, sign));
            in.ptr = in.end = NULL;
            MC_EXPECT(!dec(&in, &out, sign) && out == 0x77 && !in.ptr && !in.end);
            d.bytes = NULL;
            MC_EXPECT(!dec2(&d, &out, sign) && out == 0x77);
        }
        mc_note("%s %s: %d byte(s), %llx", sign ? "signed" : "unsigned", hex(p, n), len, (unsigned long long)want);
        mc_outcome(want ^ ((u64)len << 56) ^ sign);
    }
    mc_steps(2);
}

static const guchar last4[] = { 0, 1, 2, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff, 0x20 };
static u64 bytes_count(void) { return 1 + 256 + 65536 + 65536 * 256 + (mc_tier == MC_QUICK ? 0 : 65536ULL * 256 * G_N_ELEMENTS(last4)); }
static void bytes_run(u64 x)
{
    guchar s[4];
    if (!x) { seq_check(s, 0); return; }
    x--;
    if (x < 256) { s[0] = x; seq_check(s, 1); return; }
    x -= 256;
    s[0] = x; s[1] = x >> 8;
    if (x < 65536) { seq_check(s, 2); return; }
    x -= 65536;
    s[0] = x; s[1] = x >> 8; s[2] = x >> 16;
    if (x < 65536 * 256) { seq_check(s, 3); return; }
    x -= 65536 * 256;
    s[3] = last4[x >> 24];
    seq_check(s, 4);
}

/* Long ones: length 3..12 and some bigger ones, any first byte, fill, one or two different bytes in the middle, last */
static const guchar fill[] = { 0x80, 0xff, 0x81 };
static const guchar odd[] = { 0x80, 0xc0, 0xff, 0x00, 0x40 };
static const guchar lst[] = { 0x00, 0x01, 0x3f, 0x40, 0x7f, 0x80, 0xff };
static const guchar longs[] = { 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 20, 33, 63 };
#define LONGN ((u64)256 * G_N_ELEMENTS(longs) * 3 * 11 * 5 * 7)
static u64 long_count(void) { return LONGN; }
static void long_run(u64 x)
{
    guchar s[64];
    int L, f, pos, o, l;
    s[0] = x; x >>= 8;
    L = longs[x % G_N_ELEMENTS(longs)]; x /= G_N_ELEMENTS(longs);
    f = x % 3; x /= 3;
    pos = x % 11; x /= 11;
    o = x % 5; x /= 5;
    l = x;
    memset(s + 1, fill[f], L - 1);
    if (pos) { if (pos > L - 2) return; s[pos] = odd[o]; } else if (o) return;
    s[L - 1] = lst[l];
    seq_check(s, L);
}

/*==========================================================================*
 * C03
 *==========================================================================*/

static guint ref_tlv(const guchar* p, gsize n, gsize* voff, gsize* vlen)
{
    u64 tag, len;
    int a = ref_decode(p, n, 0, &tag), b;
    if (!a || !tag || tag > INT_MAX) return 0;
    b = ref_decode(p + a, n - a, 0, &len);
    if (!b || len > n - a - b) return 0;
    *voff = a + b;
    *vlen = len;
    return (guint)tag;
}

static void tlv_bytes(const guchar* seq, gsize n)
{
    guchar* p = n < 64 ? exact(seq, n) : (guchar*)seq;
    GUtilRange in = { p, p + n };
    GUtilData val = { (guchar*)0x1111, 0x2222 };
    gsize off = 0, len = 0;
    const guint want = ref_tlv(p, n, &off, &len);
    guint tag = gutil_tlv_decode(&in, &val);
    MC_CHECK(tag == want, "tlv_decode(%s) returned tag %u, expected %u", hex(p, n), tag, want);
    MC_CHECK(in.end == p + n, "end moved");
    if (want) {
        MC_CHECK(val.size == len && (val.bytes == p + off), "tlv_decode(%s) value at %d of %d bytes, expected at %d of %d", hex(p, n), (int)(val.bytes - p), (int)val.size, (int)off, (int)len);
        MC_CHECK(in.ptr == p + off + len, "position %d, expected %d", (int)(in.ptr - p), (int)(off + len));
    } else {
        MC_CHECK(in.ptr == p, "position moved by %d when %s was refused", (int)(in.ptr - p), hex(p, n));
        MC_CHECK(val.size == 0x2222 && val.bytes == (guchar*)0x1111, "value changed when %s was refused", hex(p, n));
    }
    in.ptr = p;
    MC_CHECK(gutil_tlv_decode(&in, NULL) == want && in.ptr == p + (want ? off + len : 0), "tlv_decode(%s) without value is different", hex(p, n));
    mc_note("%s: tag %u, value at %d, %d bytes", hex(p, n), want, (int)off, (int)len);
    mc_outcome(((u64)want << 32) ^ (off << 8) ^ len);
    mc_step();
}

static guint tags_[256];
static int ntags;
static void tlv_setup(void)
{
    int k, d;
    blocks();
    ntags = 0;
    for (k = 0; k <= 31; k++) for (d = -1; d <= 1; d++) {
        gint64 t = (G_GINT64_CONSTANT(1) << k) + d;
        if (t > 0 && t <= INT_MAX) tags_[ntags++] = t;
    }
}
static gsize tlv_len(int i)
{
    static const gsize big[] = { 16382, 16383, 16384, 16385, 65535, 70000, 2097151, 2097152 };
    return i < 301 ? i : big[i - 301];
}
static u64 enc_count(void) { return (u64)ntags * (301 + 6 + (mc_tier == MC_THOROUGH ? 2 : 0)); }
static void enc_run(u64 x)
{
    const guint tag = tags_[x % ntags];
    const gsize len = tlv_len(x / ntags);
    const gsize total = min_size(tag, 0) + min_size(len, 0) + len;
    guchar* src = malloc(len + 1), *buf = malloc(total), *buf2;
    GUtilData val = { src, len };
    GUtilRange in;
    gsize i;
    for (i = 0; i < len; i++) src[i] = i * 7 + 1;
    MC_CHECK(gutil_tlv_size(tag, len) == total, "tlv_size(%u, %d) is %u, expected %d", tag, (int)len, gutil_tlv_size(tag, len), (int)total);
    i = gutil_tlv_encode(buf, tag, &val);
    MC_CHECK(i == total, "tlv_encode(%u, %d) returned %d, expected %d", tag, (int)len, (int)i, (int)total);
    for (i = 0; i < len; i++) MC_CHECK(src[i] == (guchar)(i * 7 + 1), "source changed");
    if (!len) {
        buf2 = malloc(total);
        MC_EXPECT(gutil_tlv_encode(buf2, tag, NULL) == total && !memcmp(buf, buf2, total));
        free(buf2);
    }
    val.bytes = NULL; val.size = 99;
    in.ptr = buf; in.end = buf + total;
    MC_CHECK(gutil_tlv_decode(&in, &val) == tag, "tag %u doesn't decode", tag);
    MC_EXPECT(in.ptr == in.end && val.size == len && !memcmp(val.bytes, src, len) && val.bytes + len == buf + total);
    in.ptr = buf;
    MC_EXPECT(gutil_tlv_decode(&in, NULL) == tag && in.ptr == in.end);
    /* More data behind it, and each truncation */
    buf2 = malloc(total + 3);
    memcpy(buf2, buf, total);
    memset(buf2 + total, 0x81, 3);
    in.ptr = buf2; in.end = buf2 + total + 3;
    MC_EXPECT(gutil_tlv_decode(&in, &val) == tag && in.ptr == buf2 + total && val.size == len && val.bytes + len == in.ptr);
    for (i = 0; i < total; i += (i < 40 || i + 40 > total) ? 1 : 61) {
        in.ptr = buf; in.end = buf + i;
        val.bytes = src; val.size = 12345;
        MC_CHECK(!gutil_tlv_decode(&in, &val), "truncated at %d of %d but accepted", (int)i, (int)total);
        MC_EXPECT(in.ptr == buf && in.end == buf + i && val.size == 12345 && val.bytes == src);
        mc_step();
    }
    mc_note("tag %u, %d bytes", tag, (int)len);
    mc_outcome(mc_hash(buf, total, 0));
    free(buf); free(buf2); free(src);
}

/* Tag bytes x length bytes x available bytes */
typedef struct { guchar n, b[11]; } Mbn;
static Mbn mtag[64], mlen[64];
static int nmtag, nmlen;
static void mbn(Mbn* m, u64 v, int extra)
{
    guint n = min_size(v, 0) + extra, i;
    if (n > 10) n = 10;
    m->n = n;
    for (i = n; i > 0; i--) { m->b[i - 1] = (v & 0x7f) | (i < n ? 0x80 : 0); v >>= 7; }
}
static void cross_setup(void)
{
    static const u64 t[] = { 0, 1, 2, 127, 128, 16384, INT_MAX - 1, INT_MAX, (u64)INT_MAX + 1, UINT_MAX, (u64)UINT_MAX + 1, (u64)UINT_MAX + 2,
        0x100000000ULL | INT_MAX, G_MAXINT64, (u64)G_MAXINT64 + 1, (u64)G_MAXINT64 + 2, G_MAXUINT64 };
    static const u64 l[] = { 0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 255, 256, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ULL, 0x100000001ULL, 0x100000004ULL,
        G_MAXINT64 - 1, G_MAXINT64, (u64)G_MAXINT64 + 1, (u64)G_MAXINT64 + 2, (u64)G_MAXINT64 + 5, G_MAXUINT64 - 20, G_MAXUINT64 - 8, G_MAXUINT64 - 3, G_MAXUINT64 - 1, G_MAXUINT64 };
    int i, e;
    blocks();
    nmtag = nmlen = 0;
    for (i = 0; i < (int)G_N_ELEMENTS(t); i++) for (e = 0; e < 2; e++) mbn(mtag + nmtag++, t[i], e * 2);
    for (i = 0; i < (int)G_N_ELEMENTS(l); i++) for (e = 0; e < 2; e++) mbn(mlen + nmlen++, l[i], e * 3);
    mtag[nmtag++] = (Mbn){ 1, { 0x80 } };
    mtag[nmtag++] = (Mbn){ 11, { 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1 } };
    mtag[nmtag++] = (Mbn){ 10, { 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1 } };
    mlen[nmlen++] = (Mbn){ 0 };
    mlen[nmlen++] = (Mbn){ 1, { 0x80 } };
    mlen[nmlen++] = (Mbn){ 10, { 0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 2 } };
    mlen[nmlen++] = (Mbn){ 11, { 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1 } };
}
static u64 cross_count(void) { return (u64)nmtag * nmlen * 9; }
static void cross_run(u64 x)
{
    const Mbn* t = mtag + x % nmtag, *l = mlen + (x / nmtag) % nmlen;
    const int avail = x / nmtag / nmlen;
    guchar s[40];
    memcpy(s, t->b, t->n);
    memcpy(s + t->n, l->b, l->n);
    memset(s + t->n + l->n, 0x33, avail);
    tlv_bytes(s, t->n + l->n + avail);
}

static const guchar alpha[] = { 0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff };
static u64 words_count(void) { int i, max = mc_tier == MC_QUICK ? 6 : 8; u64 n = 0, k = 1; for (i = 0; i <= max; i++) { n += k; k *= 8; } return n; }
static int word(u64 x, guchar* s)
{
    int l = 0, i;
    u64 k = 1;
    while (x >= k) { x -= k; k *= 8; l++; }
    for (i = 0; i < l; i++) { s[i] = alpha[x & 7]; x >>= 3; }
    return l;
}
static void words_run(u64 x) { guchar s[16]; int n = word(x, s); tlv_bytes(s, n); }

/*==========================================================================*
 * C04
 *==========================================================================*/

static int ref_table(const guchar* p, gsize n, const guint* tags, GUtilData* vals, int skip)
{
    int mask = 0, i, nt = 0;
    gsize pos = 0;
    while (tags[nt]) nt++;
    memset(vals, 0, sizeof(*vals) * nt);
    while (pos < n) {
        gsize off = 0, len = 0;
        guint tag = ref_tlv(p + pos, n - pos, &off, &len);
        if (!tag) return GUTIL_TLVS_DECODE_ERROR;
        for (i = 0; i < nt && i < 31 && tags[i] != tag; i++);
        if (i < nt && i < 31) {
            if (mask & (1 << i)) return GUTIL_TLVS_DECODE_DUPLICATE_TAG;
            mask |= 1 << i;
            vals[i].bytes = p + pos + off;
            vals[i].size = len;
        } else if (!skip) return GUTIL_TLVS_DECODE_UNKNOWN_TAG;
        pos += off + len;
    }
    return mask;
}

static void table_check(const guchar* seq, gsize n, const guint* tags)
{
    const guchar* p = n < 64 ? exact(seq, n) : seq;
    GUtilData in = { n ? p : NULL, n }, want[64];
    int flag, nt = 0, i, r, e;
    guint* t;
    GUtilData* vals;
    while (tags[nt]) nt++;
    t = mc_exact(tags, (nt + 1) * sizeof(tags[0]));
    for (flag = 0; flag < 2; flag++) {
        vals = malloc(nt ? nt * sizeof(GUtilData) : 1);
        memset(vals, 0x5a, nt * sizeof(GUtilData));
        e = ref_table(p, n, tags, want, flag);
        r = gutil_tlvs_decode(&in, t, vals, flag ? GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
        MC_CHECK(r == e, "tlvs_decode(%s) with %d tags, skip %d returned %d, expected %d", hex(p, n), nt, flag, r, e);
        for (i = 0; i < nt; i++) {
            if (e >= 0) {
                MC_CHECK(vals[i].size == want[i].size && vals[i].bytes == want[i].bytes, "tlvs_decode(%s): wrong value %d", hex(p, n), i);
            } else {
                MC_CHECK((!vals[i].bytes && !vals[i].size) || (vals[i].bytes >= p && vals[i].bytes <= p + n && vals[i].size <= (gsize)(p + n - vals[i].bytes)),
                    "tlvs_decode(%s) failed with %d leaving value %d outside the input", hex(p, n), e, i);
            }
        }
        MC_CHECK(gutil_tlvs_decode(&in, t, NULL, flag ? GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS) == e, "tlvs_decode(%s) without values is different", hex(p, n));
        mc_note("%s with %d tags, skip %d: %d", hex(p, n), nt, flag, e);
        mc_outcome(((u64)(guint)e << 32) ^ mc_hash(want, nt * sizeof(*want), flag));
        free(vals);
        mc_step();
    }
    free(t);
}

static const guint list0[] = { 0 }, list1[] = { 1, 0 }, list2[] = { 1, 2, 0 }, list3[] = { 2, 300, 1, INT_MAX, 0 }, list4[] = { 3, 2, 1, 0 };
static const guint* const lists[] = { list0, list1, list2, list3, list4 };
static const Mbn items[] = {
    { 2, { 1, 0 } }, { 4, { 1, 2, 9, 8 } }, { 3, { 2, 1, 7 } }, { 3, { 3, 1, 2 } }, { 2, { 0, 0 } }, { 3, { 0, 1, 5 } },
    { 4, { 0x82, 0x2c, 1, 0 } }, { 1, { 1 } }, { 2, { 1, 5 } }, { 1, { 0x80 } }, { 7, { 0x87, 0xff, 0xff, 0xff, 0x7f, 1, 1 } }, { 6, { 0x88, 0x80, 0x80, 0x80, 0x00, 0 } },
    { 11, { 2, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7e } }, { 4, { 2, 0x80, 0x01, 1 } }
};
#define NI G_N_ELEMENTS(items)
static u64 table_count(void) { u64 n = 0, k = 1; int i, max = mc_tier == MC_QUICK ? 4 : 5; for (i = 0; i <= max; i++) { n += k; k *= NI; } return n * G_N_ELEMENTS(lists); }
static void table_run(u64 x)
{
    const guint* tags = lists[x % G_N_ELEMENTS(lists)];
    guchar s[80];
    int l = 0, i, n = 0;
    u64 k = 1;
    x /= G_N_ELEMENTS(lists);
    while (x >= k) { x -= k; k *= NI; l++; }
    for (i = 0; i < l; i++) { const Mbn* m = items + x % NI; x /= NI; memcpy(s + n, m->b, m->n); n += m->n; }
    table_check(s, n, tags);
}
static u64 twords_count(void) { int i; u64 n = 0, k = 1; int max = mc_tier == MC_QUICK ? 5 : 7; for (i = 0; i <= max; i++) { n += k; k *= 8; } return n * 4; }
static void twords_run(u64 x) { guchar s[16]; int n = word(x / 4, s); table_check(s, n, lists[x % 4]); }

/* Long lists: n tags, entries i and j present (j may be equal to i) */
static u64 long_list_count(void) { return 6 * 42 * 42; }
static void long_list_run(u64 x)
{
    static const int sizes[] = { 1, 30, 31, 32, 33, 40 };
    const int n = sizes[x % 6];
    int i = (x / 6) % 42, j = x / 6 / 42, k = 0, q;
    guint t[50];
    guchar s[10];
    for (q = 0; q < n; q++) t[q] = 100 - q;
    t[n] = 0;
    for (q = 0; q < 2; q++) {
        const int y = q ? j : i;
        if (y > n) return;          /* n is an unlisted tag, j == n + 1: absent */
        s[k++] = 100 - y; s[k++] = q + 1; s[k++] = y; if (q) s[k++] = 0xee;
    }
    table_check(s, k, t);
    table_check(s, 3, t);
}

#define FAM(n,a,c,r,s,st) { .name = n, .kind = MC_FAMILY, .about = a, .count = c, .run = r, .split = s, .setup = st }
const McSuite mc_suites[] = {
    FAM("C01.chunks", "values made of 7-bit groups from {00,3f,40,7f(,01)}, all 2*4^9 (2*5^9) of them x all widths x signed/unsigned", chunks_count, chunks_run, 4, blocks),
    FAM("C01.bounds", "all +/-2^a +/-2^b + d, |d|<=3 x all widths x signed/unsigned", bounds_count, bounds_run, 2, blocks),
    FAM("C01.small", "all values in a contiguous range around zero x all widths", small_count, small_run, 2, blocks),
    FAM("C02.bytes", "all byte sequences of length 0..3 (and 16 x 2^24 of length 4)", bytes_count, bytes_run, 16, blocks),
    FAM("C02.long", "lengths 3..12,14,15,20,33,63: every first byte x fill x one odd byte anywhere x last byte", long_count, long_run, 8, blocks),
    FAM("C03.encode", "all tags 2^k+d x lengths 0..300 and encoding boundaries, each decoded whole, extended and truncated", enc_count, enc_run, 4, tlv_setup),
    FAM("C03.cross", "every combination of 37 tag encodings x 60 length encodings x 0..8 available bytes", cross_count, cross_run, 1, cross_setup),
    FAM("C03.words", "all byte strings over {00,01,02,03,7f,80,81,ff} up to length 6 (8)", words_count, words_run, 2, blocks),
    FAM("C04.tables", "all sequences of up to 4 (5) of 14 well- and malformed entries x 5 tag lists x skip flag x values or not", table_count, table_run, 4, blocks),
    FAM("C04.words", "all byte strings over 8 bytes up to length 5 (7) x 4 tag lists", twords_count, twords_run, 2, blocks),
    FAM("C04.limit", "lists of 1..40 tags, any pair of entries", long_list_count, long_list_run, 1, blocks),
    { NULL }
};
