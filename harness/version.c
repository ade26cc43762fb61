/* Versions: C29 */
#include "mc.h"
#include "gutil_version.h"

typedef struct { const char* name; int a, b, c, usable; gint64 value; } Const;
#include "gen_version.h"

#define NC ((int)G_N_ELEMENTS(consts) - 1)

static void pack_check(guint a, guint b, guint c)
{
    const guint v = GUTIL_VERSION_(a, b, c);
    MC_CHECK(GUTIL_VERSION_MAJOR_(v) == a && GUTIL_VERSION_MINOR_(v) == b && GUTIL_VERSION_MICRO_(v) == c,
        "%u.%u.%u became %u.%u.%u", a, b, c, GUTIL_VERSION_MAJOR_(v), GUTIL_VERSION_MINOR_(v), GUTIL_VERSION_MICRO_(v));
    MC_CHECK((gint64)GUTIL_VERSION_(a, b, c) >= 0, "version word %u.%u.%u is negative", a, b, c);
}

static guint nth(guint a, guint b, guint c) { return GUTIL_VERSION_(a, b, c); }

/* All versions in the order of words: each packs to something greater than the previous one */
static u64 all_count(void) { return (u64)128 * 4096; }
static void all_run(u64 i)
{
    const guint a = (guint)(i / 4096), b = (guint)(i % 4096);
    const int step = mc_tier == MC_QUICK ? 61 : 1;
    guint c, prev;
    if (!i) prev = 0;
    else prev = b ? nth(a, b - 1, 4095) : nth(a - 1, 4095, 4095);
    for (c = 0; c < 4096; c = (c == 4095) ? 4096 : MIN(c + step, 4095)) {
        const guint v = nth(a, b, c);
        pack_check(a, b, c);
        if (i || c) MC_CHECK(v > prev, "%u.%u.%u isn't greater than the previous version", a, b, c);
        prev = v;
    }
    mc_steps(4096 / step);
}

/* Pairs of versions with all combinations of bounds */
static const guint vals[] = { 0, 1, 2, 63, 64, 126, 127, 128, 255, 256, 2047, 2048, 4094, 4095 };
#define NV ((int)G_N_ELEMENTS(vals))
static u64 pair_count(void) { return (u64)7 * NV * NV * 7 * NV * NV; }
static void pair_run(u64 i)
{
    guint x[3], y[3], vx, vy;
    int k, cmp = 0;
    x[0] = vals[i % 7]; i /= 7; x[1] = vals[i % NV]; i /= NV; x[2] = vals[i % NV]; i /= NV;
    y[0] = vals[i % 7]; i /= 7; y[1] = vals[i % NV]; i /= NV; y[2] = vals[i % NV];
    for (k = 0; k < 3 && !cmp; k++) cmp = x[k] < y[k] ? -1 : x[k] > y[k];
    vx = GUTIL_VERSION_(x[0], x[1], x[2]);
    vy = GUTIL_VERSION_(y[0], y[1], y[2]);
    MC_CHECK((vx > vy) - (vx < vy) == cmp, "%u.%u.%u and %u.%u.%u compare as %u and %u", x[0], x[1], x[2], y[0], y[1], y[2], vx, vy);
    MC_CHECK((GUTIL_VERSION_(x[0], x[1], x[2]) > GUTIL_VERSION_(y[0], y[1], y[2])) == (cmp > 0), "comparison of expressions");
    MC_EXPECT(GUTIL_VERSION_(x[0], x[1] | 0, x[2] + 0) == (int)vx);
    /* The arguments may be expressions */
    MC_EXPECT(GUTIL_VERSION_(cmp < 0 ? x[0] : y[0], cmp < 0 ? x[1] : y[1], cmp < 0 ? x[2] : y[2]) == (cmp < 0 ? vx : vy));
    MC_EXPECT(GUTIL_VERSION_MAJOR_(cmp < 0 ? vx : vy) == (cmp < 0 ? x : y)[0]);
    MC_EXPECT(GUTIL_VERSION_MINOR_(cmp < 0 ? vx : vy) == (cmp < 0 ? x : y)[1]);
    MC_EXPECT(GUTIL_VERSION_MICRO_(cmp < 0 ? vx : vy) == (cmp < 0 ? x : y)[2]);
}

static u64 const_count(void) { return NC + 1; }
static void const_run(u64 i)
{
    char s[64];
    if (i < NC) {
        const Const* c = consts + i;
        MC_CHECK(c->usable, "%s isn't a usable expression", c->name);
        MC_CHECK(c->value == GUTIL_VERSION_(c->a, c->b, c->c), "%s is %d.%d.%d", c->name, (int)GUTIL_VERSION_MAJOR_(c->value),
            (int)GUTIL_VERSION_MINOR_(c->value), (int)GUTIL_VERSION_MICRO_(c->value));
        MC_CHECK(c->value <= GUTIL_VERSION, "%s is newer than the current version", c->name);
        MC_CHECK(c->value <= gutil_version(), "%s is newer than the run time version", c->name);
        return;
    }
    MC_EXPECT(NC > 0);
    MC_EXPECT(gutil_version_major == GUTIL_VERSION_MAJOR);
    MC_EXPECT(gutil_version_minor == GUTIL_VERSION_MINOR);
    MC_EXPECT(gutil_version_micro == GUTIL_VERSION_MICRO);
    MC_EXPECT(GUTIL_VERSION == gutil_version());
    MC_EXPECT(GUTIL_VERSION_MAJOR_(GUTIL_VERSION) == GUTIL_VERSION_MAJOR);
    MC_EXPECT(GUTIL_VERSION_MINOR_(GUTIL_VERSION) == GUTIL_VERSION_MINOR);
    MC_EXPECT(GUTIL_VERSION_MICRO_(GUTIL_VERSION) == GUTIL_VERSION_MICRO);
    snprintf(s, sizeof(s), "%d.%d.%d", GUTIL_VERSION_MAJOR, GUTIL_VERSION_MINOR, GUTIL_VERSION_MICRO);
    MC_CHECK(!strcmp(s, GUTIL_VERSION_STRING), "version string is %s", GUTIL_VERSION_STRING);
}

const McSuite mc_suites[] = {
    { "C29.all", MC_FAMILY, "All 2^31 versions in order, every 61st micro version in the quick tier: packed, unpacked and compared to the previous one", all_count, all_run, .split = 8 },
    { "C29.pairs", MC_FAMILY, "All pairs of versions with components around powers of two and limits", pair_count, pair_run, .split = 4 },
    { "C29.constants", MC_FAMILY, "Every published constant, compile time and run time versions", const_count, const_run },
    { NULL }
};
