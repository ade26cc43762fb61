/* Macros of the public headers, in all the ways they can be compiled: C31 */
#include "mc.h"
#include "gutil_log.h"
#include "gutil_macros.h"
#include "gutil_misc.h"
#include "units/logunit.h"

extern const LogUnit* const __start_mc_units[];
extern const LogUnit* const __stop_mc_units[];
#define NUNITS ((u64)(__stop_mc_units - __start_mc_units))

GLogModule unit_parent = { "parent", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
int unit_cond;
static int evals;
int unit_ev(int x) { evals++; return x; }
const char* unit_str(const char* s) { evals++; return s; }

static struct { const void* module; int level; char text[300]; } got[40];
static int ngot;

static void capture(const GLogModule* module, int level, const char* format, va_list va)
{
    if (ngot < (int)G_N_ELEMENTS(got)) {
        got[ngot].module = module;
        got[ngot].level = level;
        vsnprintf(got[ngot].text, sizeof(got[0].text), format, va);
    }
    ngot++;
}

static const char* unit_name(const LogUnit* u) { return u->flags; }
static int unit_max(const LogUnit* u) { return u->want_max >= 0 ? u->want_max : u->debug ? GLOG_LEVEL_VERBOSE : GLOG_LEVEL_DEBUG; }
static int unit_assert_level(const LogUnit* u) { return u->want_assert != -100 ? u->want_assert : u->debug ? GLOG_LEVEL_ERR : unit_max(u) + 1; }
static int unit_asserts(const LogUnit* u) { return unit_max(u) >= unit_assert_level(u); }

/* Run time levels: the default, that of the parent, that of the module. Returns the effective one */
#define NLEVELS (6 * 7 * 7)
static int levels(const LogUnit* u, int x)
{
    const int d = x % 6, p = (x / 6) % 7 - 1, m = x / 42 - 1;
    GLogModule* module = u->module;
    gutil_log_default.level = d;
    unit_parent.level = p;
    if (module) module->level = m;
    if (u->kind && m >= 0) return m;
    if (u->kind == 2 && p >= 0) return p;
    return d;
}

static void expect(const LogUnit* u, int k, int level, const char* text)
{
    MC_CHECK(k < ngot, "%s: \"%s\" wasn't logged", unit_name(u), text);
    MC_CHECK(got[k].module == (u->module ? u->module : (void*)&gutil_log_default) || (!u->module && !got[k].module), "%s: \"%s\" went to a wrong module", unit_name(u), text);
    MC_CHECK(got[k].level == level, "%s: \"%s\" has level %d, expected %d", unit_name(u), text, got[k].level, level);
    MC_CHECK(!strcmp(got[k].text, text), "%s: \"%s\" was logged instead of \"%s\"", unit_name(u), got[k].text, text);
}

static void start(void) { ngot = evals = 0; gutil_log_func2 = capture; }

/*==========================================================================*
 * C31.log
 *==========================================================================*/

static u64 log_count(void) { return NUNITS * NLEVELS; }
static void log_run(u64 x)
{
    const LogUnit* u = __start_mc_units[x % NUNITS];
    const int eff = levels(u, x / NUNITS), max = unit_max(u);
    int l, op, c;
    if (u->broken) return;
    if (u->kind == 0 && x / NUNITS / 6) return;         /* Other levels don't matter */
    if (u->kind == 1 && (x / NUNITS / 6) % 7) return;
    mc_note("%s: %d effective level", unit_name(u), eff);
    for (l = GLOG_LEVEL_ERR; l <= GLOG_LEVEL_VERBOSE; l++) for (op = 0; op < U_NOPS; op++) for (c = 0; c < 2; c++) {
        const int on = l <= max && l <= eff, two = op == U_LOOP;
        const int args = op == U_ARGS || op == U_ARGS_, branch = op == U_IF || op == U_IF_;
        start();
        unit_cond = c;
        u->log(l * U_NOPS + op);
        MC_CHECK(ngot == (on ? 1 + two : 0), "%s: level %d, macro %d: %d messages instead of %d", unit_name(u), l, op, ngot, on ? 1 + two : 0);
        /* The arguments aren't evaluated if it's off at compile time */
        MC_CHECK(evals == (l <= max ? 2 * args + branch : 0), "%s: level %d, macro %d: %d arguments were evaluated", unit_name(u), l, op, evals);
        if (on) switch (op) {
        case U_PLAIN: expect(u, 0, l, "plain"); break;
        case U_ARGS: expect(u, 0, l, "args 7 x %"); break;
        case U_PLAIN_: expect(u, 0, l, "unit_log() plain"); break;
        case U_ARGS_: expect(u, 0, l, "unit_log() args 7 x %"); break;
        case U_IF: expect(u, 0, l, c ? "then 1" : "else 2"); break;
        case U_IF_: expect(u, 0, l, c ? "unit_log() then 1" : "unit_log() else 2"); break;
        case U_LOOP: expect(u, 0, l, "loop 0"); expect(u, 1, l, "loop 1"); break;
        case U_EXPR: expect(u, 0, l, c ? "true" : "unit_log() false"); break;
        }
        mc_step();
    }
    for (l = -2; l <= 6; l++) MC_CHECK(!u->enabled(l) == !(l == GLOG_LEVEL_ALWAYS || (l > 0 && l <= eff)), "%s: GLOG_ENABLED(%d)", unit_name(u), l);
    for (c = 0; c <= 17; c++) {
        static const guchar data[17] = { 0, 'a', 0xff };
        char text[200], hex[GUTIL_HEXDUMP_BUFSIZE + 20];
        GBytes* b;
        int w;
        guint n = 0;
        for (w = 0; w < 2; w++) {
            start();
            b = w ? g_bytes_new_static(data, c) : NULL;
            u->dump(w ? NULL : data, w ? 0 : c, b);
            if (b) g_bytes_unref(b);
            MC_CHECK(ngot == (max >= GLOG_LEVEL_DEBUG && eff >= GLOG_LEVEL_DEBUG ? (c + 15) / 16 : 0), "%s: %d lines in the dump of %d bytes", unit_name(u), ngot, c);
            if (ngot) {
                n = gutil_hexdump(hex, data, c);
                snprintf(text, sizeof(text), "0000: %s", hex);
                expect(u, 0, GLOG_LEVEL_DEBUG, text);
                if (n < (guint)c) { gutil_hexdump(hex, data + n, c - n); snprintf(text, sizeof(text), "0010: %s", hex); expect(u, 1, GLOG_LEVEL_DEBUG, text); }
            }
            mc_step();
        }
    }
    mc_outcome(mc_hash(got, sizeof(got[0].level), eff * 100 + max));
}

/*==========================================================================*
 * C31.assert
 *==========================================================================*/

#define NVAL 9
static u64 assert_count(void) { return NUNITS * U_NVERIFY * NVAL * NVAL; }
static void assert_run(u64 x)
{
    static const int vals[] = { 0, 1, -1, 2, 3, 4, 5, G_MAXINT, G_MININT };
    static const char* const exprs[] = { "unit_ev(a) == b", NULL, "unit_ev(a) == b", "!(unit_ev(a) == b)", "(unit_ev(a)) == (b)", "(unit_ev(a)) != (b)",
        "(unit_ev(a)) >= (b)", "(unit_ev(a)) > (b)", "(unit_ev(a)) <= (b)", "(unit_ev(a)) < (b)", "unit_ev(a) | b",
        "(unit_ev(a) | 4) == (b | 4)", "(unit_ev(a) & 1) != (b & 1)", "!(unit_ev(a) | b)", "unit_ev(a) % 3 == b" };
    const LogUnit* u = __start_mc_units[x % NUNITS];
    const int op = (x /= NUNITS) % U_NVERIFY, a = vals[(x /= U_NVERIFY) % NVAL], b = vals[x / NVAL];
    int eff, c, ok = 0;
    if (u->broken) return;
    for (eff = 0; eff <= GLOG_LEVEL_VERBOSE; eff++) for (c = 0; c < 2; c++) {
        const int on = unit_asserts(u), level = unit_assert_level(u);
        const int verify = op != U_ASSERT && op != U_ASSERT_IF && op != U_ASSERT_OR && op != U_PERCENT;
        switch (op) {
        case U_ASSERT: case U_VERIFY: case U_EQ: ok = a == b; break;
        case U_ASSERT_IF: ok = c ? a == b : a != b; break;
        case U_FALSE: case U_NE: ok = a != b; break;
        case U_GE: ok = a >= b; break;
        case U_GT: ok = a > b; break;
        case U_LE: ok = a <= b; break;
        case U_LT: ok = a < b; break;
        case U_ASSERT_OR: ok = (a | b) != 0; break;
        case U_EQ_OR: ok = (a | 4) == (b | 4); break;
        case U_NE_OR: ok = (a & 1) != (b & 1); break;
        case U_FALSE_OR: ok = !(a | b); break;
        case U_PERCENT: ok = a % 3 == b; break;
        }
        levels(u, eff);         /* The module is off */
        gutil_log_default.level = unit_parent.level = eff;
        if (u->module) ((GLogModule*)u->module)->level = eff;
        start();
        unit_cond = c;
        u->assertion(op, a, b);
        MC_CHECK(evals == (on || verify), "%s: assertion %d: evaluated %d time(s)", unit_name(u), op, evals);
        MC_CHECK(ngot == (on && !ok && level > 0 && level <= eff), "%s: assertion %d of %d and %d: %d message(s)", unit_name(u), op, a, b, ngot);
        if (ngot) {
            char text[300];
            const char* e = exprs[op] ? exprs[op] : c ? "unit_ev(a) == b" : "unit_ev(a) != b";
            char where[300];
            MC_CHECK(strstr(got[0].text, e), "%s: \"%s\" doesn't mention %s", unit_name(u), got[0].text, e);
            snprintf(where, sizeof(where), "%s:%d", u->file, *u->line);
            MC_CHECK(g_str_has_suffix(got[0].text, where), "%s: \"%s\" doesn't mention %s", unit_name(u), got[0].text, where);
            g_strlcpy(text, got[0].text, sizeof(text));
            expect(u, 0, level, text);
        }
        mc_step();
    }
    mc_outcome(ok * 2 + unit_asserts(u));
}

/*==========================================================================*
 * C31.units
 *==========================================================================*/

static u64 units_count(void) { return NUNITS; }
static void units_run(u64 x)
{
    const LogUnit* u = __start_mc_units[x];
    const GLogModule* m = u->module;
    const int max = unit_max(u);
    mc_note("%s", unit_name(u));
    MC_CHECK(!u->broken, "%s doesn't compile: %s", unit_name(u), u->broken);
    MC_CHECK(u->max == max, "%s: maximum level %d", unit_name(u), u->max);
    MC_CHECK(u->def == (u->debug ? GLOG_LEVEL_DEBUG : GLOG_LEVEL_INFO), "%s: default level %d", unit_name(u), u->def);
    MC_CHECK(u->ass == unit_assert_level(u), "%s: assert level %d", unit_name(u), u->ass);
    MC_EXPECT(u->any == (max >= 0) && u->err == (max >= 1) && u->warn == (max >= 2) && u->info == (max >= 3) && u->dbg == (max >= 4) && u->verbose == (max >= 5));
    MC_EXPECT(u->assert_on == unit_asserts(u));
    MC_EXPECT(u->current == u->module);
    MC_EXPECT(!u->module == !u->kind);
    if (m) {
        MC_CHECK(!strcmp(m->name, u->kind == 1 ? "unit" : "child"), "%s: name %s", unit_name(u), m->name);
        MC_EXPECT(m->parent == (u->kind == 2 ? &unit_parent : NULL) && !m->log_proc && m->level == GLOG_LEVEL_INHERIT && !m->flags && m->max_level == max);
    }
    mc_step();
    mc_outcome(x);
}

/*==========================================================================*
 * C31.helpers
 *==========================================================================*/

typedef struct G_PACKED { char c; guint64 q; char t[3]; } Packed;
typedef struct { char pad[5]; int a; Packed p; gpointer last; } Outer;

static u64 helpers_count(void) { return 65536 + 3; }
static void helpers_run(u64 x)
{
    const int v = (int)x;
    if (x < 65536) {
        const guint64 big = G_GUINT64_CONSTANT(0xffffffff0000) + x;
        const gint64 lo = (gint64)x - 70000;
        MC_CHECK(G_ALIGN2(v) == (v + 1) / 2 * 2, "G_ALIGN2(%d) is %d", v, G_ALIGN2(v));
        MC_CHECK(G_ALIGN4(v) == (v + 3) / 4 * 4, "G_ALIGN4(%d) is %d", v, G_ALIGN4(v));
        MC_CHECK(G_ALIGN8(v) == (v + 7) / 8 * 8, "G_ALIGN8(%d) is %d", v, G_ALIGN8(v));
        MC_CHECK(G_ALIGN2(big) == (big + 1) / 2 * 2 && G_ALIGN4(big) == (big + 3) / 4 * 4 && G_ALIGN8(big) == (big + 7) / 8 * 8, "alignment of %llx", (unsigned long long)big);
        MC_CHECK(G_ALIGN2(lo) - lo >= 0 && G_ALIGN2(lo) - lo < 2 && !(G_ALIGN2(lo) % 2), "G_ALIGN2(%d)", (int)lo);
        MC_CHECK(G_ALIGN4(lo) - lo >= 0 && G_ALIGN4(lo) - lo < 4 && !(G_ALIGN4(lo) % 4), "G_ALIGN4(%d)", (int)lo);
        MC_CHECK(G_ALIGN8(lo) - lo >= 0 && G_ALIGN8(lo) - lo < 8 && !(G_ALIGN8(lo) % 8), "G_ALIGN8(%d)", (int)lo);
        /* Precedence */
        MC_CHECK(G_ALIGN2(v | 1) == G_ALIGN2((v | 1)) && G_ALIGN4(v ? v : 1) == G_ALIGN4((v ? v : 1)) && G_ALIGN8(v & 0xff) == G_ALIGN8((v & 0xff)), "argument of G_ALIGN isn't taken as a whole");
        MC_CHECK(2 * G_ALIGN8(v) == G_ALIGN8(v) + G_ALIGN8(v) && 2 * G_ALIGN4(v) == G_ALIGN4(v) + G_ALIGN4(v) && 2 * G_ALIGN2(v) == G_ALIGN2(v) + G_ALIGN2(v), "G_ALIGN doesn't yield a whole");
        mc_outcome(x);
        return;
    }
    switch (x - 65536) {
    case 0: {
        Outer o[3];
        int k;
        for (k = 0; k < 3; k++) {
            MC_EXPECT(G_CAST(&o[k].a, Outer, a) == o + k && G_CAST(&o[k].last, Outer, last) == o + k && G_CAST(o[k].pad, Outer, pad) == o + k);
            MC_EXPECT(G_CAST(&o[k].p, Outer, p) == o + k && G_CAST(&o[0].a + k * 0, Outer, a) == o && G_CAST(k ? &o[k].a : &o[0].a, Outer, a)->pad == o[k].pad);
        }
        break;
    }
    case 1: MC_EXPECT(sizeof(Packed) == 12 && G_STRUCT_OFFSET(Packed, q) == 1); break;
    case 2: {
        GError* e = g_error_new_literal(G_FILE_ERROR, 1, "oops");
        GError* null = NULL;
        GError no = { 0, 0, NULL };
        GError empty = { 0, 0, (char*)"" };
        Outer* s = g_slice_new(Outer);
        Packed* arr[2];
        arr[1] = g_slice_new(Packed);
        MC_EXPECT(!strcmp(GERRMSG(e), "oops") && GERRMSG(e) == e->message && GERRMSG(&no)[0] && GERRMSG(null)[0] && GERRMSG(&empty) == empty.message);
        MC_EXPECT(GERRMSG(null ? null : e) == e->message);
        g_error_free(e);
        gutil_slice_free(s);
        gutil_slice_free(arr[1]);
        break;
    }
    }
    mc_outcome(x);
}

#define FAM(n,a,c,r,s) { .name = n, .kind = MC_FAMILY, .about = a, .count = c, .run = r, .split = s }
const McSuite mc_suites[] = {
    FAM("C31.units", "All compile time configurations (DEBUG, maximum level, assert level, module, C++): constants and module definitions", units_count, units_run, 1),
    FAM("C31.log", "All compile time configurations x run time levels (default, parent, module) x logging macros x shapes of statements", log_count, log_run, 4),
    FAM("C31.assert", "All compile time configurations x 15 assertions and verifications x 81 pairs of values x 6 run time levels", assert_count, assert_run, 4),
    FAM("C31.helpers", "Alignment of 3 ranges of 65536 values, structures and errors", helpers_count, helpers_run, 1),
    { NULL }
};
