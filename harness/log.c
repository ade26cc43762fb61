/* Logging: C24, C25, C26 */
#define GLOG_MODULE_NAME mod_a
#include "mc.h"
#include "gutil_log.h"
#include "gutil_misc.h"
#include <setjmp.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>

static int quick(void) { return mc_tier == MC_QUICK; }

GLogModule mod_a = { "aa", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
static GLogModule mod_b = { "bb", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
static GLogModule mod_c = { "cc", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
static GLogModule* const mods[3] = { &mod_a, &mod_b, &mod_c };
static GLogProc2 default_proc;
static GLogModule default_was;

static void reset(void)
{
    int k;
    for (k = 0; k < 3; k++) {
        mods[k]->parent = NULL; mods[k]->log_proc = NULL;
        mods[k]->level = GLOG_LEVEL_INHERIT; mods[k]->flags = 0;
    }
    gutil_log_default.name = NULL;
    gutil_log_default.parent = NULL;
    gutil_log_default.log_proc = NULL;
    gutil_log_default.flags = 0;
    gutil_log_default.level = GLOG_LEVEL_NONE;
    gutil_log_func = gutil_log_stdout;
    gutil_log_func2 = default_proc;
    gutil_log_timestamp = FALSE;
    gutil_log_tid = FALSE;
    gutil_log_set_timestamp_format(NULL);
}

static int initial_level;
__attribute__((constructor)) static void remember(void) { initial_level = gutil_log_default.level; }

static void setup(void)
{
    default_proc = gutil_log_func2;
    reset();
}

/*==========================================================================*
 * C24
 *==========================================================================*/

typedef struct { int who; const void* module; int level; const char* format; int a; double b; const char* c; char text[400]; } Rec;
static Rec recs[32];
static int nrec;

static void record(int who, const void* module, int level, const char* format, va_list va)
{
    Rec* r = recs + (nrec++ % 32);
    va_list va2;
    r->who = who;
    r->module = module;
    r->level = level;
    r->format = format;
    va_copy(va2, va);
    vsnprintf(r->text, sizeof(r->text), format, va2);
    va_end(va2);
}
#define PROC(n) static void proc##n(const GLogModule* m, int level, const char* f, va_list va) { record(n, m, level, f, va); }
PROC(0) PROC(1) PROC(2) PROC(3) PROC(4)
static void proc_name(const char* name, int level, const char* f, va_list va) { record(5, name, level, f, va); }

/* Levels and flags */
#define NLV 5
static const int lv[NLV] = { GLOG_LEVEL_INHERIT, GLOG_LEVEL_NONE, GLOG_LEVEL_ERR, GLOG_LEVEL_INFO, GLOG_LEVEL_VERBOSE };
static const int msglevels[] = { -3, GLOG_LEVEL_ALWAYS, GLOG_LEVEL_INHERIT, GLOG_LEVEL_NONE, 1, 2, 3, 4, 5, 6, INT_MAX, INT_MIN };
#define NML ((int)G_N_ELEMENTS(msglevels))

static const GLogModule* subject;   /* What is being logged to */

static int ref_verdict(const GLogModule* m, int level)
{
    int max;
    if (level == GLOG_LEVEL_NONE || !gutil_log_func2) return 0;
    if (!m) m = &gutil_log_default;
    for (;;) {
        if (m->flags & GLOG_FLAG_DISABLE) return 0;
        if (m->level != GLOG_LEVEL_INHERIT || !m->parent) break;
        m = m->parent;
    }
    max = m->level == GLOG_LEVEL_INHERIT ? gutil_log_default.level : m->level;
    return level == GLOG_LEVEL_ALWAYS || (level > GLOG_LEVEL_NONE && level <= max);
}

static void logv(const GLogModule* m, int level, const char* f, ...)
{
    va_list va;
    va_start(va, f);
    gutil_logv(m, level, f, va);
    va_end(va);
}

static void expect_one(int on, int level, const char* f, const char* text, const char* how)
{
    const GLogModule* m = subject ? subject : &gutil_log_default;
    MC_CHECK(nrec == on, "%s: %d message(s) at level %d, expected %d", how, nrec, level, on);
    if (on) {
        const Rec* r = recs;
        const int who = m->log_proc == proc0 ? 0 : m->log_proc == proc1 ? 1 : m->log_proc == proc2 ? 2 : m->log_proc == proc3 ? 3 :
            gutil_log_func2 == proc4 ? 4 : 5;
        MC_CHECK(r->who == who, "%s: message went to function %d, expected %d", how, r->who, who);
        if (who < 5) MC_CHECK(r->module == m, "%s: wrong module", how);
        else MC_CHECK(r->module == ((m->flags & GLOG_FLAG_HIDE_NAME) ? NULL : m->name), "%s: wrong name", how);
        MC_CHECK(r->level == level, "%s: level %d, expected %d", how, r->level, level);
        if (f) MC_CHECK(r->format == f, "%s: format has changed", how);
        MC_CHECK(!strcmp(r->text, text), "%s: message '%s', expected '%s'", how, r->text, text);
    }
    nrec = 0;
    mc_steps(1);
}

extern void gutil_log_assert(const GLogModule* module, int level, const char* expr, const char* file, int line);

static void messages(int all)
{
    int k;
    static const char fmt[] = "%d %s %g %c";
    for (k = 0; k < NML; k++) {
        const int level = msglevels[k], on = ref_verdict(subject, level);
        nrec = 0;
        MC_CHECK(!gutil_log_enabled(subject, level) == !on, "level %d is %s", level, on ? "not enabled" : "enabled");
        gutil_log(subject, level, fmt, 42, "string", 0.5, 'z');
        expect_one(on, level, fmt, "42 string 0.5 z", "log");
        if (all) {
            logv(subject, level, fmt, -1, "", 1e9, '%');
            expect_one(on, level, fmt, "-1  1e+09 %", "logv");
            gutil_log_assert(subject, level, "a == b", "file.c", 77);
            expect_one(on, level, NULL, "Assert a == b failed at file.c:77", "assert");
            gutil_log_dump(subject, level, "", "A", 1);
            expect_one(on, level, NULL, "0000: 41                                                  A", "dump");
        }
    }
}

/* parent chain of 0..3 modules, the last one may inherit from the default */
#define CFG 10  /* level x disabled */
static void config(GLogModule* m, int c, int hide) { m->level = lv[c % NLV]; m->flags = (c / NLV ? GLOG_FLAG_DISABLE : 0) | (hide ? GLOG_FLAG_HIDE_NAME : 0); }

static u64 chain_count(void)
{
    return (u64)(1 + CFG * 2 + CFG * CFG * 2 + CFG * CFG * CFG * 2) * CFG * 2 * 4 * 2;
}
static void chain_run(u64 i)
{
    int n, k;
    u64 j, sz = 1;
    const int dflt = i % CFG; i /= CFG;
    const int hide = i % 2; i /= 2;
    const int func = i % 4; i /= 4;
    const int own = i % 2; i /= 2;
    j = i;
    reset();
    gutil_log_default.name = "deflt";
    config(&gutil_log_default, dflt, hide);
    gutil_log_func = proc_name;
    gutil_log_func2 = func == 0 ? default_proc : func == 1 ? proc4 : func == 2 ? NULL : default_proc;
    if (func == 3) gutil_log_default.log_proc = proc3;
    /* Decode the chain */
    n = 0;
    if (j > 0) {
        j--;
        n = 1;
        sz = CFG * 2;
        while (j >= sz) { j -= sz; sz *= CFG; n++; }
        if (j % 2) mods[n - 1]->parent = &gutil_log_default;
        j /= 2;
    }
    for (k = 0; k < n; k++) {
        if (k + 1 < n) mods[k]->parent = mods[k + 1];
        config(mods[k], (int)(j % CFG), hide);
        j /= CFG;
    }
    if (own) { mod_a.log_proc = proc0; mod_b.log_proc = proc1; mod_c.log_proc = proc2; }
    subject = n ? &mod_a : NULL;
    if (mc_verbose) {
        const GLogModule* m;
        mc_note("default: level %d flags %d; func2 %d, own %d", gutil_log_default.level, gutil_log_default.flags, func, own);
        for (m = subject; m; m = m->parent) mc_note("%s: level %d flags %d", m->name, m->level, m->flags);
    }
    messages(1);
    mc_outcome(mc_hash(&i, sizeof(i), dflt + 100 * hide + 1000 * func + 10000 * own));
    reset();
}

/* Long chains in which at most one module says something */
static const int deep_n[] = { 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256, 1000 };
#define NDEEP ((int)G_N_ELEMENTS(deep_n))
static u64 deep_count(void) { return NDEEP * CFG * NLV * 8 * 2; }
static void deep_run(u64 i)
{
    static GLogModule m[1000];
    const int n = deep_n[i % NDEEP], c = i / NDEEP % CFG, dflt = i / NDEEP / CFG % NLV, pos = i / NDEEP / CFG / NLV % 8;
    const int at = pos < 4 ? MIN(pos, n - 1) : n - 1 - MIN(pos - 4, n - 1), up = i / NDEEP / CFG / NLV / 8;
    int k;
    reset();
    config(&gutil_log_default, dflt, 0);
    gutil_log_func2 = proc4;
    for (k = 0; k < n; k++) {
        memset(m + k, 0, sizeof(m[k]));
        m[k].name = "deep";
        m[k].level = GLOG_LEVEL_INHERIT;
        m[k].parent = k + 1 < n ? m + k + 1 : up ? &gutil_log_default : NULL;
    }
    config(m + at, c, 0);
    subject = m;
    mc_note("%d modules, level %d flags %d at %d, default level %d", n, m[at].level, m[at].flags, at, gutil_log_default.level);
    messages(0);
    mc_outcome(i + 1);
    reset();
}

/* Macros (compiled with the module name) */
static u64 macro_count(void) { return CFG * CFG; }
static void macro_run(u64 i)
{
    int max, k;
    reset();
    gutil_log_func2 = proc4;
    subject = &mod_a;
    config(&mod_a, i % CFG, 0);
    config(&gutil_log_default, (int)(i / CFG), 0);
    max = GLOG_LEVEL_MAX;
    for (k = 1; k <= 5; k++) {
        int on = k <= max && ref_verdict(&mod_a, k);
        nrec = 0;
        switch (k) {
        case 1: GERR("%d!", k); break;
        case 2: GWARN("%d!", k); break;
        case 3: GINFO("%d!", k); break;
        case 4: GDEBUG("%d!", k); break;
        default: GVERBOSE("%d!", k); break;
        }
        expect_one(on, k, NULL, k == 1 ? "1!" : k == 2 ? "2!" : k == 3 ? "3!" : k == 4 ? "4!" : "5!", "macro");
    }
    mc_outcome(i + 1);
    reset();
}

/*==========================================================================*
 * C25
 *==========================================================================*/

/* Stand-ins for syslog */
static int sys_n, sys_prio, sys_opened, sys_calls;
static char* sys_text;
void vsyslog(int prio, const char* f, va_list va)
{
    sys_n++;
    sys_prio = prio;
    free(sys_text);
    sys_text = NULL;
    if (vasprintf(&sys_text, f, va) < 0) sys_text = strdup("(error)");
}
void syslog(int prio, const char* f, ...) { va_list va; va_start(va, f); vsyslog(prio, f, va); va_end(va); }
void __syslog_chk(int prio, int flag, const char* f, ...) { va_list va; va_start(va, f); vsyslog(prio, f, va); va_end(va); }
void __vsyslog_chk(int prio, int flag, const char* f, va_list va) { vsyslog(prio, f, va); }
void openlog(const char* id, int opt, int fac) { sys_opened = 1; sys_calls++; }
void closelog(void) { sys_opened = 0; sys_calls++; }

/* And GLib log */
static int gl_n, gl_flags;
static char *gl_text, *gl_domain;
static void gl_func(const char* domain, GLogLevelFlags flags, const char* msg, gpointer p)
{
    gl_n++;
    gl_flags = flags;
    free(gl_text); free(gl_domain);
    gl_text = strdup(msg);
    gl_domain = domain ? strdup(domain) : NULL;
}

static char* out_text;
static size_t out_size;
static FILE *out_stream, *real_stdout, *real_stderr;

/* Both streams go to memory, different ones */
static char* err_text;
static size_t err_size;
static FILE* err_stream;

static GLogFunc was_handler;
static void capture(void)
{
    real_stdout = stdout;
    real_stderr = stderr;
    out_stream = open_memstream(&out_text, &out_size);
    err_stream = open_memstream(&err_text, &err_size);
    stdout = out_stream;
    stderr = err_stream;
    sys_n = gl_n = 0;
    was_handler = g_log_set_default_handler(gl_func, NULL);
}
static void captured(void)
{
    stdout = real_stdout;
    stderr = real_stderr;
    fclose(out_stream);
    fclose(err_stream);
    g_log_set_default_handler(was_handler, NULL);
}
static void capture_free(void)
{
    free(out_text); free(err_text); free(sys_text); free(gl_text); free(gl_domain);
    out_text = err_text = sys_text = gl_text = gl_domain = NULL;
}

static const char long_name[] = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
    "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm"
    "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm"
    "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm";

/* NULL: the default format */
static const char* const tsf[] = {
    NULL, "", "%H:%M ", "%s", "literal", "%%", "%Y-%m-%d %H:%M:%S %Y-%m-%d X",      /* 31: the last one which fits */
    "%Y-%m-%d %H:%M:%S %Y-%m-%d XY", "%A %B %c %A %B %c %A %B %c %A %B %c %A %B %c ", "%Z%n%t", "0123456789012345678901234567890",
    "01234567890123456789012345678901", "\xff\xfe"
};
#define NTSF ((int)G_N_ELEMENTS(tsf) + 1)   /* Plus timestamps disabled */

static GLogProc2 const sinks2[] = { gutil_log_stdout2, gutil_log_stderr2, gutil_log_syslog2, gutil_log_glib2 };
static GLogProc const sinks1[] = { gutil_log_stdout, gutil_log_stderr, gutil_log_syslog, gutil_log_glib };
enum { OUT, ERR, SYS, GLIB };

typedef struct { int sink, level, name, hide, tid, ts, via, dflt; } Deco;

/* Does the record look as it should? msg NULL: anything */
static void record_check(const Deco* d, const char* msg, time_t t0, time_t t1, const char* what)
{
    const char* names[] = { "aa", NULL, "", long_name, "AA", "a" };
    const char* name = d->hide ? NULL : names[d->name];
    const int is_warn = d->level == GLOG_LEVEL_WARN, is_err = d->level == GLOG_LEVEL_ERR;
    char tid[32] = "";
    if (d->tid) snprintf(tid, sizeof(tid), "[%d] ", (int)syscall(SYS_gettid));
    if (d->sink == OUT || d->sink == ERR) {
        const char* text = d->sink == OUT ? out_text : err_text;
        const size_t size = d->sink == OUT ? out_size : err_size;
        time_t t;
        int ok = 0, omit;
        MC_CHECK(!(d->sink == OUT ? err_size : out_size) && !sys_n && !gl_n, "%s: something went to a wrong place", what);
        MC_CHECK(size > 0 && text[size - 1] == '\n', "%s: record isn't terminated: %s", what, text);
        for (t = t0; t <= t1 && !ok; t++) for (omit = 0; omit < 2 && !ok; omit++) {
            char ts[1024] = "";
            GString* s = g_string_new(tid);
            if (d->ts < NTSF - 1) {
                struct tm tm;
                const char* f = tsf[d->ts] ? tsf[d->ts] : "%Y-%m-%d %H:%M:%S ";
                const size_t n = f[0] ? strftime(ts, sizeof(ts), f, localtime_r(&t, &tm)) : 0;
                ts[n] = 0;
                /* Size limit, up to a point, is up to implementation */
                if (omit && n > 31) ts[0] = 0;
            }
            g_string_append(s, ts);
            if (name && name[0]) g_string_append_printf(s, "[%s] ", name);
            g_string_append(s, is_warn ? "WARNING: " : is_err ? "ERROR: " : "");
            if (msg) {
                g_string_append(s, msg);
                g_string_append_c(s, '\n');
                ok = (s->len == size && !memcmp(s->str, text, size));
            } else ok = (s->len < size && !memcmp(s->str, text, s->len) && !memchr(text + s->len, '\n', size - 1 - s->len));
            g_string_free(s, TRUE);
        }
        MC_CHECK(ok, "%s: wrong record: %.600s", what, text);
    } else if (d->sink == SYS) {
        GString* s = g_string_new(tid);
        static const int prio[] = { LOG_NOTICE, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG };
        const int want = d->level >= 1 && d->level <= 5 ? prio[d->level] : LOG_NOTICE;
        MC_CHECK(!out_size && !err_size && !gl_n, "%s: something went to a wrong place", what);
        MC_CHECK(sys_n == 1, "%s: %d syslog records", what, sys_n);
        MC_CHECK(sys_prio == want, "%s: priority %d, expected %d", what, sys_prio, want);
        if (name && name[0] && !(d->dflt && !strcmp(name, "aa"))) g_string_append_printf(s, "[%s] ", name);
        g_string_append(s, is_warn ? "WARNING! " : is_err ? "ERROR! " : "");
        if (msg) {
            g_string_append(s, msg);
            MC_CHECK(!strcmp(s->str, sys_text), "%s: wrong syslog record: %.600s", what, sys_text);
        }
        g_string_free(s, TRUE);
    } else {
        static const int flags[] = { G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_CRITICAL, G_LOG_LEVEL_WARNING, G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_INFO, G_LOG_LEVEL_DEBUG };
        const int want = d->level >= 1 && d->level <= 5 ? flags[d->level] : G_LOG_LEVEL_MESSAGE;
        MC_CHECK(!out_size && !err_size && !sys_n, "%s: something went to a wrong place", what);
        MC_CHECK(gl_n == 1, "%s: %d GLib records", what, gl_n);
        MC_CHECK((gl_flags & G_LOG_LEVEL_MASK) == want, "%s: flags %x, expected %x", what, gl_flags, want);
        MC_CHECK((!gl_domain || !gl_domain[0]) ? (!name || !name[0]) : (name && !strcmp(gl_domain, name)), "%s: domain %s", what, gl_domain);
        if (msg) MC_CHECK(!strcmp(gl_text, msg), "%s: wrong GLib record: %.600s", what, gl_text);
    }
}

static void deco_apply(const Deco* d)
{
    static const char* const names[] = { "aa", NULL, "", long_name, "AA", "a" };
    reset();
    gutil_log_default.level = 5;
    gutil_log_tid = d->tid;
    gutil_log_timestamp = d->ts < NTSF - 1;
    if (d->ts < NTSF - 1) {
        /* Changing it back and forth makes no difference */
        char* f = g_strdup(tsf[d->ts]);
        gutil_log_set_timestamp_format("something");
        gutil_log_set_timestamp_format(f);
        gutil_log_set_timestamp_format(f);
        if (f) { memset(f, 'x', strlen(f)); g_free(f); }
    }
    mod_a.name = names[d->name];
    mod_a.flags = d->hide ? GLOG_FLAG_HIDE_NAME : 0;
    if (d->dflt) gutil_log_default.name = "aa";
    switch (d->via) {
    case 0: gutil_log_func = sinks1[d->sink]; break;
    case 1: gutil_log_func2 = sinks2[d->sink]; break;
    default: mod_a.log_proc = sinks2[d->sink]; break;
    }
}

static int deco_decode(Deco* d, u64* i)
{
    d->sink = *i % 4; *i /= 4;
    d->via = *i % 3; *i /= 3;
    d->name = *i % 6; *i /= 6;
    d->hide = *i % 2; *i /= 2;
    d->tid = *i % 2; *i /= 2;
    d->dflt = *i % 2; *i /= 2;
    d->ts = *i % NTSF; *i /= NTSF;
    return 1;
}
#define NDECO ((u64)4 * 3 * 6 * 2 * 2 * 2 * NTSF)

static const int dlevels[] = { GLOG_LEVEL_ALWAYS, 1, 2, 3, 4, 5 };

/* Every decoration, a few messages */
static const char* const texts[] = { "", "text", "100%", "%s%n%d", "line\nline" };
static u64 deco_count(void) { return NDECO * 6 * (G_N_ELEMENTS(texts) + 1); }
static void deco_run(u64 i)
{
    Deco d;
    time_t t0, t1;
    const char* text;
    int m;
    deco_decode(&d, &i);
    d.level = dlevels[i % 6]; i /= 6;
    m = (int)i;
    deco_apply(&d);
    mc_note("sink %d via %d name %d hide %d tid %d default %d timestamp %d level %d", d.sink, d.via, d.name, d.hide, d.tid, d.dflt, d.ts, d.level);
    t0 = time(NULL);
    capture();
    if (m < (int)G_N_ELEMENTS(texts)) gutil_log(&mod_a, d.level, "%s", text = texts[m]);
    else { gutil_log(&mod_a, d.level, "%d%%|%5s|%-3c|%.2f", -17, "abc", 'd', 2.5); text = "-17%|  abc|d  |2.50"; }
    captured();
    t1 = time(NULL);
    record_check(&d, text, t0, t1, "log");
    mc_outcome(mc_hash(&d, sizeof(d), i));
    capture_free();
    mod_a.name = "aa";
    reset();
}

/* Every length, a few decorations */
static int len_max(void) { return quick() ? 1100 : 4200; }
static const int xlens[] = { 8191, 8192, 16383, 16384, 65535, 65536, 1 << 20 };
static u64 len_count(void) { return (u64)4 * 2 * 2 * 3 * 2 * (len_max() + G_N_ELEMENTS(xlens)); }
static void len_run(u64 i)
{
    Deco d;
    time_t t0, t1;
    char* text;
    int n, k, asformat;
    memset(&d, 0, sizeof(d));
    d.sink = i % 4; i /= 4;
    d.tid = i % 2; i /= 2;
    d.hide = i % 2; i /= 2;
    d.level = (int[]){ 1, 2, 3 }[i % 3]; i /= 3;
    asformat = i % 2; i /= 2;
    d.ts = i % 2 ? NTSF - 1 : 0;
    n = i < (u64)len_max() ? (int)i : xlens[i - len_max()];
    text = g_malloc(n + 1);
    for (k = 0; k < n; k++) text[k] = "0123456789abcdefghijklmnopqrstuvwxyzABC"[(k + k / 39) % 39];
    text[n] = 0;
    deco_apply(&d);
    t0 = time(NULL);
    capture();
    gutil_log(&mod_a, d.level, asformat ? text : "%s", text);
    captured();
    t1 = time(NULL);
    record_check(&d, text, t0, t1, "log");
    mc_outcome(n * 16 + d.sink + 1);
    capture_free();
    g_free(text);
    reset();
}

/* Unprintable messages */
static u64 bad_count(void) { return NDECO * 2; }
static void bad_run(u64 i)
{
    static const wchar_t bad[] = { 'a', 0xd800, 0x110000, 'b', 0 };
    Deco d;
    time_t t0, t1;
    deco_decode(&d, &i);
    d.level = i ? 1 : 3;
    if (d.sink == GLIB) return; /* That's up to GLib */
    deco_apply(&d);
    t0 = time(NULL);
    capture();
    gutil_log(&mod_a, d.level, "%d %ls", 5, bad);
    captured();
    t1 = time(NULL);
    record_check(&d, NULL, t0, t1, "unprintable message");
    mc_outcome(mc_hash(&d, sizeof(d), 0));
    capture_free();
    reset();
}

/* Dumps */
static u64 dump_count(void) { return 3 * 2 * (200 + 3); }
static void dump_run(u64 i)
{
    static const char* const prefixes[] = { NULL, "", "> " };
    static const int big[] = { 0xffff, 0x10000, 0x10031 };
    const char* prefix = prefixes[i % 3];
    int asbytes, n, off, line = 0;
    guchar *data, *b;
    char* p;
    i /= 3;
    asbytes = i % 2; i /= 2;
    n = i < 200 ? (int)i : big[i - 200];
    data = g_malloc(n + 1);
    for (off = 0; off < n; off++) data[off] = off * 7 + off / 256;
    b = mc_exact(data, n);
    reset();
    gutil_log_default.level = 3;
    mod_a.flags = GLOG_FLAG_HIDE_NAME;
    capture();
    if (asbytes) {
        GBytes* by = g_bytes_new_static(b, n);
        gutil_log_dump_bytes(&mod_a, 3, prefix, by);
        gutil_log_dump_bytes(&mod_a, 4, prefix, by);
        gutil_log_dump_bytes(&mod_a, 3, prefix, NULL);
        g_bytes_unref(by);
    } else {
        gutil_log_dump(&mod_a, 3, prefix, b, n);
        gutil_log_dump(&mod_a, 4, prefix, b, n);
    }
    captured();
    MC_EXPECT(!memcmp(b, data, n));
    p = out_text;
    for (off = 0; off < n; off += 16, line++) {
        const int k1 = MIN(n - off, 16);
        char want[200];
        int k, w;
        w = sprintf(want, "%s%04X: ", prefix ? prefix : "", off);
        for (k = 0; k < 16; k++) {
            if (k) w += sprintf(want + w, k == 8 ? "  " : " ");
            w += k < k1 ? sprintf(want + w, "%02x", data[off + k]) : sprintf(want + w, "  ");
        }
        w += sprintf(want + w, "    ");
        for (k = 0; k < k1; k++) {
            const int c = data[off + k];
            if (k == 8) want[w++] = ' ';
            want[w++] = c >= 0x20 && c < 0x7f ? c : '.';
        }
        want[w++] = '\n';
        want[w] = 0;
        MC_CHECK(p + w <= out_text + out_size && !memcmp(p, want, w), "line %d is '%.100s', expected '%s'", line, p, want);
        p += w;
    }
    MC_CHECK(p == out_text + out_size, "%d lines expected, there's more: %s", line, p);
    mc_steps(line);
    mc_outcome(i + 1);
    capture_free();
    free(b);
    g_free(data);
    reset();
}

/* The beginning of a huge dump */
static jmp_buf enough;
static void huge_proc(const GLogModule* m, int level, const char* f, va_list va)
{
    char want[32];
    record(0, m, level, f, va);
    sprintf(want, "%04X: 00 00 ", (nrec - 1) * 16);
    MC_CHECK(!strncmp(recs[(nrec - 1) % 32].text, want, strlen(want)), "line %d: %s", nrec, recs[(nrec - 1) % 32].text);
    if (nrec == 10) longjmp(enough, 1);
}
static u64 hugedump_count(void) { return 2; }
static void hugedump_run(u64 i)
{
    const gsize n = ((gsize)1 << 32) + (i ? 5 : 0);
    void* p = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    MC_EXPECT(p != MAP_FAILED);
    reset();
    gutil_log_default.level = 3;
    gutil_log_func2 = huge_proc;
    nrec = 0;
    if (!setjmp(enough)) gutil_log_dump(NULL, 3, NULL, p, n);
    MC_CHECK(nrec == 10, "only %d lines", nrec);
    munmap(p, n);
    mc_outcome(i + 1);
    reset();
}

/*==========================================================================*
 * C26
 *==========================================================================*/

static GLogModule om[4] = {
    { "m", NULL, NULL, GLOG_LEVEL_MAX, 1, 0, 0 },
    { "Mo", NULL, NULL, GLOG_LEVEL_MAX, 2, 0, 0 },
    { "n0", NULL, NULL, GLOG_LEVEL_MAX, 3, 0, 0 },
    { "mod-e", NULL, NULL, GLOG_LEVEL_MAX, 4, 0, 0 }
};
static GLogModule* olist[4] = { om + 1, om + 0, om + 2, om + 3 };

static const char* const level_names[] = { "none", "error", "warning", "info", "debug", "verbose" };

static int ref_level(const char* s)
{
    int k;
    if (!s[0]) return -1;
    if (s[0] >= '0' && s[0] <= '5' && !s[1]) return s[0] - '0';
    for (k = 0; k < 6; k++) if (!strncmp(level_names[k], s, strlen(s))) return k;
    return -1;
}

static void option_check(const char* opt0, int count)
{
    char* opt = mc_exact(opt0, strlen(opt0) + 1);
    int k, r, level, target = -2, pass;
    const char* sep = strchr(opt, ':');
    level = ref_level(sep ? sep + 1 : opt);
    if (level >= 0) {
        if (!sep) target = -1;
        else for (k = count - 1; k >= 0; k--)
            if (strlen(olist[k]->name) == (gsize)(sep - opt) && !strncasecmp(olist[k]->name, opt, sep - opt)) target = k;
    }
    for (pass = 0; pass < 2; pass++) {
        GError* e = NULL;
        char dflt[sizeof(GLogModule)], was[4][sizeof(GLogModule)];
        reset();
        gutil_log_default.level = 77;
        for (k = 0; k < 4; k++) {
            olist[k]->level = 10 + k;
            olist[k]->flags = pass ? GLOG_FLAG_DISABLE : GLOG_FLAG_HIDE_NAME;
            memcpy(was[k], olist[k], sizeof(*olist[k]));
        }
        memcpy(dflt, &gutil_log_default, sizeof(gutil_log_default));
        r = gutil_log_parse_option(opt, count ? olist : NULL, count, pass ? NULL : &e);
        MC_CHECK(!r == (target == -2), "option '%s' (%d modules) is %s", opt0, count, r ? "accepted" : "refused");
        if (!pass) MC_CHECK(!r == !!e, "option '%s': error is %s", opt0, e ? "set" : "not set");
        if (e) { MC_CHECK(e->message && e->message[0], "no message"); g_error_free(e); }
        memcpy(dflt + G_STRUCT_OFFSET(GLogModule, level), (int[]) { target == -1 ? level : 77 }, sizeof(int));
        MC_CHECK(!memcmp(dflt, &gutil_log_default, sizeof(dflt)), "option '%s' changes the default module", opt0);
        MC_CHECK(gutil_log_default.level == (target == -1 ? level : 77), "option '%s': default level is %d", opt0, gutil_log_default.level);
        for (k = 0; k < 4; k++) {
            MC_CHECK(olist[k]->level == (target == k ? level : 10 + k), "option '%s': level of %s is %d", opt0, olist[k]->name, olist[k]->level);
            memcpy(was[k] + G_STRUCT_OFFSET(GLogModule, level), &olist[k]->level, sizeof(int));
            MC_CHECK(!memcmp(was[k], olist[k], sizeof(was[k])), "option '%s' changes something besides the level of %s", opt0, olist[k]->name);
            olist[k]->flags = 0;
        }
    }
    MC_CHECK(!strcmp(opt, opt0), "option has changed");
    mc_outcome(mc_hash(opt0, strlen(opt0), count * 8 + target + 3));
    mc_steps(2);
    free(opt);
    reset();
}

static const char optalpha[] = ":mMo0n56eE -";
#define OA ((int)sizeof(optalpha) - 1)
static int opt_max(void) { return quick() ? 4 : 6; }
static u64 opt_count(void) { u64 n = 1, t = 0; int k; for (k = 0; k <= opt_max(); k++) { t += n; n *= OA; } return t * 2; }
static void opt_run(u64 i)
{
    char s[16];
    int k, n = 0;
    const int count = i % 2 ? 4 : 2;
    u64 c = 1;
    i /= 2;
    while (i >= c) { i -= c; c *= OA; n++; }
    for (k = 0; k < n; k++) { s[k] = optalpha[i % OA]; i /= OA; }
    s[n] = 0;
    option_check(s, count);
}

/* [module:]level out of parts: names and levels, modified in every position */
static const char* const omods[] = { NULL, "", "m", "M", "mo", "MO", "n0", "N0", "n", "mod-e", "MOD-E", "mod_e", "mod-", "mod-ee", "none", "x" };
static u64 part_count(void) { return G_N_ELEMENTS(omods) * 5 * (6 * 9 * 4 + 3 * 256); }
static void part_run(u64 i)
{
    char s[64] = "", l[32];
    const char* m = omods[i % G_N_ELEMENTS(omods)];
    int count;
    i /= G_N_ELEMENTS(omods);
    count = i % 5; i /= 5;
    if (i < 3 * 256) {
        const int two = (int)i / 256;
        if (two) l[0] = two == 1 ? '3' : 'e';
        l[!!two] = (char)i;
        l[!!two + 1] = 0;
    } else {
        const char* name;
        int len, mod;
        i -= 3 * 256;
        name = level_names[i % 6]; i /= 6;
        len = i % 9; i /= 9;
        mod = (int)i;
        snprintf(l, sizeof(l), "%.*s", len, name);
        if (mod == 1) strcat(l, "x");
        if (mod == 2 && l[0]) l[strlen(l) - 1] ^= 0x20;
        if (mod == 3) strcat(l, " ");
    }
    if (m) { strcat(s, m); strcat(s, ":"); }
    strcat(s, l);
    option_check(s, count);
}

/* Types */
static const char* const types[] = { "stdout", "STDERR", "syslog", "GLib", "Stdout", "stderr", "sysLOG", "glib",
    "custom", "", "std", "stdoutx", "stdou", "whatever" };
#define NT ((int)G_N_ELEMENTS(types))
static int ty_cur, ty_name;
static void ty_create(void) { reset(); ty_cur = 0; ty_name = 0; }
static int ty_nops(void) { return NT * 3 + 1; }
static int ty_apply(int op)
{
    static const char* const dn[] = { NULL, "one", "two" };
    const char* names[] = { GLOG_TYPE_STDOUT, GLOG_TYPE_STDERR, GLOG_TYPE_SYSLOG, GLOG_TYPE_GLIB, GLOG_TYPE_CUSTOM };
    static const char* plain[] = { "stdout", "stderr", "syslog", "glib", "custom" };
    static const GLogProc procs[] = { gutil_log_stdout, gutil_log_stderr, gutil_log_syslog, gutil_log_glib, proc_name };
    int n0 = sys_calls;
    if (op == NT * 3) {
        gutil_log_func = proc_name;
        ty_cur = 4;
    } else {
        const int t = op % NT, d = op / NT;
        const int known = t < 8;
        const gboolean r = gutil_log_set_type(types[t], dn[d]);
        MC_CHECK(!r == !known, "type '%s' is %s", types[t], r ? "accepted" : "refused");
        if (known) { ty_cur = t % 4; if (d) ty_name = d; }
        else MC_CHECK(sys_calls == n0, "refused type has affected syslog");
        /* Left it */
        if (known && ty_cur == 2) { /* may or may not be opened explicitly */ }
    }
    MC_CHECK(gutil_log_func == procs[ty_cur], "wrong function");
    MC_CHECK(gutil_log_get_type() == names[ty_cur] && !strcmp(names[ty_cur], plain[ty_cur]), "type is %s", gutil_log_get_type());
    MC_CHECK(gutil_log_default.name == dn[ty_name], "default name is %s, expected %s", gutil_log_default.name, dn[ty_name]);
    return 1;
}
static void ty_key(void) { mc_key_int(ty_cur); mc_key_int(ty_name); mc_key_int(sys_opened); }
static void ty_destroy(void) { reset(); }

/* Description */
static u64 desc_count(void) { return 6; }
static void desc_run(u64 i)
{
    const int count = (int)i - 1;
    char* s = gutil_log_description(count < 0 ? NULL : olist, MAX(count, 0));
    char** lines = g_strsplit(s, "\n", -1);
    int k, j, n;
    for (k = 0; k < 6; k++) {
        for (n = j = 0; lines[j]; j++) {
            char num[8], name[16];
            const char* l = lines[j];
            while (*l == ' ') l++;
            if (sscanf(l, "%7[0-9] , %15[a-z]", num, name) == 2 || sscanf(l, "%7[0-9], %15[a-z]", num, name) == 2)
                if (atoi(num) == k && !strcmp(name, level_names[k])) {
                    n++;
                    MC_CHECK(!strstr(l, "default") == (k != initial_level), "wrong default level (not %d):\n%s", initial_level, s);
                }
        }
        MC_CHECK(n == 1, "level %d is described %d times:\n%s", k, n, s);
    }
    for (k = 0; k < 4; k++) {
        for (n = j = 0; lines[j]; j++) { char* l = g_strstrip(g_strdup(lines[j])); if (!strcmp(l, olist[k]->name)) n++; g_free(l); }
        MC_CHECK(n == (k < count), "module %s is listed %d times:\n%s", olist[k]->name, n, s);
    }
    g_strfreev(lines);
    g_free(s);
    mc_outcome(i + 1);
}

/* Lots of modules */
#define MANY 300
static GLogModule lots[MANY], *lots_of[MANY];
static char lots_name[MANY][16];
static const int many_n[] = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, MANY };
static void many_setup(void)
{
    int k;
    setup();
    for (k = 0; k < MANY; k++) {
        sprintf(lots_name[k], "module%d", k);
        lots[k].name = lots_name[k];
        lots_of[k] = lots + k;
    }
}
static u64 many_count(void) { return G_N_ELEMENTS(many_n) * (MANY + 1); }
static void many_run(u64 i)
{
    const int n = many_n[i % G_N_ELEMENTS(many_n)], t = i / G_N_ELEMENTS(many_n);
    char s[64];
    int k, r, pass;
    for (pass = 0; pass < 2; pass++) {
        reset();
        for (k = 0; k < MANY; k++) lots[k].level = 10 + k;
        sprintf(s, pass ? "MODULE%d:error" : "module%d:3", t);
        r = gutil_log_parse_option(s, lots_of, n, NULL);
        MC_CHECK(!r == (t >= n), "option '%s' is %s, there are %d modules", s, r ? "accepted" : "refused", n);
        MC_CHECK(gutil_log_default.level == GLOG_LEVEL_NONE, "option '%s': default level is %d", s, gutil_log_default.level);
        for (k = 0; k < MANY; k++) MC_CHECK(lots[k].level == (k == t && t < n ? (pass ? 1 : 3) : 10 + k), "option '%s': level of %s is %d", s, lots[k].name, lots[k].level);
        mc_step();
    }
    if (!t) {
        char *d = gutil_log_description(lots_of, n), **lines = g_strsplit(d, "\n", -1);
        int count[MANY] = { 0 }, j, x;
        for (j = 0; lines[j]; j++) if (sscanf(g_strstrip(lines[j]), "module%d", &x) == 1 && x >= 0 && x < MANY && !strcmp(lines[j], lots_name[x])) count[x]++;
        for (k = 0; k < MANY; k++) MC_CHECK(count[k] == (k < n), "%s is listed %d times, there are %d modules", lots_name[k], count[k], n);
        g_strfreev(lines);
        g_free(d);
    }
    mc_outcome(i + 1);
    reset();
}

static void env_setup(void) { setenv("TZ", "UTC", 1); tzset(); setup(); }

const McSuite mc_suites[] = {
    { "C24.chains", MC_FAMILY, "NULL module and chains of 1..3 modules (optionally inheriting from the default), 5 levels each, disabled or not, hidden or not, all combinations of per-module and global functions, 12 message levels", chain_count, chain_run, .setup = setup, .split = 8 },
    { "C24.deep", MC_FAMILY, "Chains of 4..1000 modules one of which (near to either end) has a level of its own or is disabled", deep_count, deep_run, .setup = setup },
    { "C24.macros", MC_FAMILY, "Logging macros with all levels of the module and the default", macro_count, macro_run, .setup = setup },
    { "C25.decorations", MC_FAMILY, "All combinations of 4 destinations, 3 ways to configure, 6 names, hiding, thread id, 14 timestamp settings, levels, 6 texts", deco_count, deco_run, .setup = env_setup, .split = 8 },
    { "C25.lengths", MC_FAMILY, "Messages of each length up to 1100 (4200) and around several larger powers of two, the format or an argument, variously decorated", len_count, len_run, .setup = env_setup, .split = 8 },
    { "C25.unprintable", MC_FAMILY, "Messages which can't be formatted, all decorations", bad_count, bad_run, .setup = env_setup, .split = 2 },
    { "C25.dumps", MC_FAMILY, "Dumps of each length up to 199 and beyond 64K", dump_count, dump_run, .setup = env_setup, .split = 2 },
    { "C25.huge", MC_FAMILY, "First lines of a dump of 4 GiB or more", hugedump_count, hugedump_run, .setup = env_setup },
    { "C26.options", MC_FAMILY, "All options up to 4 (6) characters over 12, against 2 and 4 modules", opt_count, opt_run, .setup = setup, .split = 8 },
    { "C26.parts", MC_FAMILY, "16 module parts x all single characters, two letters or digits followed by any character, all leading parts of all level names and modifications of those, 0..4 modules", part_count, part_run, .setup = setup, .split = 2 },
    { "C26.types", MC_BFS, "All sequences of valid and invalid type settings", .create = ty_create, .nops = ty_nops, .apply = ty_apply, .key = ty_key, .destroy = ty_destroy, .depth_quick = 6, .depth_thorough = 10, .setup = setup },
    { "C26.many", MC_FAMILY, "Option for each of up to 300 modules, and their description", many_count, many_run, .setup = many_setup },
    { "C26.description", MC_FAMILY, "Description of 0..4 modules", desc_count, desc_run, .setup = setup },
    { NULL }
};
