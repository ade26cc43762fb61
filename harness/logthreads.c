/* Logging from several threads (C25) */
#include "mc.h"
#include "mcsched.h"
#include "gutil_log.h"
#include "gutil_misc.h"
#include <syslog.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

static GLogModule mod = { "mod", NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_VERBOSE, 0, 0 };
enum { OUT, ERR, SYS, GLIB, NSINK };
static GLogProc const sinks[] = { gutil_log_stdout, gutil_log_stderr, gutil_log_syslog, gutil_log_glib };
static const char* const sink_name[] = { "stdout", "stderr", "syslog", "glib" };
#define DAY (24 * 3600)
static int sink, ts;

/* What has been written */
static char* recs[64];
static int nrec, rec_by[64];

static void add_rec(char* s)
{
    MC_CHECK(nrec < 64, "too many records");
    rec_by[nrec] = sched_me();
    recs[nrec++] = s;
}

void vsyslog(int prio, const char* f, va_list va)
{
    char* s = NULL;
    if (vasprintf(&s, f, va) < 0) s = strdup("(error)");
    add_rec(s);
}
void syslog(int prio, const char* f, ...) { va_list va; va_start(va, f); vsyslog(prio, f, va); va_end(va); }
void __syslog_chk(int prio, int flag, const char* f, ...) { va_list va; va_start(va, f); vsyslog(prio, f, va); va_end(va); }
void __vsyslog_chk(int prio, int flag, const char* f, va_list va) { vsyslog(prio, f, va); }
static void gl_func(const char* domain, GLogLevelFlags flags, const char* msg, gpointer p) { add_rec(strdup(msg)); }

/* Operations */
typedef enum { L_SHORT, L_LONG, L_DUMP, L_WARN, L_COUNT } Op;
static const char* const op_name[] = { "short", "long", "dump", "warning" };
static int prog[SCHED_MAX][3], len;
static char expect[SCHED_MAX][16][1024];    /* Text of each record, without decorations */
static int nexpect[SCHED_MAX], tids[SCHED_MAX];
static const time_t times[SCHED_MAX] = { 100 * DAY + 3600, 2000 * DAY + 2 * 3600 + 65, 5000 * DAY + 7, 9000 * DAY };
static time_t clk(void) { return times[sched_me()]; }

static void log_thread(void* arg)
{
    const int me = (int)(long)arg;
    int i;
    tids[me] = (int)syscall(SYS_gettid);
    for (i = 0; i < len; i++) {
        switch (prog[me][i]) {
        case L_SHORT: gutil_log(&mod, GLOG_LEVEL_INFO, "%c%d short %s", 'A' + me, i, "text"); break;
        case L_WARN: gutil_log(NULL, GLOG_LEVEL_WARN, "%c%d%%", 'A' + me, i); break;
        case L_LONG: gutil_log(&mod, GLOG_LEVEL_DEBUG, "%c%d%*d", 'A' + me, i, 600 + me * 100, i); break;
        case L_DUMP: {
            guint8 data[20];
            memset(data, 0x10 * (me + 1) + i, sizeof(data));
            gutil_log_dump(&mod, GLOG_LEVEL_DEBUG, me ? "<" : ">", data, sizeof(data));
            break;
        }
        }
        mc_step();
    }
}

static void expectations(int me)
{
    int i, k, n = 0;
    for (i = 0; i < len; i++) {
        char* s = expect[me][n];
        switch (prog[me][i]) {
        case L_SHORT: sprintf(s, "[mod] %c%d short text", 'A' + me, i); n++; break;
        case L_WARN: sprintf(s, "%s%c%d%%", sink == GLIB ? "" : sink == SYS ? "WARNING! " : "WARNING: ", 'A' + me, i); n++; break;
        case L_LONG: sprintf(s, "[mod] %c%d%*d", 'A' + me, i, 600 + me * 100, i); n++; break;
        default: for (k = 0; k < 20; k += 16) {
            char buf[GUTIL_HEXDUMP_BUFSIZE];
            guint8 data[16];
            memset(data, 0x10 * (me + 1) + i, sizeof(data));
            gutil_hexdump(buf, data, MIN(20 - k, 16));
            sprintf(expect[me][n++], "[mod] %s%04X: %s", me ? "<" : ">", k, buf);
        }
        }
    }
    if (sink == GLIB) for (i = 0; i < n; i++) if (!strncmp(expect[me][i], "[mod] ", 6)) memmove(expect[me][i], expect[me][i] + 6, strlen(expect[me][i] + 6) + 1);
    nexpect[me] = n;
}

static void log_body_(int n)
{
    static const SchedFunc fns[SCHED_MAX] = { log_thread, log_thread, log_thread, log_thread };
    static void* const args[SCHED_MAX] = { (void*)0, (void*)1, (void*)2, (void*)3 };
    const int c = mc_choose(NSINK * 2 * L_COUNT, "destination, decorations and the first operation");
    FILE *so = stdout, *se = stderr, *f = NULL;
    char* text = NULL;
    size_t size = 0;
    int i, k, next[SCHED_MAX] = { 0 }, total = 0;
    time_t t0 = time(NULL), t1, t;
    GLogFunc was;
    u64 h = c;
    sink = c % NSINK;
    ts = c / NSINK % 2;
    len = mc_tier == MC_QUICK || n > 2 ? (n > 2 ? 1 : 2) : 2;
    mc_note("%s, %s", sink_name[sink], ts ? "timestamps and thread ids" : "no timestamps");
    for (i = 0; i < n; i++) for (k = 0; k < len; k++) {
        prog[i][k] = i || k ? mc_choose(L_COUNT, "op") : c / NSINK / 2;
        h = h * 5 + prog[i][k];
        mc_note("  thread %d: %s", i, op_name[prog[i][k]]);
    }
    gutil_log_func = sinks[sink];
    gutil_log_default.level = GLOG_LEVEL_VERBOSE;
    gutil_log_timestamp = gutil_log_tid = ts;
    gutil_log_set_timestamp_format("%Y-%m-%d %H:%M:%S ");
    for (i = 0; i < n; i++) { expectations(i); total += nexpect[i]; }
    nrec = 0;
    was = g_log_set_default_handler(gl_func, NULL);
    if (sink == OUT || sink == ERR) {
        f = open_memstream(&text, &size);
        if (sink == OUT) stdout = f; else stderr = f;
    }
    sched_clock = clk;
    sched_run(n, fns, args, FALSE);
    g_log_set_default_handler(was, NULL);
    t1 = time(NULL);
    stdout = so;
    stderr = se;
    if (f) {
        char* p;
        fclose(f);
        MC_CHECK(size && text[size - 1] == '\n', "last record isn't terminated");
        for (p = text; p < text + size; ) {
            char* e = strchr(p, '\n');
            *e = 0;
            add_rec(strdup(p));
            p = e + 1;
        }
        free(text);
    }
    for (i = 0; i < nrec; i++) {
        int found = 0;
        for (k = 0; k < n && !found; k++) if (next[k] < nexpect[k]) {
            char buf[2048];
            int cand;
            for (cand = 0, t = times[k]; !found && (cand == 0 || t <= t1); t = cand++ ? t + 1 : t0) {
                struct tm tm;
                char tsbuf[64];
                strftime(tsbuf, sizeof(tsbuf), "%Y-%m-%d %H:%M:%S ", gmtime_r(&t, &tm));
                if (!ts) snprintf(buf, sizeof(buf), "%s", expect[k][next[k]]);
                else if (f) snprintf(buf, sizeof(buf), "[%d] %s%s", tids[k], tsbuf, expect[k][next[k]]);
                else if (sink == SYS) snprintf(buf, sizeof(buf), "[%d] %s", tids[k], expect[k][next[k]]);
                else snprintf(buf, sizeof(buf), "%s", expect[k][next[k]]);
                if (!strcmp(buf, recs[i])) { found = 1; next[k]++; }
                if (!ts) break;
            }
        }
        MC_CHECK(found, "unexpected record: %.200s", recs[i]);
        free(recs[i]);
    }
    MC_CHECK(nrec == total, "%d records instead of %d", nrec, total);
    mc_outcome(h);
}

static void log_two(void) { log_body_(2); }
static void log_three(void) { log_body_(3); }
static void setup(void)
{
    time_t t = 0;
    setenv("TZ", "UTC", 1);
    tzset();
    localtime(&t);
    g_log(NULL, G_LOG_LEVEL_DEBUG, "x");
}

const McSuite mc_suites[] = {
    { "C25.threads", MC_DFS, "2 threads logging 2 messages each: 4 destinations, with or without timestamps and thread ids, 4 kinds of messages, up to 1 (2) preemptions", .body = log_two, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup, .only = 3 },
    { "C25.three_threads", MC_DFS, "3 threads logging a message each, same destinations, up to 1 (2) preemptions", .body = log_three, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup, .only = 3 },
    { NULL }
};
