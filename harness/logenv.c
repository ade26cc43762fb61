/* Log settings taken from the environment: C30. Every case starts this program anew */
#define GLOG_MODULE_NAME mod_e
#include "mc.h"
#include "gutil_log.h"
#include <spawn.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/syscall.h>

static GLogModule mod = { "mm", NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 };

static const char* const names[3] = { "GUTIL_LOG_DEFAULT_LEVEL", "GUTIL_LOG_TIMESTAMP", "GUTIL_LOG_TID" };

/* Texts, whether those are integers and which ones */
static const struct text { const char* s; int ok, v; int small; } texts[] = {
    { NULL, 0, 0, 1 }, { "0", 1, 0, 1 }, { "1", 1, 1, 1 }, { "2", 1, 2, 1 }, { "5", 1, 5, 1 }, { "-1", 1, -1, 1 },
    { "-2", 1, -2, 1 }, { "x", 0, 0, 1 }, { "1x", 0, 0, 1 }, { " 3 ", 1, 3, 1 }, { "", 0, 0, 1 },
    { " ", 0, 0 }, { "4", 1, 4 }, { "6", 1, 6 }, { "-3", 1, -3 }, { "+3", 1, 3 }, { "\t2\n", 1, 2 },
    { "0x2", 1, 2 }, { "0X3", 1, 3 }, { "03", 1, 3 }, { "010", 1, 8 }, { "08", 0, 0 }, { "--1", 0, 0 }, { "1 1", 0, 0 }, { "- 1", 0, 0 },
    { "2147483647", 1, INT_MAX }, { "2147483648", 0, 0 }, { "-2147483648", 1, INT_MIN }, { "-2147483649", 0, 0 },
    { "4294967296", 0, 0 }, { "4294967297", 0, 0 }, { "99999999999999999999", 0, 0 }, { "-99999999999999999999", 0, 0 },
    { "18446744073709551616", 0, 0 }, { "1.0", 0, 0 }, { "true", 0, 0 }, { "debug", 0, 0 }, { "0x", 0, 0 }, { "-", 0, 0 },
    { "00", 1, 0 }, { "-0", 1, 0 }
};
#define NT ((int)G_N_ELEMENTS(texts))
#define NSMALL 11

static const int levels[] = { GLOG_LEVEL_ALWAYS, GLOG_LEVEL_INHERIT, 0, 1, 2, 3, 4, 5, 6 };
#define NL ((int)G_N_ELEMENTS(levels))

/*==========================================================================*
 * The child
 *==========================================================================*/

int mc_alt_main(int argc, char** argv);
int mc_alt_main(int argc, char** argv)
{
    int k, i;
    if (!getenv("MC_LOGENV")) return -1;
    printf("\n@start\n%d %d %d %d\n", gutil_log_default.level, gutil_log_timestamp, gutil_log_tid, (int)syscall(SYS_gettid));
    for (k = 0; k < 2; k++) {
        /* The environment is only looked at once */
        for (i = 0; k && i < 3; i++) setenv(names[i], i ? "7" : "5", 1);
        for (i = 0; i < NL; i++) gutil_log(NULL, levels[i], "default %d %d", k, levels[i]);
        for (i = 0; i < NL; i++) gutil_log(&mod, levels[i], "module %d %d", k, levels[i]);
        printf("@%d %d %d\n", gutil_log_default.level, gutil_log_timestamp, gutil_log_tid);
    }
    fflush(stdout);
    return 0;
}

/*==========================================================================*
 * The parent
 *==========================================================================*/

static char out[8192];

static void start(const int* t)
{
    char* env[40];
    char* own[4];
    static char marker[] = "MC_LOGENV=1";
    extern char** environ;
    static char self[] = "self";
    char* av[2] = { self, NULL };
    posix_spawn_file_actions_t fa;
    int n = 0, i, nown = 0, fd[2], status, len = 0;
    pid_t pid;

    for (i = 0; environ[i] && n < 30; i++) {
        if (!strncmp(environ[i], "ASAN_OPTIONS=", 13) || !strncmp(environ[i], "PATH=", 5) || !strncmp(environ[i], "LD_LIBRARY_PATH=", 16)) env[n++] = environ[i];
    }
    for (i = 0; i < 3; i++) {
        if (texts[t[i]].s) {
            own[nown] = g_strdup_printf("%s=%s", names[i], texts[t[i]].s);
            env[n++] = own[nown++];
        }
    }
    env[n++] = marker;
    env[n] = NULL;
    MC_EXPECT(!pipe(fd));
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
    posix_spawn_file_actions_addclose(&fa, fd[0]);
    i = posix_spawn(&pid, "/proc/self/exe", &fa, NULL, av, env);
    posix_spawn_file_actions_destroy(&fa);
    if (i) { fprintf(stderr, "mc: spawn: %s\n", strerror(i)); _exit(3); }
    close(fd[1]);
    for (;;) {
        ssize_t r = read(fd[0], out + len, sizeof(out) - 1 - len);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        len += r;
    }
    out[len] = 0;
    close(fd[0]);
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
    while (nown) g_free(own[--nown]);
    MC_CHECK(WIFEXITED(status) && !WEXITSTATUS(status), "the program didn't start with these settings (status %d)", status);
}

/* Skips decoration, returns the rest of the line */
static const char* undecorated(const char* l, int ts, int tid, int pid)
{
    if (tid) {
        char want[32];
        snprintf(want, sizeof(want), "[%d] ", pid);
        MC_CHECK(g_str_has_prefix(l, want), "no thread id in \"%.60s\"", l);
        l += strlen(want);
    }
    if (ts) {
        static const char pat[] = "dddd-dd-dd dd:dd:dd ";
        int i;
        for (i = 0; pat[i]; i++) MC_CHECK(pat[i] == 'd' ? g_ascii_isdigit(l[i]) : l[i] == pat[i], "no timestamp in \"%.60s\"", l);
        l += i;
    }
    return l;
}

static int builtin = INT_MIN;

static void verify(const int* t)
{
    const struct text* T[3] = { texts + t[0], texts + t[1], texts + t[2] };
    const int level = (T[0]->ok && T[0]->v >= GLOG_LEVEL_INHERIT) ? T[0]->v : builtin;
    const int ts = T[1]->ok && T[1]->v > 0;
    const int tid = T[2]->ok && T[2]->v > 0;
    int l, a, b, pid, k, m, i;
    char want[64];
    char* p = strstr(out, "\n@start\n");
    char* save = NULL;

    MC_CHECK(p, "no output");
    p = strtok_r(p + 8, "\n", &save);
    MC_CHECK(p && sscanf(p, "%d %d %d %d", &l, &a, &b, &pid) == 4, "no state");
    if (builtin == INT_MIN) { builtin = l; return; }
    MC_CHECK(l == level, "default level is %d, expected %d", l, level);
    MC_CHECK(!a == !ts, "timestamps are %s", a ? "on" : "off");
    MC_CHECK(!b == !tid, "thread ids are %s", b ? "on" : "off");
    p = strtok_r(NULL, "\n", &save);
    for (k = 0; k < 2; k++) {
        for (m = 0; m < 2; m++) {
            for (i = 0; i < NL; i++) {
                if (levels[i] == GLOG_LEVEL_ALWAYS || (levels[i] > 0 && levels[i] <= level)) {
                    const char* pre = levels[i] == GLOG_LEVEL_ERR ? "ERROR: " : levels[i] == GLOG_LEVEL_WARN ? "WARNING: " : "";
                    MC_CHECK(p && p[0] != '@', "no message at level %d (%s)", levels[i], m ? "module" : "default");
                    snprintf(want, sizeof(want), "%s%s%s %d %d", m ? "[mm] " : "", pre, m ? "module" : "default", k, levels[i]);
                    MC_CHECK(!strcmp(undecorated(p, ts, tid, pid), want), "\"%.80s\" instead of \"%s\"", p, want);
                    p = strtok_r(NULL, "\n", &save);
                }
            }
        }
        MC_CHECK(p && p[0] == '@', "unexpected \"%.80s\"", p ? p : "end of output");
        MC_CHECK(sscanf(p + 1, "%d %d %d", &l, &a, &b) == 3 && l == level && !a == !ts && !b == !tid, "settings have changed to %s", p + 1);
        p = strtok_r(NULL, "\n", &save);
    }
    MC_CHECK(!p, "unexpected \"%.80s\"", p);
}

static void one(const int* t)
{
    int i;
    static const int none[3] = { 0, 0, 0 };
    if (builtin == INT_MIN) { start(none); verify(none); }
    for (i = 0; i < 3; i++) if (texts[t[i]].s) mc_note("%s=\"%s\"", names[i], texts[t[i]].s);
    start(t);
    verify(t);
    mc_outcome(mc_hash(out, 0, (texts[t[0]].ok ? texts[t[0]].v : INT_MIN) * 100LL + t[1] + 50 * t[2]));
}

static u64 single_count(void) { return 3 * NT; }
static void single_run(u64 i)
{
    int t[3] = { 0, 0, 0 };
    t[i % 3] = i / 3;
    one(t);
}

static int nvals(void) { return mc_tier == MC_QUICK ? 7 : NT; }
static u64 all_count(void) { return (u64)nvals() * NSMALL * NSMALL; }
static void all_run(u64 i)
{
    int t[3];
    t[1] = i % NSMALL; i /= NSMALL;
    t[2] = i % NSMALL; i /= NSMALL;
    t[0] = i;
    one(t);
}

const McSuite mc_suites[] = {
    { .name = "C30.single", .kind = MC_FAMILY, .about = "each of the three variables set to each of 41 texts (numbers in and out of range in all bases, padding, garbage), the others absent; the program is started anew in each case",
      .count = single_count, .run = single_run, .split = 4 },
    { .name = "C30.all", .kind = MC_FAMILY, .about = "all combinations: level among 7 (41) texts, timestamp and thread id among 11 texts each",
      .count = all_count, .run = all_run, .split = 8 },
    { NULL }
};
