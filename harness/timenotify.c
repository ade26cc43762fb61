/* System time change notifications: C23 */
#include "mc.h"
#include "gutil_timenotify.h"
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>

static int T(int q, int t) { return mc_tier == MC_QUICK ? q : t; }

/*==========================================================================*
 * Fake timer descriptors, those behave like the ones of Linux:
 * - a change of the clock cancels absolute timers of the real time clock,
 *   if that was requested, and makes the descriptor readable. The first
 *   read then fails with ECANCELED.
 * - an expired timer makes it readable, too
 *==========================================================================*/

#define MAXT 8
typedef struct { int fd, wr, clock, armed, cancel, canceled, ready; gint64 when, interval; guint64 ticks; } Timer;
static Timer tm_[MAXT];
static int ntm, active, faults, broken, in_read_fault;

static Timer* find(int fd)
{
    int k;
    for (k = 0; k < ntm; k++) if (tm_[k].fd == fd) return tm_ + k;
    return NULL;
}

static void ready(Timer* t, int on)
{
    char c = 'x';
    if (t->ready == on) return;
    t->ready = on;
    if (on) syscall(SYS_write, t->wr, &c, 1); else syscall(SYS_read, t->fd, &c, 1);
}

int timerfd_create(int clock, int flags)
{
    int p[2];
    Timer* t;
    if (!active) return syscall(SYS_timerfd_create, clock, flags);
    if (faults && mc_choose_dev(2, "timerfd_create")) { mc_note("  timerfd_create fails"); broken = 1; errno = EMFILE; return -1; }
    MC_CHECK(ntm < MAXT, "too many timers");
    if (pipe(p)) mc_fail("pipe: %s", strerror(errno));
    t = tm_ + ntm++;
    memset(t, 0, sizeof(*t));
    t->fd = p[0];
    t->wr = p[1];
    t->clock = clock;
    return t->fd;
}

int timerfd_settime(int fd, int flags, const struct itimerspec* x, struct itimerspec* old)
{
    Timer* t = active ? find(fd) : NULL;
    if (!active) return syscall(SYS_timerfd_settime, fd, flags, x, old);
    MC_CHECK(t, "timerfd_settime for a wrong descriptor");
    if (faults && mc_choose_dev(2, "timerfd_settime")) { mc_note("  timerfd_settime fails"); broken = 1; errno = EINVAL; return -1; }
    if (x->it_value.tv_sec < 0 || x->it_value.tv_nsec < 0 || x->it_value.tv_nsec > 999999999 ||
        x->it_interval.tv_sec < 0 || x->it_interval.tv_nsec < 0 || x->it_interval.tv_nsec > 999999999 ||
        (flags & ~(TFD_TIMER_ABSTIME | TFD_TIMER_CANCEL_ON_SET))) { errno = EINVAL; return -1; }
    t->armed = x->it_value.tv_sec || x->it_value.tv_nsec;
    t->when = x->it_value.tv_sec;
    t->interval = x->it_interval.tv_sec;
    t->cancel = (t->clock == CLOCK_REALTIME || t->clock == CLOCK_REALTIME_ALARM) &&
        (flags & TFD_TIMER_ABSTIME) && (flags & TFD_TIMER_CANCEL_ON_SET);
    t->ticks = 0;
    t->canceled = 0;
    ready(t, 0);
    return 0;
}

ssize_t read(int fd, void* buf, size_t size)
{
    static const int err[] = { 0, EINTR, EAGAIN, EIO, EINVAL, 0 };
    Timer* t = active ? find(fd) : NULL;
    if (!t) return syscall(SYS_read, fd, buf, size);
    if (faults) {
        const int f = mc_choose_dev(G_N_ELEMENTS(err), "read");
        if (f) {
            mc_note("  read fails: %s", err[f] ? strerror(err[f]) : "end of file");
            in_read_fault = err[f] != EINTR;
            errno = err[f];
            return err[f] ? -1 : 0;
        }
    }
    if (size < 8) { errno = EINVAL; return -1; }
    if (t->canceled) {
        t->canceled = 0;
        t->ticks = 0;
        ready(t, 0);
        errno = ECANCELED;
        return -1;
    }
    if (!t->ticks) { if (active && !t->ready) mc_fail("read would block"); errno = EAGAIN; return -1; }
    memcpy(buf, &t->ticks, 8);
    t->ticks = 0;
    ready(t, 0);
    return 8;
}

int close(int fd)
{
    if (active) {
        Timer* t = find(fd);
        if (fd >= 0 && syscall(SYS_fcntl, fd, F_GETFD) < 0 && errno == EBADF) mc_fail("descriptor is closed twice");
        if (t) { syscall(SYS_close, t->wr); *t = tm_[--ntm]; }
    }
    return syscall(SYS_close, fd);
}

/*==========================================================================*
 * Model
 *==========================================================================*/

#define MAXH 8
typedef struct { int on, got, due, ok; gulong id; } Handler;
static Handler hd[MAXH];
static GUtilTimeNotify* tn;
static int nh, refs, pending, emitting, in_dispatch, depth, nfds0, open0, expired, gone;
static u64 hash;

static int poll_fds(void)
{
    GPollFD fds[16];
    GMainContext* ctx = g_main_context_default();
    int prio, t, n;
    g_main_context_acquire(ctx);
    g_main_context_prepare(ctx, &prio);
    n = g_main_context_query(ctx, G_MAXINT, &t, fds, G_N_ELEMENTS(fds));
    g_main_context_check(ctx, prio, fds, 0);
    g_main_context_release(ctx);
    return n;
}

static int open_fds(void)
{
    int k, n = 0;
    for (k = 0; k < 24; k++) if (syscall(SYS_fcntl, k, F_GETFD) >= 0) n++;
    return n;
}

static void check_resources(void)
{
    if (!refs && !in_dispatch) {
        MC_CHECK(!ntm, "timer descriptor is left behind");
        if (tn || !depth) MC_CHECK(poll_fds() == nfds0, "event source is left behind");
        broken = pending = expired = 0;
    } else if (refs) {
        MC_CHECK(ntm <= 1, "%d timers", ntm);
        if (!broken && !in_dispatch) MC_CHECK(!g_main_context_pending(NULL) == !(pending || expired), pending ? "nothing is going to happen" : "nothing has happened, though");
    }
}

enum { STOP, GET, REF, UNREF, ADD, REMOVE0, REMOVE1, CHANGE, DISPATCH, HUP, CENTURY, NULLS, NOP, ITER };
static const char* const names[] = { "", "get", "ref", "unref", "add handler", "remove the first one", "remove the last one", "clock changed", "dispatch", "hang-up", "century has passed", "nothing", "", "iterate" };
static void act(int a);

static void on_change(GUtilTimeNotify* x, void* arg)
{
    const int h = GPOINTER_TO_INT(arg) - 1;
    Handler* c = hd + h;
    int v[2] = { h, depth }, a;
    MC_CHECK(in_dispatch, "handler is called too early");
    MC_CHECK(x == tn, "wrong notifier");
    MC_CHECK(c->on, "removed handler %d is called", h);
    if (!emitting) {
        int k;
        emitting = 1;
        MC_CHECK(pending || in_read_fault, "clock hasn't changed");
        if (!in_read_fault) pending = 0;
        for (k = 0; k < nh; k++) { hd[k].due = hd[k].on; hd[k].got = 0; hd[k].ok = hd[k].on; }
    }
    MC_CHECK(!c->got && c->ok, "handler %d is called %s", h, c->got ? "again" : "too early");
    c->got = 1;
    mc_note("%*shandler %d", depth * 2 + 2, "", h);
    hash = mc_hash(v, sizeof(v), hash);
    if (depth < 3) {
        static const int acts[] = { STOP, UNREF, ADD, REMOVE0, REMOVE1, GET, REF, CHANGE, ITER };
        a = acts[mc_choose_dev(G_N_ELEMENTS(acts), "handler")];
        if (a) {
            depth++;
            mc_note("%*s%s", depth * 2 + 2, "", names[a]);
            act(a);
            depth--;
        }
    }
}

static void finish(void)
{
    int k;
    for (k = 0; k < nh && !broken && !in_read_fault; k++) if (hd[k].due && hd[k].on && refs) MC_CHECK(hd[k].got, "handler %d wasn't called", k);
    for (k = 0; k < nh; k++) hd[k].due = hd[k].got = 0;
    emitting = 0;
    if (!refs) { for (k = 0; k < nh; k++) hd[k].on = 0; tn = NULL; }
}

static void act(int a)
{
    int k;
    switch (a) {
    case GET: {
        GUtilTimeNotify* x = gutil_time_notify_new();
        MC_CHECK(x, "no notifier");
        if (refs || (depth && tn)) MC_CHECK(x == tn, "notifier isn't shared");
        else { tn = x; for (k = 0; k < nh; k++) hd[k].on = 0; }
        refs++;
        break;
    }
    case REF: if (refs) { MC_EXPECT(gutil_time_notify_ref(tn) == tn); refs++; } break;
    case UNREF:
        if (refs) {
            gutil_time_notify_unref(tn);
            if (!--refs && !depth) { for (k = 0; k < nh; k++) hd[k].on = 0; tn = NULL; }
        }
        break;
    case ADD:
        if (refs && nh < MAXH) {
            Handler* h = hd + nh++;
            memset(h, 0, sizeof(*h));
            h->on = h->ok = 1;
            h->id = gutil_time_notify_add_handler(tn, on_change, GINT_TO_POINTER(nh));
            MC_CHECK(h->id, "handler wasn't added");
            if (emitting) h->due = 0;
        }
        break;
    case REMOVE0:
        for (k = 0; k < nh && !hd[k].on; k++);
        if (k < nh && refs) { hd[k].on = 0; gutil_time_notify_remove_handler(tn, hd[k].id); }
        break;
    case REMOVE1:
        for (k = nh - 1; k >= 0 && !hd[k].on; k--);
        if (k >= 0 && refs) { hd[k].on = 0; gutil_time_notify_remove_handler(tn, hd[k].id); }
        break;
    case CHANGE:
        for (k = 0; k < ntm; k++) if (tm_[k].cancel) { tm_[k].canceled = 1; tm_[k].ticks++; ready(tm_ + k, 1); }
        if (refs || (depth && tn)) pending = 1;
        break;
    case CENTURY:
        /* If it expires then it will look like the time has changed */
        for (k = 0; k < ntm; k++) if (tm_[k].armed && tm_[k].when < time(NULL) + G_GINT64_CONSTANT(3155760000)) { tm_[k].ticks++; ready(tm_ + k, 1); }
        break;
    case HUP:
        for (k = 0; k < ntm; k++) { broken = 1; syscall(SYS_close, tm_[k].wr); tm_[k].wr = open("/dev/null", O_WRONLY); }
        break;
    case DISPATCH: {
        int n;
        in_dispatch = 1;
        for (n = 0; g_main_context_pending(NULL); n++) {
            MC_CHECK(n < 20, "endless stream of events");
            in_read_fault = 0;
            g_main_context_iteration(NULL, FALSE);
            if (refs && !emitting && !broken && !in_read_fault) {
                /* Nobody was called */
                for (k = 0; k < nh; k++) MC_CHECK(!hd[k].on, "handler %d wasn't called", k);
                pending = 0;
            }
            finish();
        }
        in_dispatch = 0;
        break;
    }
    case ITER: {
        /* The same thing from a handler. Being called again there is fine */
        Handler was[MAXH];
        const int n = nh;
        memcpy(was, hd, sizeof(was));
        emitting = 0;
        g_main_context_iteration(NULL, FALSE);
        if (emitting) for (k = 0; k < nh && !broken && !in_read_fault; k++) if (hd[k].due && hd[k].on && refs) MC_CHECK(hd[k].got, "handler %d wasn't called", k);
        emitting = 1;
        for (k = 0; k < nh; k++) {
            hd[k].got = k < n && was[k].got;
            hd[k].due = k < n && was[k].due;
            hd[k].ok = k >= n || was[k].ok;
        }
        break;
    }
    case NULLS:
        MC_EXPECT(!gutil_time_notify_ref(NULL));
        gutil_time_notify_unref(NULL);
        MC_EXPECT(!gutil_time_notify_add_handler(NULL, on_change, NULL));
        gutil_time_notify_remove_handler(NULL, 1);
        if (refs) {
            MC_EXPECT(!gutil_time_notify_add_handler(tn, NULL, NULL));
            gutil_time_notify_remove_handler(tn, 0);
        }
        break;
    }
}

static void program(int len, int with_faults)
{
    int k;
    nh = refs = pending = emitting = in_dispatch = depth = ntm = broken = expired = in_read_fault = 0;
    tn = NULL;
    hash = 1;
    open0 = open_fds();
    active = 1;
    faults = with_faults;
    for (k = 0; k < len; k++) {
        const int a = mc_choose(with_faults ? NOP : HUP, "op");
        if (!a) break;
        mc_note("%s", names[a]);
        act(a);
        mc_step();
        check_resources();
    }
    faults = 0;
    act(DISPATCH);
    check_resources();
    /* And it keeps working */
    if (refs && !broken && nh < MAXH) {
        mc_note("once more");
        act(ADD);
        act(CHANGE);
        act(DISPATCH);
        check_resources();
    }
    while (refs) act(UNREF);
    check_resources();
    if (nh < MAXH) {
        mc_note("from scratch");
        act(GET); act(ADD); act(CHANGE); check_resources(); act(DISPATCH); check_resources();
        while (refs) act(UNREF);
        check_resources();
    }
    MC_CHECK(open_fds() == open0, "descriptor leak");
    active = 0;
    mc_outcome(hash);
}

static void seq_body(void) { program(T(5, 6), 0); }
static void nested_body(void) { program(4, 0); }
static void fault_body(void) { program(T(4, 5), 1); }

/* The real timer accepts what the library asks for */
static void real_body(void)
{
    int k;
    const int n = mc_choose(4, "refs");
    refs = nh = 0;
    act(NULLS);
    GUtilTimeNotify* x = gutil_time_notify_new();
    open0 = open_fds();
    MC_EXPECT(x);
    for (k = 0; k < n; k++) MC_EXPECT(gutil_time_notify_new() == x);
    MC_CHECK(open_fds() == open0, "%d descriptors", open_fds() - open0);
    MC_CHECK(!g_main_context_pending(NULL), "nothing has happened");
    for (k = 0; k <= n; k++) { MC_EXPECT(open_fds() == open0); gutil_time_notify_unref(x); }
    MC_CHECK(open_fds() == open0 - 1, "descriptor leak");
    MC_CHECK(poll_fds() == nfds0, "event source is left behind");
    mc_outcome(n + 1);
}

static void setup(void)
{
    GUtilTimeNotify* x = gutil_time_notify_new();
    gutil_time_notify_remove_handler(x, gutil_time_notify_add_handler(x, on_change, NULL));
    gutil_time_notify_unref(x);
    while (g_main_context_iteration(NULL, FALSE));
    nfds0 = poll_fds();
}

/* The first free descriptor is zero */
static void fd0_setup(void) { setup(); syscall(SYS_close, 0); }
static void fd0_body(void) { program(T(4, 5), 0); }

const McSuite mc_suites[] = {
    { "C23.sequences", MC_DFS, "All sequences of up to 5 (6) operations with one action of a handler", .body = seq_body, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = setup },
    { "C23.nested", MC_DFS, "All sequences of up to 4 operations with up to 2 (4) actions of handlers", .body = nested_body, .dev_quick = 2, .dev_thorough = 4, .split = 8, .setup = setup },
    { "C23.faults", MC_DFS, "All sequences of up to 4 (5) operations with up to 2 failing system calls or actions of handlers", .body = fault_body, .dev_quick = 2, .dev_thorough = 2, .split = 8, .setup = setup },
    { "C23.fd0", MC_DFS, "Descriptor 0: all sequences of up to 4 (5) operations", .body = fd0_body, .dev_quick = 0, .dev_thorough = 0, .split = 4, .setup = fd0_setup },
    { "C23.real", MC_DFS, "Real timers are accepted by the kernel and released", .body = real_body, .setup = setup },
    { NULL }
};
