/* File watches: C21, C22 */
#include "mc.h"
#include "gutil_inotify.h"
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>

static int T(int q, int t) { return mc_tier == MC_QUICK ? q : t; }

/*==========================================================================*
 * Abstract file system: directories d and e, file f in one of them (or none),
 * symbolic link l to d, numbered files which are only created.
 *==========================================================================*/

enum { P_D, P_D2, P_E, P_DF, P_EF, P_X, NPATH };
static const char* const paths[NPATH] = { "d", "l/.", "e", "d/f", "e/f", "x" };
enum { I_NONE, I_D, I_E, I_F0 };    /* f gets a new inode each time it's created */

#define MAXE 96
typedef struct { int inode; guint mask, cookie; char name[NAME_MAX + 1]; int fsop; } Ev;
static Ev evs[MAXE];                /* Everything that has happened */
static int nev, f_at, f_inode, next_inode, next_file, fsops;
static guint next_cookie;
static char root[PATH_MAX];
static int real;                    /* Uses the actual kernel */
static guint real_cookie;
static char long_name[NAME_MAX + 1];

static int resolve(const char* path)
{
    const gsize n = strlen(root);
    int k;
    if (!strncmp(path, root, n) && path[n] == '/') {
        for (k = 0; k < NPATH; k++) if (!strcmp(path + n + 1, paths[k])) switch (k) {
        case P_D: case P_D2: return I_D;
        case P_E: return I_E;
        case P_DF: return f_at == I_D ? f_inode : 0;
        case P_EF: return f_at == I_E ? f_inode : 0;
        }
    }
    return 0;
}

static const char* full(int path)
{
    static char buf[PATH_MAX];
    snprintf(buf, sizeof(buf), "%s/%s", root, paths[path]);
    return buf;
}

/*==========================================================================*
 * Fake kernel. C21.kernel compares it with the real one.
 *==========================================================================*/

#define MAXFD 4
#define MAXM 16
#define MAXQ 128
typedef struct { int wd, inode; guint mask; } Mark;
typedef struct { int wd; guint mask, cookie; char name[NAME_MAX + 1]; } QEv;
typedef struct { int fd, wr, next_wd, nm, nq, hup; Mark m[MAXM]; QEv q[MAXQ]; } Ino;
static Ino ino[MAXFD];
static int nino, faults, active, nfds_open, rm_failed, broken, read_again;

static Ino* find_ino(int fd)
{
    int k;
    for (k = 0; k < nino; k++) if (ino[k].fd == fd) return ino + k;
    return NULL;
}

static void queue(Ino* o, int wd, guint mask, guint cookie, const char* name)
{
    QEv* e;
    g_assert(o->nq < MAXQ);
    e = o->q + o->nq++;
    e->wd = wd;
    e->mask = mask;
    e->cookie = cookie;
    strcpy(e->name, name ? name : "");
    if (o->nq == 1) syscall(SYS_write, o->wr, "x", 1);
}

static void fs_event(int inode, guint mask, guint cookie, const char* name)
{
    int k, j;
    Ev* e = evs + nev++;
    g_assert(nev < MAXE);
    e->inode = inode;
    e->mask = mask;
    e->cookie = cookie;
    e->fsop = fsops;
    strcpy(e->name, name ? name : "");
    for (k = 0; k < nino; k++) for (j = 0; j < ino[k].nm; j++) {
        Mark* m = ino[k].m + j;
        if (m->inode == inode && ((mask & m->mask & IN_ALL_EVENTS) || !(mask & IN_ALL_EVENTS))) {
            queue(ino + k, m->wd, mask, cookie, name);
            if (mask & IN_IGNORED) { *m = ino[k].m[--ino[k].nm]; j--; }
        }
    }
}

static int sys_init(void)
{
    static const int err[] = { 0, EMFILE, ENOMEM };
    int p[2];
    Ino* o;
    if (faults) {
        const int f = mc_choose_dev(G_N_ELEMENTS(err), "inotify_init");
        if (f) { mc_note("  inotify_init fails"); errno = err[f]; return -1; }
    }
    if (nino == MAXFD) mc_fail("too many inotify descriptors");
    if (pipe(p)) mc_fail("pipe: %s", strerror(errno));
    o = ino + nino++;
    memset(o, 0, G_STRUCT_OFFSET(Ino, q));
    o->fd = p[0];
    o->wr = p[1];
    o->next_wd = 1;
    return o->fd;
}

static int sys_add(int fd, const char* path, guint mask)
{
    static const int err[] = { 0, ENOENT, ENOSPC, EACCES };
    Ino* o = find_ino(fd);
    int k, inode;
    if (!o) { if (active) mc_fail("inotify_add_watch(%d) is using wrong descriptor", fd); errno = EBADF; return -1; }
    if (faults) {
        const int f = mc_choose_dev(G_N_ELEMENTS(err), "inotify_add_watch");
        if (f) { mc_note("  inotify_add_watch fails: %s", strerror(err[f])); errno = err[f]; return -1; }
    }
    if (!(mask & (IN_ALL_EVENTS | IN_ONESHOT | IN_DONT_FOLLOW | IN_EXCL_UNLINK | IN_ONLYDIR | IN_MASK_ADD | IN_MASK_CREATE))) { errno = EINVAL; return -1; }
    if ((mask & IN_MASK_ADD) && (mask & IN_MASK_CREATE)) { errno = EINVAL; return -1; }
    inode = resolve(path);
    if (!inode) { errno = ENOENT; return -1; }
    if ((mask & IN_ONLYDIR) && inode != I_D && inode != I_E) { errno = ENOTDIR; return -1; }
    for (k = 0; k < o->nm; k++) if (o->m[k].inode == inode) {
        if (mask & IN_MASK_CREATE) { errno = EEXIST; return -1; }
        if (mask & IN_MASK_ADD) o->m[k].mask |= mask; else o->m[k].mask = mask;
        return o->m[k].wd;
    }
    g_assert(o->nm < MAXM);
    o->m[o->nm].inode = inode;
    o->m[o->nm].mask = mask;
    return o->m[o->nm++].wd = o->next_wd++;
}

static int sys_rm(int fd, int wd)
{
    Ino* o = find_ino(fd);
    int k;
    if (!o) { if (active) mc_fail("inotify_rm_watch(%d) is using wrong descriptor", fd); errno = EBADF; return -1; }
    for (k = 0; k < o->nm; k++) if (o->m[k].wd == wd) {
        if (faults && mc_choose_dev(2, "inotify_rm_watch")) { mc_note("  inotify_rm_watch fails"); rm_failed = 1; errno = EINVAL; return -1; }
        queue(o, wd, IN_IGNORED, 0, NULL);
        o->m[k] = o->m[--o->nm];
        return 0;
    }
    errno = EINVAL;
    return -1;
}

static gsize name_size(const char* name)
{
    return name[0] ? (strlen(name) + 1 + sizeof(struct inotify_event) - 1) / sizeof(struct inotify_event) * sizeof(struct inotify_event) : 0;
}

static gssize sys_read(Ino* o, char* buf, gsize size)
{
    static const int err[] = { 0, EINTR, EAGAIN, EIO, EINVAL, 0 };
    gsize n = 0;
    int k;
    if (faults) {
        const int f = mc_choose_dev(G_N_ELEMENTS(err), "read");
        if (f) {
                        mc_note("  read fails: %s", err[f] ? strerror(err[f]) : "end of file");
            if (err[f] == EIO || err[f] == EINVAL) broken = 1;
            errno = err[f];
            return err[f] ? -1 : 0;
        }
    }
    for (k = 0; k < o->nq; k++) {
        struct inotify_event e;
        e.wd = o->q[k].wd;
        e.mask = o->q[k].mask;
        e.cookie = o->q[k].cookie;
        e.len = name_size(o->q[k].name);
        if (n + sizeof(e) + e.len > size) break;
        memcpy(buf + n, &e, sizeof(e));
        memset(buf + n + sizeof(e), 0, e.len);
        memcpy(buf + n + sizeof(e), o->q[k].name, strlen(o->q[k].name));
        n += sizeof(e) + e.len;
    }
    if (!n) { if (o->nq) { errno = EINVAL; return -1; } mc_fail("read of an empty queue would block"); }
    memmove(o->q, o->q + k, sizeof(o->q[0]) * (o->nq -= k));
    if (!o->nq) { char c; syscall(SYS_read, o->fd, &c, 1); }
    return n;
}

int inotify_init1(int flags)
{
    if (active && !real) return sys_init();
    return syscall(SYS_inotify_init1, flags);
}

int inotify_init(void) { return inotify_init1(0); }

int inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    if (active && !real) return sys_add(fd, path, mask);
    return syscall(SYS_inotify_add_watch, fd, path, mask);
}

int inotify_rm_watch(int fd, int wd)
{
    if (active && !real) return sys_rm(fd, wd);
    return syscall(SYS_inotify_rm_watch, fd, wd);
}

ssize_t read(int fd, void* buf, size_t size)
{
    Ino* o = active && !real ? find_ino(fd) : NULL;
    return o ? sys_read(o, buf, size) : syscall(SYS_read, fd, buf, size);
}

int close(int fd)
{
    if (active) {
        Ino* o = find_ino(fd);
        if (fd >= 0 && syscall(SYS_fcntl, fd, F_GETFD) < 0 && errno == EBADF) mc_fail("descriptor is closed twice");
        if (o && !real) {
            syscall(SYS_close, o->wr);
            *o = ino[--nino];
        }
    }
    return syscall(SYS_close, fd);
}

/*==========================================================================*
 * Things happening to the files
 *==========================================================================*/

enum { F_CREATE, F_LONG, F_MKDIR, F_TRUNC, F_CHMOD, F_UNLINK, F_MKF, F_RENAME, NFS, F_UNMOUNT = NFS, F_OVERFLOW };
static const char* const fs_names[NFS] = { "create", "create long", "mkdir", "truncate f", "chmod f", "unlink f", "create f", "rename f" };
#define MORE_FS 2 /* Can't be done with the real kernel that easily */

static int fs_op(int op)
{
    char name[NAME_MAX + 1];
    char p1[2 * PATH_MAX], p2[2 * PATH_MAX];
    int k;
    const char* const dir = f_at == I_E ? "e" : "d";
    fsops++;
    snprintf(p1, sizeof(p1), "%s/%s/f", root, dir);
    switch (op) {
    case F_CREATE: case F_MKDIR:
        sprintf(name, "%d", next_file++);
        snprintf(p2, sizeof(p2), "%s/d/%s", root, name);
        if (op == F_MKDIR) {
            if (real) MC_EXPECT(!mkdir(p2, 0700));
            fs_event(I_D, IN_CREATE | IN_ISDIR, 0, name);
        } else {
            if (real) MC_EXPECT(!mknod(p2, S_IFREG | 0600, 0));
            fs_event(I_D, IN_CREATE, 0, name);
        }
        return 1;
    case F_LONG:
        strcpy(name, long_name);
        name[0] = 'A' + next_file++;
        snprintf(p2, sizeof(p2), "%s/d/%s", root, name);
        if (real) MC_EXPECT(!mknod(p2, S_IFREG | 0600, 0));
        fs_event(I_D, IN_CREATE, 0, name);
        return 1;
    case F_TRUNC:
        if (!f_at) return 0;
        if (real) MC_EXPECT(!truncate(p1, 0));
        fs_event(f_at, IN_MODIFY, 0, "f");
        fs_event(f_inode, IN_MODIFY, 0, NULL);
        return 1;
    case F_CHMOD:
        if (!f_at) return 0;
        if (real) MC_EXPECT(!chmod(p1, 0600));
        fs_event(f_at, IN_ATTRIB, 0, "f");
        fs_event(f_inode, IN_ATTRIB, 0, NULL);
        return 1;
    case F_UNLINK:
        if (!f_at) return 0;
        if (real) MC_EXPECT(!unlink(p1));
        fs_event(f_inode, IN_ATTRIB, 0, NULL);
        fs_event(f_inode, IN_DELETE_SELF, 0, NULL);
        fs_event(f_inode, IN_IGNORED, 0, NULL);
        fs_event(f_at, IN_DELETE, 0, "f");
        f_at = 0;
        return 1;
    case F_MKF:
        if (f_at) return 0;
        if (real) MC_EXPECT(!mknod(p1, S_IFREG | 0600, 0));
        f_at = I_D;
        f_inode = next_inode++;
        fs_event(f_at, IN_CREATE, 0, "f");
        return 1;
    case F_OVERFLOW:
        for (k = 0; k < nino; k++) queue(ino + k, -1, IN_Q_OVERFLOW, 0, NULL);
        return 1;
    case F_UNMOUNT: /* As if it were a mount point */
        if (!f_at) return 0;
        fs_event(f_inode, IN_UNMOUNT, 0, NULL);
        fs_event(f_inode, IN_IGNORED, 0, NULL);
        f_inode = next_inode++;
        return 1;
    case F_RENAME:
        if (!f_at) return 0;
        snprintf(p2, sizeof(p2), "%s/%s/f", root, f_at == I_D ? "e" : "d");
        if (real) MC_EXPECT(!rename(p1, p2));
        fs_event(f_at, IN_MOVED_FROM, ++next_cookie, "f");
        f_at = f_at == I_D ? I_E : I_D;
        fs_event(f_at, IN_MOVED_TO, next_cookie, "f");
        fs_event(f_inode, IN_MOVE_SELF, 0, NULL);
        return 1;
    }
    return 0;
}

static void fs_init(void)
{
    int k;
    memset(long_name, 'n', NAME_MAX);
    nev = fsops = next_file = 0;
    next_cookie = 0xffff0000u; /* Any 32 bits */
    f_at = I_D;
    f_inode = I_F0;
    next_inode = I_F0 + 1;
    nino = 0;
    rm_failed = broken = read_again = 0;
    if (real) {
        static int gen;
        char p[2 * PATH_MAX];
        snprintf(root, sizeof(root), "%s/%d.%d", getenv("MC_TMP"), (int)getpid(), gen++);
        MC_EXPECT(!mkdir(root, 0700));
        for (k = 0; k < 2; k++) { snprintf(p, sizeof(p), "%s/%s", root, k ? "d" : "e"); MC_EXPECT(!mkdir(p, 0700)); }
        snprintf(p, sizeof(p), "%s/l", root);
        MC_EXPECT(!symlink("d", p));
        snprintf(p, sizeof(p), "%s/d/f", root);
        MC_EXPECT(!mknod(p, S_IFREG | 0600, 0));
    } else strcpy(root, "/fake");
}

static void fs_cleanup(void)
{
    int k;
    char p[2 * PATH_MAX];
    if (!real) return;
    for (k = 0; k < next_file; k++) {
        snprintf(p, sizeof(p), "%s/d/%d", root, k);
        if (unlink(p) && rmdir(p)) {
            long_name[0] = 'A' + k;
            snprintf(p, sizeof(p), "%s/d/%s", root, long_name);
            MC_EXPECT(!unlink(p));
        }
    }
    snprintf(p, sizeof(p), "%s/d/f", root); unlink(p);
    snprintf(p, sizeof(p), "%s/e/f", root); unlink(p);
    snprintf(p, sizeof(p), "%s/d", root); MC_EXPECT(!rmdir(p));
    snprintf(p, sizeof(p), "%s/e", root); MC_EXPECT(!rmdir(p));
    snprintf(p, sizeof(p), "%s/l", root); MC_EXPECT(!unlink(p));
    MC_EXPECT(!rmdir(root));
}

/*==========================================================================*
 * C21.kernel: fake against the real one
 *==========================================================================*/

static int real_wd[16];

static void drain_real(int fd, GString* out)
{
    char buf[8192];
    int n, j;
    guint last = 0, nc = 0;
    while (ioctl(fd, FIONREAD, &n) == 0 && n > 0) {
        gssize r = syscall(SYS_read, fd, buf, sizeof(buf)), k = 0;
        while (k < r) {
            struct inotify_event* e = (void*)(buf + k);
            if (e->cookie && e->cookie != last) { last = e->cookie; nc++; }
            for (j = 1; j < 16 && real_wd[j] != e->wd; j++);
            g_string_append_printf(out, "%d %x %u %s\n", j, e->mask, e->cookie ? nc : 0, e->len ? e->name : "");
            MC_CHECK(!e->len || e->len == name_size(e->name), "name takes %d bytes", e->len);
            k += sizeof(*e) + e->len;
        }
    }
}

static void drain_fake(Ino* o, GString* out)
{
    int k;
    guint last = 0, n = 0;
    for (k = 0; k < o->nq; k++) {
        const QEv* e = o->q + k;
        /* The kernel coalesces those, whatever the cookie */
        if (k && e->wd == e[-1].wd && e->mask == e[-1].mask && !(e->mask & IN_IGNORED) && !strcmp(e->name, e[-1].name)) continue;
        if (e->cookie && e->cookie != last) { last = e->cookie; n++; }
        g_string_append_printf(out, "%d %x %u %s\n", e->wd, e->mask, e->cookie ? n : 0, e->name);
    }
    o->nq = 0;
}

static void kernel_body(void)
{
    static const guint all_masks[] = { IN_ALL_EVENTS, IN_ATTRIB | IN_DELETE | IN_MOVED_TO, IN_MODIFY | IN_MASK_ADD, IN_CREATE | IN_MODIFY | IN_MOVED_FROM, IN_ALL_EVENTS | IN_MASK_CREATE, IN_ATTRIB | IN_CREATE | IN_ONLYDIR, 0 };
    /* Fewer masks allow longer sequences */
    const int half = mc_tier == MC_QUICK && mc_choose(2, "masks");
    const int nm = T(half ? 4 : 3, mc_choose(2, "longer") ? 1 : G_N_ELEMENTS(all_masks));
    const guint* const masks = all_masks + (half ? 3 : 0);
    const int len = (nm == 1) ? 4 : 3;
    GString* a = g_string_new(NULL);
    GString* b = g_string_new(NULL);
    static int fd = -1;
    int k;
    real = 1;
    fs_init();
    if (fd < 0) fd = syscall(SYS_inotify_init1, O_NONBLOCK);
    MC_EXPECT(fd >= 0);
    memset(real_wd, 0, sizeof(real_wd));
    nino = 1;
    memset(ino, 0, sizeof(ino));
    ino->fd = fd;
    ino->wr = -1;
    ino->next_wd = 1;
    for (k = 0; k < len; k++) {
        const int op = mc_choose(1 + NFS + NPATH * nm + 2, "op");
        if (!op) break;
        if (op <= NFS) {
            mc_note("%s", fs_names[op - 1]);
            if (!fs_op(op - 1)) break;
        } else if (op - NFS - 1 < 2) {
            const int wd = op - NFS;
            int r = syscall(SYS_inotify_rm_watch, fd, real_wd[wd] ? real_wd[wd] : 1 << 20), x = r ? errno : 0;
            int s = sys_rm(fd, wd), y = s ? errno : 0;
            mc_note("rm %d", wd);
            MC_CHECK(r == s && x == y, "inotify_rm_watch: %d (%d) vs %d (%d)", r, x, s, y);
        } else {
            const int p = (op - NFS - 3) / nm;
            const guint m = masks[(op - NFS - 3) % nm];
            int r = syscall(SYS_inotify_add_watch, fd, full(p), m), x = r < 0 ? errno : 0;
            int s = sys_add(fd, full(p), m), y = s < 0 ? errno : 0;
            if (s > 0 && r > 0 && !real_wd[s]) real_wd[s] = r;
            if (r > 0) { int j; for (j = 1; j < 16 && real_wd[j] != r; j++); r = j; }
            mc_note("add %s %x", paths[p], m);
            if (p == P_X && x == EINVAL) y = EINVAL;
            if (y == ENOENT && x == EINVAL) y = x;
            MC_CHECK(r == s && x == y, "inotify_add_watch(%s,%x): %d (%d) vs %d (%d)", paths[p], m, r, x, s, y);
        }
        mc_step();
    }
    /* One more file operation makes it more interesting */
    fs_op(f_at ? mc_choose(2, "last") ? F_UNLINK : F_RENAME : F_MKF);
    fs_op(f_at ? F_TRUNC : F_CREATE);
    drain_real(fd, a);
    drain_fake(ino, b);
    MC_CHECK(!strcmp(a->str, b->str), "kernel:\n%smodel:\n%s", a->str, b->str);
    mc_outcome(mc_hash(a->str, a->len, 0));
    g_string_free(b, TRUE);
    for (k = 0; k < ino->nm; k++) syscall(SYS_inotify_rm_watch, fd, real_wd[ino->m[k].wd]);
    fs_cleanup();
    drain_real(fd, a);
    g_string_free(a, TRUE);
    nino = 0;
}

/*==========================================================================*
 * Model of the watches
 *==========================================================================*/

#define MAXW 5
#define MAXH 10
typedef struct { GUtilInotifyWatch* w; GUtilInotifyWatchCallback* cb; int refs, inode, since, pre, live, emitting, in_cb; guint mask; } Watch;
typedef struct { int w, on, due_from, ok_from; gulong id; signed char got[MAXE]; } Handler;
static Watch wt[MAXW];
static Handler hd[MAXH];
static int nw, nh, cur, in_dispatch, depth, nest;
static u64 hash;
static void act(int a);
static void new_watch(int path, int mask, int kind);

static const guint masks[] = {
    IN_ALL_EVENTS, IN_CREATE | IN_MODIFY | IN_MOVED_FROM | IN_DELETE_SELF, IN_ATTRIB | IN_DELETE | IN_MOVED_TO | IN_MOVE_SELF,
    /* Some flags */
    IN_ATTRIB | IN_CREATE | IN_ONLYDIR, IN_MODIFY | IN_MOVED_FROM | IN_MASK_CREATE, IN_DELETE | IN_CREATE | IN_MASK_ADD | IN_DONT_FOLLOW,
    IN_ALL_EVENTS | IN_ONLYDIR | IN_MASK_CREATE | IN_EXCL_UNLINK,
    IN_CREATE | IN_ATTRIB | IN_DONT_FOLLOW, IN_DELETE | IN_MODIFY | IN_EXCL_UNLINK | IN_ISDIR
};
#define NMASKS ((int)G_N_ELEMENTS(masks))

static int is_dir(int inode) { return inode == I_D || inode == I_E; }

static int matches(const Watch* w, const Ev* e)
{
    return w->inode == e->inode && ((e->mask & w->mask & IN_ALL_EVENTS) || !(e->mask & IN_ALL_EVENTS));
}

/*
 * The real kernel merges identical events following each other, the fake one doesn't.
 * And the delivery of an event which could be delivered (but didn't have to) can't be
 * told from the delivery of an identical one following it.
 */
static int batch;
static int accounted(Handler* x, int t)
{
    const int due = MAX(wt[x->w].since, x->due_from);
    int s;
    for (s = batch; s < t; s++) {
        if (x->got[s] == 1 && evs[s].inode == evs[t].inode && evs[s].mask == evs[t].mask &&
            evs[s].cookie == evs[t].cookie && !strcmp(evs[s].name, evs[t].name)) {
            if (real && !evs[t].cookie) return 1;
            if (s < due) {
                x->got[s] = 2;
                return 1;
            }
        }
    }
    return 0;
}

/* Everybody has got this event */
static void finished(int t)
{
    int h;
    for (h = 0; h < nh; h++) {
        Handler* x = hd + h;
        const Watch* w = wt + x->w;
        if (x->on && w->live && w->since <= t && x->due_from <= t && matches(w, evs + t) && !broken) {
            MC_CHECK(x->got[t] || accounted(x, t), "event 0x%x \"%.8s\" wasn't delivered to handler %d of watch %d", evs[t].mask, evs[t].name, h, x->w);
        }
    }
}

static void on_event(GUtilInotifyWatch* watch, guint mask, guint cookie, const char* name, void* arg)
{
    const int h = GPOINTER_TO_INT(arg) - 1;
    Handler* x = hd + h;
    Watch* w = wt + x->w;
    int t, a, v[3] = { h, mask, 0 };
    MC_CHECK(in_dispatch, "handler is called too early");
    MC_CHECK(x->on, "removed handler %d is called", h);
    MC_CHECK(w->live || w->emitting, "handler %d of the destroyed watch %d is called", h, x->w);
    MC_CHECK(w->cb || watch == w->w, "wrong watch");
    MC_CHECK(!name || name[0], "empty name");
    for (t = MAX(MAX(cur, x->ok_from), w->pre); t < nev; t++) {
        const Ev* e = evs + t;
        if (e->inode == w->inode && e->mask == mask && (real ? !e->cookie == !cookie : e->cookie == cookie) &&
            !strcmp(e->name, name ? name : "") && !x->got[t]) break;
    }
    MC_CHECK(t < nev, "unexpected event 0x%x cookie %u \"%.8s\" for handler %d of watch %d", mask, cookie, name ? name : "", h, x->w);
    MC_CHECK(matches(w, evs + t), "event 0x%x \"%.8s\" doesn't match the mask 0x%x of watch %d", mask, name ? name : "", w->mask, x->w);
    if (real && cookie) {
        if (evs[t].mask & IN_MOVED_FROM) real_cookie = cookie;
        /* The counterpart was seen if there's a watch for it, but not necessarily by us */
    }
    if (t > cur) {
        int k;
        for (; cur < t; cur++) finished(cur);
        for (k = 0; k < nw; k++) wt[k].emitting = 0;
    }
    x->got[t] = 1;
    w->emitting = 1;
    v[2] = t;
    hash = mc_hash(v, sizeof(v), hash);
    mc_step();
    mc_note("%*shandler %d of watch %d: 0x%x cookie %d \"%.8s\"", depth * 2, "", h, x->w, mask, cookie, name ? name : "");
    if (depth < 2 && nest) {
        enum { REMOVE_SELF = 1, REMOVE_ALL, ADD_SELF, DESTROY_SELF, UNREF_SELF, DESTROY_OTHER, NEW_SAME, NEW_OTHER, ADD_OTHER, REMOVE_OTHER, FS, LOOP, NN };
        static const char* const names[] = { "", "remove self", "remove other handlers", "add handler", "destroy self", "unref self", "destroy other", "new watch", "new watch elsewhere", "add handler to another", "remove handler of another", "create a file", "iterate" };
        const int wi = x->w;
        int k;
        a = mc_choose_dev(NN, "handler");
        if (!a) return;
        depth++;
        w->in_cb++;
        mc_note("%*s%s", depth * 2, "", names[a]);
        switch (a) {
        case REMOVE_SELF: act(0x100 + h); break;
        case REMOVE_ALL: for (k = 0; k < nh; k++) if (k != h && hd[k].w == wi && hd[k].on) act(0x100 + k); break;
        case ADD_SELF: act(0x200 + wi); break;
        case DESTROY_SELF: act(0x300 + wi); break;
        case UNREF_SELF: act(0x400 + wi); break;
        case DESTROY_OTHER: for (k = 0; k < nw; k++) if (k != wi && wt[k].refs) { act(0x300 + k); break; } break;
        case NEW_SAME: new_watch(w->inode == I_D ? P_D2 : w->inode == I_E ? P_E : f_at == I_D ? P_DF : P_EF, 0, 0); break;
        case NEW_OTHER: new_watch(w->inode == I_D ? P_E : P_D, 0, 0); break;
        case ADD_OTHER: for (k = 0; k < nw; k++) if (k != wi && wt[k].refs) { act(0x200 + k); break; } break;
        case REMOVE_OTHER: for (k = 0; k < nh; k++) if (hd[k].w != wi && hd[k].on) { act(0x100 + k); break; } break;
        case FS: fs_op(F_CREATE); break;
        case LOOP: g_main_context_iteration(NULL, FALSE); break;
        }
        w->in_cb--;
        depth--;
    }
}

static int new_handler(int w)
{
    Handler* x = hd + nh;
    if (nh == MAXH) return -1;
    memset(x, 0, sizeof(*x));
    x->w = w;
    x->on = 1;
    x->due_from = in_dispatch ? cur + 1 : cur;
    x->ok_from = cur;
    return nh++;
}

static void new_watch(int path, int mask, int kind)
{
    Watch* w = wt + nw;
    const int before = nino;
    int h, refuse = 0;
    if (nw == MAXW || nh == MAXH) return;
    memset(w, 0, sizeof(*w));
    w->inode = resolve(full(path));
    w->mask = masks[mask];
    if ((w->mask & IN_ONLYDIR) && !is_dir(w->inode)) refuse = 1;
    if (w->mask & IN_MASK_CREATE) for (h = 0; h < nw; h++) if (wt[h].live && wt[h].inode == w->inode) refuse = 1;
    if (refuse) w->inode = 0;
    w->since = w->pre = nev;
    /* Watches of the same file may share the events which haven't been delivered yet */
    for (h = 0; h < nw; h++) if (wt[h].live && wt[h].inode == w->inode) w->pre = MIN(w->pre, wt[h].pre);
    /* And whoever failed to stop watching it has left those behind */
    if (rm_failed) w->pre = 0;
    if (kind) {
        h = new_handler(nw);
        w->cb = gutil_inotify_watch_callback_new(full(path), w->mask, on_event, GINT_TO_POINTER(h + 1));
        if (!w->cb) nh--;
    } else {
        w->w = gutil_inotify_watch_new(full(path), w->mask);
        if (w->w) {
            h = new_handler(nw);
            hd[h].id = gutil_inotify_watch_add_handler(w->w, on_event, GINT_TO_POINTER(h + 1));
            MC_CHECK(hd[h].id, "handler wasn't added");
        }
    }
    if (!faults) MC_CHECK(!(w->cb || w->w) == !w->inode, "%s %s", paths[path], w->inode ? "can't be watched" : "is being watched");
    mc_note("%*s%s watch %d at %s mask 0x%x", depth * 2, "", (w->cb || w->w) ? "new" : "no", nw, paths[path], w->mask);
    if (w->cb || w->w) {
        w->refs = 1;
        w->live = 1;
        nw++;
    } else {
        MC_CHECK(nino <= before || before, "descriptor is left behind");
    }
}

static void off(int w)
{
    int h;
    for (h = 0; h < nh; h++) if (hd[h].w == w) hd[h].on = 0;
}

static void act(int a)
{
    const int k = a & 0xff;
    Watch* w = wt + k;
    switch (a & 0xf00) {
    case 0x100:     /* Remove the handler */
        if (!hd[k].on || !hd[k].id || !(wt[hd[k].w].refs || wt[hd[k].w].in_cb)) return;
        mc_note("%*sremove handler %d", depth * 2, "", k);
        hd[k].on = 0;
        gutil_inotify_watch_remove_handler(wt[hd[k].w].w, hd[k].id);
        break;
    case 0x200: {   /* Add a handler */
        int h;
        if (!w->refs || !w->w) return;
        h = new_handler(k);
        if (h < 0) return;
        mc_note("%*sadd handler %d to watch %d", depth * 2, "", h, k);
        hd[h].id = gutil_inotify_watch_add_handler(w->w, on_event, GINT_TO_POINTER(h + 1));
        MC_CHECK(hd[h].id, "handler wasn't added");
        break;
    }
    case 0x300:     /* Destroy */
        if (!w->refs) return;
        mc_note("%*sdestroy watch %d", depth * 2, "", k);
        w->live = 0;
        if (w->cb) { w->refs = 0; off(k); gutil_inotify_watch_callback_free(w->cb); }
        else {
            if (!--w->refs && !w->emitting) off(k);
            gutil_inotify_watch_destroy(w->w);
        }
        break;
    case 0x400:     /* Unref */
        if (!w->refs || w->cb) return;
        mc_note("%*sunref watch %d", depth * 2, "", k);
        if (!--w->refs) { w->live = 0; if (!w->emitting) off(k); }
        gutil_inotify_watch_unref(w->w);
        break;
    case 0x500:     /* Ref */
        if (!w->refs || w->cb) return;
        mc_note("%*sref watch %d", depth * 2, "", k);
        w->refs++;
        MC_EXPECT(gutil_inotify_watch_ref(w->w) == w->w);
        break;
    }
}

static void dispatch(void)
{
    int n, k;
    mc_note("dispatch");
    in_dispatch = 1;
    batch = cur;
    for (n = 0; g_main_context_pending(NULL); n++) {
        MC_CHECK(n < 200, "endless stream of events");
        g_main_context_iteration(NULL, FALSE);
    }
    in_dispatch = 0;
    for (; cur < nev; cur++) finished(cur);
    for (k = 0; k < nw; k++) {
        wt[k].emitting = 0;
        if (!wt[k].refs) off(k);
    }
}

static int nfds0;
static int poll_fds(void)
{
    GPollFD fds[16];
    GMainContext* ctx = g_main_context_default();
    int prio, t, n;
    g_main_context_acquire(ctx);
    g_main_context_prepare(ctx, &prio);
    n = g_main_context_query(ctx, G_MAXINT, &t, fds, G_N_ELEMENTS(fds));
    g_main_context_check(ctx, prio, fds, 0);
    g_main_context_release(ctx);
    return n;
}

static int open_fds(void)
{
    int k, n = 0;
    for (k = 0; k < 24; k++) if (syscall(SYS_fcntl, k, F_GETFD) >= 0) n++;
    return n;
}

static void check_resources(void)
{
    int k, j, m, any = 0;
    for (k = 0; k < nw; k++) any |= wt[k].refs;
    if (!real) {
        for (k = 0; k < nino; k++) for (j = 0; j < ino[k].nm && !rm_failed; j++) {
            for (m = 0; m < nw && !(wt[m].live && wt[m].inode == ino[k].m[j].inode); m++);
            MC_CHECK(m < nw, "kernel watch is left behind");
        }
        MC_CHECK(any || !nino, "inotify descriptor is left behind");
    }
    if (!any) {
        MC_CHECK(open_fds() == nfds_open, "descriptor leak: %d open, was %d", open_fds(), nfds_open);
        MC_CHECK(poll_fds() == nfds0, "event source is left behind");
        broken = rm_failed = 0;     /* New ones start from scratch */
    }
}

static void begin(void)
{
    fs_init();
    nw = nh = cur = in_dispatch = depth = 0;
    hash = 1;
    nfds_open = open_fds();
    active = 1;
}

static void end(void)
{
    int k;
    /* Some in the order of creation, some the other way around */
    for (k = 0; k < nw; k++) while (wt[k].refs) act(0x400 + (wt[k].cb ? -0x100 : 0) + k);
    check_resources();
    MC_CHECK(!g_main_context_pending(NULL), "something's still going on");
    active = 0;
    mc_outcome(hash);
    fs_cleanup();
}

/* Which operations are there at the top level */
static void program(int len, int npre, int nmasks)
{
    static const int watch_paths[] = { P_D, P_D2, P_E, P_DF };
    int k, last = 0;
    begin();
    /* These are there from the beginning */
    for (k = 0; k < npre; k++) {
        const int w = mc_choose(1 + G_N_ELEMENTS(watch_paths) * nmasks, "watch");
        if (!w) break;
        new_watch(watch_paths[(w - 1) % G_N_ELEMENTS(watch_paths)], (w - 1) / G_N_ELEMENTS(watch_paths), k == 1);
    }
    for (k = 0; k < len; k++) {
        /* Nothing, fs operations, dispatch, then new watches, then operations on those */
        const int base = 1 + NFS + 1, n1 = NPATH, per = 5, more = real || nest ? 0 : MORE_FS;
        const int op = mc_choose(base + n1 + nw * per + more, "op");
        if (!op) break;
        if (op >= base + n1 + nw * per) {
            const int k = op - (base + n1 + nw * per);
            mc_note("%s", k ? "queue overflow" : "unmount f");
            if (!fs_op(F_UNMOUNT + k)) break;
        } else if (op <= NFS) {
            /* The kernel merges identical events */
            if (real && last == op) break;
            last = op;
            mc_note("%s", fs_names[op - 1]);
            if (!fs_op(op - 1)) break;
        } else if (op == NFS + 1) {
            last = 0;
            dispatch();
        } else if (op < base + n1) {
            new_watch(op - base, 0, 0);
        } else {
            const int w = (op - base - n1) / per;
            switch ((op - base - n1) % per) {
            case 0: act(0x200 + w); break;
            case 1: act(0x300 + w); break;
            case 2: act(0x400 + w); break;
            case 3: act(0x500 + w); break;
            case 4: { int h; for (h = 0; h < nh; h++) if (hd[h].w == w && hd[h].on) { act(0x100 + h); break; } } break;
            }
        }
        mc_step();
        check_resources();
    }
    dispatch();
    end();
}

static void plain_body(void) { real = 0; nest = 0; program(T(3, 4), 2, 1); }
static void masks_body(void) { real = 0; nest = 0; program(T(2, 3), T(3, 2), 3); }
static void nested_body(void) { real = 0; nest = 1; program(2, 3, 1); }
static void nested_masks_body(void) { real = 0; nest = 1; program(1, T(2, 3), 3); }
static void flags_body(void) { real = mc_choose(2, "kernel"); nest = 0; program(1, real ? 1 : T(2, 3), NMASKS); }
static void real_body(void) { real = 1; nest = T(1, mc_choose(2, "nested")); program(nest ? 1 : 2, 2, 1); }

/* Lots of events with all name lengths, the buffer fills in all possible ways */
static void batch_body(void)
{
    int k, n;
    real = nest = 0;
    begin();
    new_watch(P_D, 0, 0);
    for (k = 0; k < T(4, 5); k++) {
        static const guchar lens[] = { 0, 1, 15, 16, 17, 31, 63, 111, 112, 127, 128, 143, 239, 240, 254, 255 };
        char name[NAME_MAX + 1];
        n = lens[mc_choose(G_N_ELEMENTS(lens), "length")];
        memset(name, 'a' + k, n);
        name[n] = 0;
        fsops++;
        fs_event(I_D, IN_CREATE, 0, name);
    }
    dispatch();
    end();
}

/*==========================================================================*
 * Many watches, many handlers (real kernel)
 *==========================================================================*/

#define MANY 1000
static struct { GUtilInotifyWatch* w; gulong id[MANY]; int nid; } many[MANY];
static struct { int w, h; } many_log[40 * MANY];
static int nmany_log, many_w, many_h;

static const char* many_path(int i)
{
    static char p[PATH_MAX + 20];
    if (i < 0) snprintf(p, sizeof(p), "%s/m", root);
    else snprintf(p, sizeof(p), "%s/m/%d", root, i);
    return p;
}

static void many_event(GUtilInotifyWatch* watch, guint mask, guint cookie, const char* name, void* arg)
{
    const int w = GPOINTER_TO_INT(arg) / MANY, h = GPOINTER_TO_INT(arg) % MANY;
    MC_CHECK(watch == many[w].w, "handler of watch %d is called for another one", w);
    if (mask == IN_ATTRIB && nmany_log < (int)G_N_ELEMENTS(many_log)) { many_log[nmany_log].w = w; many_log[nmany_log++].h = h; }
    else MC_CHECK(mask == IN_ATTRIB || mask == IN_IGNORED, "watch %d: unexpected event %08x", w, mask);
}

static void many_add(int w)
{
    int h;
    MC_CHECK(many[w].w = gutil_inotify_watch_new(many_path(w), IN_ATTRIB), "watch %d isn't created", w);
    many[w].nid = many_h;
    for (h = 0; h < many_h; h++) MC_EXPECT(many[w].id[h] = gutil_inotify_watch_add_handler(many[w].w, many_event, GINT_TO_POINTER(w * MANY + h)));
}

/* One event for each watch, in either direction */
static void many_round(int back, const char* when)
{
    int i, h, k;
    nmany_log = 0;
    for (i = 0; i < many_w; i++) MC_EXPECT(!chmod(many_path(back ? many_w - 1 - i : i), 0600));
    for (k = 0; g_main_context_pending(NULL); k++) {
        MC_CHECK(k < many_w + 100, "endless stream of events");
        g_main_context_iteration(NULL, FALSE);
    }
    for (i = k = 0; i < many_w; i++) {
        const int w = back ? many_w - 1 - i : i;
        for (h = 0; many[w].w && h < many_h; h++) if (many[w].id[h]) {
            MC_CHECK(k < nmany_log, "%s: handler %d of watch %d isn't called", when, h, w);
            MC_CHECK(many_log[k].w == w && many_log[k].h == h, "%s: handler %d of watch %d is called, expected %d of %d", when, many_log[k].h, many_log[k].w, h, w);
            k++;
        }
    }
    MC_CHECK(k == nmany_log, "%s: handler %d of watch %d is called again", when, many_log[k].h, many_log[k].w);
    mc_steps(k);
}

static const int many_n[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 700 };
static u64 many_count(void) { return 2 * G_N_ELEMENTS(many_n); }
static void many_run(u64 x)
{
    int i, h;
    const int n = many_n[x / 2];
    many_w = (x & 1) ? 3 : n;
    many_h = (x & 1) ? n : 1;
    mc_note("%d watches, %d handlers each", many_w, many_h);
    real = 1;
    nest = 0;
    begin();
    memset(many, 0, sizeof(many));
    MC_EXPECT(!mkdir(many_path(-1), 0700));
    for (i = 0; i < many_w; i++) { MC_EXPECT(!mknod(many_path(i), S_IFREG | 0600, 0)); many_add(i); }
    many_round(0, "all");
    for (i = 1; i < many_w; i += 3) { gutil_inotify_watch_unref(many[i].w); many[i].w = NULL; }
    many_round(1, "without every third one");
    for (i = 1; i < many_w; i += 3) many_add(i);
    for (i = 0; i < many_w; i++) for (h = i & 1; h < many_h; h += 2) { gutil_inotify_watch_remove_handler(many[i].w, many[i].id[h]); many[i].id[h] = 0; }
    many_round(0, "watches again, handlers removed");
    for (i = 0; i < many_w; i += 2) { gutil_inotify_watch_destroy(many[i].w); many[i].w = NULL; }
    many_round(1, "every other one destroyed");
    for (i = 0; i < many_w; i++) if (many[i].w) gutil_inotify_watch_unref(many[i].w);
    for (i = 0; i < many_w; i++) MC_EXPECT(!unlink(many_path(i)));
    MC_EXPECT(!rmdir(many_path(-1)));
    end();
    mc_outcome(x);
}

/*==========================================================================*
 * C22: failures
 *==========================================================================*/

static void fault_body(void)
{
    enum { STOP, NEW_D, NEW_F, NEW_X, NEW_CB, REF, UNREF, DESTROY, EVENT, UNLINK, UNMOUNT, OVERFLOW, DISPATCH, HUP, NULLS, NOP };
    int k, len = T(4, 5);
    real = nest = 0;
    begin();
    faults = 1;
    for (k = 0; k < len; k++) {
        const int op = mc_choose(NOP, "op");
        int j;
        if (!op) break;
        switch (op) {
        case NEW_D: new_watch(P_D, 0, 0); break;
        case NEW_F: new_watch(P_DF, 0, 0); break;
        case NEW_X: new_watch(P_X, 0, 0); break;
        case NEW_CB: new_watch(P_D, 1, 1); break;
        case REF: for (j = 0; j < nw && !wt[j].refs; j++); if (j < nw) act(0x500 + j); break;
        case UNREF: for (j = nw - 1; j >= 0 && !(wt[j].refs && wt[j].w); j--); if (j >= 0) act(0x400 + j); break;
        case DESTROY: for (j = 0; j < nw && !wt[j].refs; j++); if (j < nw) act(0x300 + j); break;
        case EVENT: mc_note("create"); fs_op(F_CREATE); break;
        case UNLINK: mc_note("unlink"); fs_op(F_UNLINK); break;
        case UNMOUNT: mc_note("unmount"); fs_op(F_UNMOUNT); break;
        case OVERFLOW: mc_note("queue overflow"); fs_op(F_OVERFLOW); break;
        case DISPATCH: dispatch(); break;
        case HUP:
            for (j = 0; j < nino; j++) if (!ino[j].hup) {
                mc_note("hang-up");
                ino[j].hup = 1;
                broken = 1;
                syscall(SYS_close, ino[j].wr);
                ino[j].wr = open("/dev/null", O_WRONLY);
            }
            break;
        case NULLS:
            MC_EXPECT(!gutil_inotify_watch_new(NULL, IN_ALL_EVENTS));
            MC_EXPECT(!gutil_inotify_watch_callback_new(NULL, IN_ALL_EVENTS, on_event, NULL));
            MC_EXPECT(!gutil_inotify_watch_ref(NULL));
            MC_EXPECT(!gutil_inotify_watch_add_handler(NULL, on_event, NULL));
            gutil_inotify_watch_unref(NULL);
            gutil_inotify_watch_destroy(NULL);
            gutil_inotify_watch_callback_free(NULL);
            gutil_inotify_watch_remove_handler(NULL, 1);
            for (j = 0; j < nw && !(wt[j].refs && wt[j].w); j++);
            if (j < nw) {
                MC_EXPECT(!gutil_inotify_watch_add_handler(wt[j].w, NULL, NULL));
                gutil_inotify_watch_remove_handler(wt[j].w, 0);
            }
            break;
        }
        mc_step();
        check_resources();
    }
    dispatch();
    faults = 0;
    for (k = 0; k < nw; k++) while (wt[k].refs) act((wt[k].cb || mc_choose(2, "end") ? 0x300 : 0x400) + k);
    check_resources();
    /* And everything works again */
    nw = nh = 0;
    cur = nev;
    f_at = I_D;
    new_watch(P_D, 0, 0);
    fs_op(F_CREATE);
    dispatch();
    end();
}

static void setup(void)
{
    GUtilInotifyWatchCallback* cb;
    while (g_main_context_iteration(NULL, FALSE));
    real = 1;
    fs_init();
    cb = gutil_inotify_watch_callback_new(full(P_D), IN_ALL_EVENTS, on_event, NULL);
    gutil_inotify_watch_callback_free(cb);
    fs_cleanup();
    real = 0;
    nfds0 = poll_fds();
}

/* The first free descriptor is zero */
static void fd0_setup(void) { setup(); syscall(SYS_close, 0); }
static void fd0_body(void) { real = mc_choose(2, "kernel"); nest = 0; program(real ? T(1, 2) : T(2, 3), 1, 1); }

const McSuite mc_suites[] = {
    { "C21.plain", MC_DFS, "Up to 2 watches on files and directories (incl. different paths of the same one), then all sequences of up to 3 (4) operations on files, watches and handlers", .body = plain_body, .dev_quick = 0, .dev_thorough = 0, .split = 8, .setup = setup },
    { "C21.masks", MC_DFS, "Up to 3 (2) watches with different masks, then all sequences of up to 2 (3) operations", .body = masks_body, .dev_quick = 0, .dev_thorough = 0, .split = 8, .setup = setup },
    { "C21.flags", MC_DFS, "Up to 2 (3) watches with different masks and flags (1 with the real kernel), then 1 operation", .body = flags_body, .dev_quick = 0, .dev_thorough = 0, .split = 8, .setup = setup },
    { "C21.nested", MC_DFS, "Up to 3 watches, then all sequences of up to 2 operations with up to 1 (2) actions of handlers", .body = nested_body, .dev_quick = 1, .dev_thorough = 2, .split = 8, .setup = setup },
    { "C21.nested_masks", MC_DFS, "Up to 2 (3) watches with different masks, then one operation, up to 2 (3) actions of handlers", .body = nested_masks_body, .dev_quick = 2, .dev_thorough = 3, .split = 8, .setup = setup },
    { "C21.batch", MC_DFS, "All sequences of 4 (5) events with 16 different name lengths read in one go", .body = batch_body, .dev_quick = 0, .dev_thorough = 0, .split = 4, .setup = setup },
    { "C21.real", MC_DFS, "Real kernel: up to 2 watches, then 1 operation with 1 action of a handler (or 2 operations)", .body = real_body, .dev_quick = 1, .dev_thorough = 1, .split = 8, .setup = setup },
    { "C21.many", MC_FAMILY, "Real kernel: 27 numbers of watches (handlers) up to 700, events in either order, watches and handlers removed and added again", many_count, many_run, .split = 8, .setup = setup },
    { "C21.fd0", MC_DFS, "Descriptor 0: up to 1 watch, then all sequences of up to 2 (3) operations with the kernel model, 1 (2) with the real kernel", .body = fd0_body, .dev_quick = 0, .dev_thorough = 0, .split = 4, .setup = fd0_setup },
    { "C21.kernel", MC_DFS, "The kernel model against the kernel: all sequences of up to 3 raw operations (4 with fewer masks)", .body = kernel_body, .dev_quick = 0, .dev_thorough = 0, .split = 8, .setup = setup, .only = 1 },
    { "C22.faults", MC_DFS, "All sequences of up to 4 (5) operations with up to 2 failing system calls", .body = fault_body, .dev_quick = 2, .dev_thorough = 2, .split = 8, .setup = setup },
    { NULL }
};
