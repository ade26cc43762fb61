/*
 * Small explicit-state / stateless model checking core.
 *
 * Three kinds of exhaustive exploration over the real library code:
 *
 *  MC_FAMILY  an indexed finite family of cases: fn(0..n-1)
 *  MC_DFS     stateless search over every sequence of choices a body makes
 *             (optionally bounding the number of deviations from choice 0)
 *  MC_BFS     explicit-state search: every reachable state of a real object,
 *             each state being rebuilt by replaying its shortest history; the
 *             state is identified by a canonical form of the heap graph
 *             reachable from the object, the library's static data and the
 *             reference model
 *
 * Exploration runs in a child process; the parent turns crashes, sanitizer
 * reports, leaks, hangs and oracle failures into replayable violations.
 */
#ifndef MC_H
#define MC_H

#include <glib.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

typedef uint64_t u64;
typedef uint32_t u32;

typedef enum { MC_FAMILY, MC_DFS, MC_BFS } McKind;
typedef enum { MC_QUICK, MC_THOROUGH } McTier;

typedef struct mc_suite {
    const char* name;                   /* "C08.name" */
    McKind kind;
    const char* about;                  /* what is enumerated */
    /* MC_FAMILY */
    u64 (*count)(void);
    void (*run)(u64 index);
    /* MC_DFS */
    void (*body)(void);
    int dev_quick, dev_thorough;        /* deviation bounds, -1: unlimited */
    /* MC_BFS */
    void (*create)(void);
    int (*nops)(void);
    int (*apply)(int op);               /* returns 0 if the op isn't enabled */
    void (*key)(void);                  /* calls mc_key_* */
    void (*destroy)(void);
    int depth_quick, depth_thorough;
    /* All */
    int split;                          /* shards worth using (0: one) */
    int no_leak_check;
    int slow_s;                         /* hang limit, seconds (0: default) */
    void (*setup)(void);                /* once per process */
    int only;                           /* 1: debug flavour only, 2: release */
} McSuite;

extern const McSuite mc_suites[];

extern McTier mc_tier;
extern int mc_verbose;                  /* replaying: notes are recorded */
extern int mc_quiet_criticals;          /* tolerate GLib criticals */
extern int mc_num_criticals;

int mc_choose(int n, const char* what);     /* free choice */
int mc_choose_dev(int n, const char* what); /* non-zero costs a deviation */
int mc_dev_left(void);

void mc_fail(const char* fmt, ...) G_GNUC_PRINTF(1,2) G_GNUC_NORETURN;
void mc_note_(const char* fmt, ...) G_GNUC_PRINTF(1,2);
#define mc_note(args...) do { if (mc_verbose) mc_note_(args); } while (0)
#define MC_CHECK(cond, args...) do { if (G_UNLIKELY(!(cond))) mc_fail(args); } while (0)
#define MC_EXPECT(cond) MC_CHECK(cond, "%s:%d: expected %s", __FILE__, __LINE__, #cond)

void mc_outcome(u64 hash);              /* distinct observed outcomes */
void mc_step(void);                     /* counts a transition (MC_DFS/FAMILY) */
void mc_steps(u64 n);
/* MC_DFS: nothing after this point may fail, skip the rest (cut branch) */

/* Heap accounting */
u64 mc_heap_live(void);                 /* live blocks allocated so far */
void mc_fault_heap(void);

/* Keys (MC_BFS) */
void mc_key_bytes(const void* data, gsize size);
void mc_key_int(gint64 v);
void mc_key_ptr(const void* root);      /* heap graph from this object */

u64 mc_hash(const void* data, gsize n, u64 seed);

/* Guarded buffers: exact-size heap copies so that ASan sees any overrun */
void* mc_exact(const void* data, gsize n);

#endif
