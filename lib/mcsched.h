/*
 * Controlled scheduler (flavour S).
 *
 * The library is compiled with -fsanitize=thread, but linked with the hooks
 * of mcsched.c rather than the ThreadSanitizer runtime: each memory access and
 * atomic operation of the library is a scheduling point, and so is each call
 * it makes to GLib or (some functions of) libc. Threads are real ones, but
 * only one of them is running at any time. Taking the token away from the
 * thread which could continue is a deviation (mc_choose_dev); picking the
 * next thread when the current one has finished or blocked is a free choice.
 */
#ifndef SCHED_H
#define SCHED_H

#include "mc.h"

typedef void (*SchedFunc)(void* arg);

#define SCHED_MAX 4

/* Runs functions in parallel, to the end. Threads are kept for the next
 * execution, unless exiting is on. In that case functions called at thread
 * exit are a part of the execution. */
void sched_run(int n, const SchedFunc* fn, void* const* arg, int exiting);
int sched_me(void);                 /* Thread index, -1 outside sched_run */
void sched_point(const char* what); /* Explicit scheduling point */
void sched_wait(int (*pred)(void*), void* arg); /* Blocks until it's true */

/* Replaces the clock, for the calls made by the library */
#include <time.h>
extern time_t (*sched_clock)(void);

/* In-between those there are no scheduling points in this thread */
void sched_atomic_begin(void);
void sched_atomic_end(void);

#endif
