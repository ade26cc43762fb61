/* A compilation unit using the macros of the library, see logmacros.c */
#ifndef LOGUNIT_H
#define LOGUNIT_H

#include <glib.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct {
    const char* broken;     /* Doesn't compile */
    const char* flags;      /* How it's compiled */
    int kind;               /* 0: no module, 1: module, 2: module with a parent */
    int debug, cxx;
    int want_max, want_assert;      /* -100: not given */
    int max, def, ass;              /* What the headers make of it */
    int any, err, warn, info, dbg, verbose, assert_on;
    void* module;
    const void* current;
    void (*log)(int op);
    void (*assertion)(int op, int a, int b);
    int (*enabled)(int level);
    void (*dump)(const void* data, gsize n, GBytes* bytes);
    const char* file;
    const char* function;
    const int* line;                /* Of the last assertion */
} LogUnit;

/* Those count */
int unit_ev(int x);
const char* unit_str(const char* s);
extern int unit_cond;

enum { U_PLAIN, U_ARGS, U_PLAIN_, U_ARGS_, U_IF, U_IF_, U_LOOP, U_EXPR, U_NOPS };
enum { U_ASSERT, U_ASSERT_IF, U_VERIFY, U_FALSE, U_EQ, U_NE, U_GE, U_GT, U_LE, U_LT, U_ASSERT_OR, U_EQ_OR, U_NE_OR, U_FALSE_OR, U_PERCENT, U_NVERIFY };

#ifdef __cplusplus
}
#endif
#endif
