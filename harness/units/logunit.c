/* Compiled many times, with and without a module, DEBUG and so on */
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define STR_(a) #a
#define STR(a) STR_(a)
#if UNIT_KIND
#define GLOG_MODULE_NAME CAT(unit_module_,UNIT_ID)
#endif
#ifdef UNIT_MAX
#define GLOG_LEVEL_MAX UNIT_MAX
#else
#define UNIT_MAX -100
#endif
#ifdef UNIT_ASSERT
#define GLOG_LEVEL_ASSERT UNIT_ASSERT
#else
#define UNIT_ASSERT -100
#endif
#include "gutil_log.h"
#include "gutil_macros.h"
#include "logunit.h"

#ifdef __cplusplus
extern "C" {
#endif

extern GLogModule unit_parent;
#if UNIT_KIND == 1
GLOG_MODULE_DEFINE("unit")
#elif UNIT_KIND == 2
GLOG_MODULE_DEFINE2("child", unit_parent)
#endif
;
static int last_line;

#define LV(n,M,M_) \
    case n * U_NOPS + U_PLAIN: M("plain"); break; \
    case n * U_NOPS + U_ARGS: M("args %d %s %%", unit_ev(7), unit_str("x")); break; \
    case n * U_NOPS + U_PLAIN_: M_("plain"); break; \
    case n * U_NOPS + U_ARGS_: M_("args %d %s %%", unit_ev(7), unit_str("x")); break; \
    case n * U_NOPS + U_IF: if (unit_cond) M("then %d", unit_ev(1)); else M("else %d", unit_ev(2)); break; \
    case n * U_NOPS + U_IF_: if (unit_cond) M_("then %d", unit_ev(1)); else M_("else %d", unit_ev(2)); break; \
    case n * U_NOPS + U_LOOP: for (i = 0; i < 2; i++) M("loop %d", i); break; \
    case n * U_NOPS + U_EXPR: unit_cond ? M("true") : M_("false"); break;

static void unit_log(int op)
{
    int i;
    switch (op) {
    LV(1,GERR,GERR_)
    LV(2,GWARN,GWARN_)
    LV(3,GINFO,GINFO_)
    LV(4,GDEBUG,GDEBUG_)
    LV(5,GVERBOSE,GVERBOSE_)
    }
}

static void unit_assertion(int op, int a, int b)
{
    switch (op) {
    case U_ASSERT: last_line = __LINE__; GASSERT(unit_ev(a) == b); break;
    case U_ASSERT_IF: last_line = __LINE__; if (unit_cond) GASSERT(unit_ev(a) == b); else GASSERT(unit_ev(a) != b); break;
    case U_VERIFY: last_line = __LINE__; GVERIFY(unit_ev(a) == b); break;
    case U_FALSE: last_line = __LINE__; GVERIFY_FALSE(unit_ev(a) == b); break;
    case U_EQ: last_line = __LINE__; GVERIFY_EQ(unit_ev(a), b); break;
    case U_NE: last_line = __LINE__; GVERIFY_NE(unit_ev(a), b); break;
    case U_GE: last_line = __LINE__; GVERIFY_GE(unit_ev(a), b); break;
    case U_GT: last_line = __LINE__; GVERIFY_GT(unit_ev(a), b); break;
    case U_LE: last_line = __LINE__; GVERIFY_LE(unit_ev(a), b); break;
    case U_LT: last_line = __LINE__; GVERIFY_LT(unit_ev(a), b); break;
    /* Operators of lower precedence */
    case U_ASSERT_OR: last_line = __LINE__; GASSERT(unit_ev(a) | b); break;
    case U_EQ_OR: last_line = __LINE__; GVERIFY_EQ(unit_ev(a) | 4, b | 4); break;
    case U_NE_OR: last_line = __LINE__; GVERIFY_NE(unit_ev(a) & 1, b & 1); break;
    case U_PERCENT: last_line = __LINE__; GASSERT(unit_ev(a) % 3 == b); break;
    case U_FALSE_OR: last_line = __LINE__; GVERIFY_FALSE(unit_ev(a) | b); break;
    }
}

static int unit_enabled(int level) { return GLOG_ENABLED(level); }
static void unit_dump(const void* data, gsize n, GBytes* bytes)
{
    if (bytes) GDEBUG_DUMP_BYTES(bytes); else GDEBUG_DUMP(data, n);
}

static const LogUnit unit = {
    NULL, UNIT_FLAGS, UNIT_KIND,
#ifdef DEBUG
    1,
#else
    0,
#endif
#ifdef __cplusplus
    1,
#else
    0,
#endif
    UNIT_MAX, UNIT_ASSERT, GLOG_LEVEL_MAX, GLOG_LEVEL_DEFAULT, GLOG_LEVEL_ASSERT,
    GUTIL_LOG_ANY, GUTIL_LOG_ERR, GUTIL_LOG_WARN, GUTIL_LOG_INFO, GUTIL_LOG_DEBUG, GUTIL_LOG_VERBOSE, GUTIL_LOG_ASSERT,
#if UNIT_KIND
    &GLOG_MODULE_NAME,
#else
    NULL,
#endif
    GLOG_MODULE_CURRENT, unit_log, unit_assertion, unit_enabled, unit_dump, __FILE__, "unit_log", &last_line
};

extern const LogUnit* const CAT(unit_ptr_,UNIT_ID);
const LogUnit* const CAT(unit_ptr_,UNIT_ID) __attribute__((used, section("mc_units"))) = &unit;

#ifdef __cplusplus
}
#endif
