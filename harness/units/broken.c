/* Stands for a unit which doesn't compile */
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#include "logunit.h"
static const LogUnit unit = { .broken = BROKEN, .flags = UNIT_FLAGS };
const LogUnit* const CAT(unit_ptr_,UNIT_ID) __attribute__((used, section("mc_units"))) = &unit;
