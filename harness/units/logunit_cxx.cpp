#include "logunit.c"
