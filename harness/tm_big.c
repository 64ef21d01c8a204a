/* C01, large regions */
#define TM_BIG
#include "tm_mem.c"
