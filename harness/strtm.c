/* S01, the functions for privatised memory */
#define STR_TM
#include "str.c"
