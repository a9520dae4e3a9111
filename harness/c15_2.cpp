#define VH_NO_MAIN_DEFS
#define VH_C15_PART2
#include "c15.cpp"
