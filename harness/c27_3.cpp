#define VH_NO_MAIN_DEFS
#include "c27_pos.h"
void c27::positions1(vh::Gen& g)
{
    static void (*const f[])(vh::Gen&) = {&returned<Enum>, &returned<Plain>, &returned<Own>, &returned<Box<char>>, &variables<Enum>, &variables<Plain>, &variables<Box<int>>};
    g.pick(f)(g);
}
