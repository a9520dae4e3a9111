#define VH_NO_MAIN_DEFS
#include "c27_pos.h"
void c27::positions2(vh::Gen& g)
{
    static void (*const f[])(vh::Gen&) = {&lookups<Enum>, &lookups<Plain>, &lookups<Own>, &lookups<std::vector<Box<int>>>, &lookups<std::optional<Own>>, &lookups<std::optional<std::vector<Plain>>>};
    g.pick(f)(g);
}
