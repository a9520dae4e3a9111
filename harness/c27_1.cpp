#define VH_NO_MAIN_DEFS
#include "c27.h"
void c27::signatures1(vh::Gen& g)
{
    static void (*const f[])(vh::Gen&) = {&Sig<Enum>::run, &Sig<Plain, Plain>::run, &Sig<Own>::run, &Sig<Marked, int, std::optional<Marked>>::run, &Sig<Box<int>, int, Own>::run, &Sig<std::vector<Plain>>::run, &Sig<std::optional<Own>, Enum>::run};
    g.pick(f)(g);
}
