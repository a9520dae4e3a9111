#define VH_NO_MAIN_DEFS
#include "c27.h"
void c27::signatures2(vh::Gen& g)
{
    static void (*const f[])(vh::Gen&) = {&Sig<std::vector<Enum>, std::vector<Own>>::run, &Sig<Enum, Enum, Enum, Enum>::run, &Sig<std::vector<Marked>, Plain, Marked>::run, &Sig<std::optional<Plain>, coil::Value, bool, Box<char>>::run, &Sig<Own, Own, std::string, std::optional<std::vector<Box<char>>>>::run, &Sig<int, Plain, double, Enum, std::vector<Box<int>>, Own>::run};
    g.pick(f)(g);
}
