#define VH_NO_MAIN_DEFS
#include "convcheck.h"
template<typename... Ts>
static void oneOf(vh::Gen& g)
{
    using F = void (*)(vh::Gen&);
    static F const f[] = {&cc::both<Ts>...};
    g.pick(f)(g);
}
void part2(vh::Gen& g)
{
    oneOf<std::vector<unsigned char>, std::vector<float>, std::vector<std::string_view>, std::vector<coil::String>>(g);
}
