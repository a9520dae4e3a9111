#define VH_NO_MAIN_DEFS
#include "convcheck.h"
template<typename... Ts>
static void oneOf(vh::Gen& g)
{
    using F = void (*)(vh::Gen&);
    static F const f[] = {&cc::both<Ts>...};
    g.pick(f)(g);
}
void part3(vh::Gen& g)
{
    oneOf<std::vector<std::optional<int>>, std::vector<std::vector<short>>, std::vector<bool>, std::optional<std::optional<int>>>(g);
}
