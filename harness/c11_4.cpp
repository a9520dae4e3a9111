#define VH_NO_MAIN_DEFS
#include "convcheck.h"
template<typename... Ts>
static void oneOf(vh::Gen& g)
{
    using F = void (*)(vh::Gen&);
    static F const f[] = {&cc::both<Ts>...};
    g.pick(f)(g);
}
void part4(vh::Gen& g)
{
    oneOf<std::optional<int>, std::optional<std::string>, std::optional<std::vector<int>>, std::optional<bool>, std::optional<std::string_view>, std::optional<std::vector<std::optional<double>>>>(g);
}
