#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part4(vh::Gen& g)
{
    runOne<Sig<std::vector<int>, std::optional<short>>, Sig<double, coil::Value, std::string_view>>(g);
}
