#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part6(vh::Gen& g)
{
    runOne<Sig<char, signed char, unsigned long, bool, std::optional<std::vector<double>>, coil::Value, long double, std::string>>(g);
}
