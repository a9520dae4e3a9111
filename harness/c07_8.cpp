#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part8(vh::Gen& g)
{
    runOne<Sig<std::string, int, bool, std::string_view, short, double, int, coil::Value, unsigned char, std::vector<int>, Said>>(g);
}
