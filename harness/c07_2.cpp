#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part2(vh::Gen& g)
{
    runOne<Sig<int, int>, Sig<bool, std::string, unsigned char>>(g);
}
