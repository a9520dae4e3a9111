#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part1(vh::Gen& g)
{
    runOne<Sig<>, Sig<int>, Sig<std::string>, Sig<c07::Said>>(g);
}
