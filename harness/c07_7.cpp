#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part7(vh::Gen& g)
{
    runOne<Sig<int, int, int, int, int, int, int, int, int, int, int, int, int>>(g);
}
