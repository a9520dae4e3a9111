#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part3(vh::Gen& g)
{
    runOne<Sig<coil::Value>, Sig<coil::StringView, coil::String, float>>(g);
}
