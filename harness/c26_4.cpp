#define VH_NO_MAIN_DEFS
#include "c26.h"
void c26::part4()
{
    Var<int>::add();
    Var<unsigned char>::add();
    Var<double>::add();
    Var<std::string>::add();
    Var<coil::String>::add();
    Var<std::vector<short>>::add();
    Var<std::optional<Lazy>>::add();
    Var<Shade>::add();
    Var<unsigned long>::add();
}
