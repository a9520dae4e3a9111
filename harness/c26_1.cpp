#define VH_NO_MAIN_DEFS
#include "c26.h"
void c26::part1()
{
    Sig<void>::add();
    Sig<int, int, int>::add();
    Sig<bool&, char, signed char, unsigned char>::add();
    Sig<std::string const&, short, unsigned short>::add();
    Sig<double const, int>::add();
    Sig<coil::String, coil::StringView, coil::String>::add();
}
