#define VH_NO_MAIN_DEFS
#include "c26.h"
void c26::part3()
{
    Sig<coil::Value const&, std::string, std::string_view>::add();
    Sig<long double, float, double, long double, bool>::add();
    Sig<std::string* const&, std::vector<std::string>>::add();
    Sig<char const*, char>::add();
    Sig<void, int, short, long, char, bool, float, double, unsigned>::add();
    Sig<std::vector<std::optional<int>>, std::vector<std::optional<double>>>::add();
    Sig<Shade const* const, std::optional<Shade>, std::vector<Shade>>::add();
}
