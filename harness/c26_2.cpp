#define VH_NO_MAIN_DEFS
#include "c26.h"
void c26::part2()
{
    Sig<int*, unsigned, long>::add();
    Sig<std::vector<long> const*, std::vector<int>, std::vector<long>>::add();
    Sig<Shade, Shade>::add();
    Sig<Lazy const&, int, Lazy>::add();
    Sig<std::optional<std::vector<unsigned char>>, std::optional<short>>::add();
    Sig<unsigned long long, long long, unsigned long, unsigned long long>::add();
}
