#define VH_NO_MAIN_DEFS
#include "c07.h"
using namespace c07;
void c07::part5(vh::Gen& g)
{
    runOne<Sig<int, short, unsigned, long long>, Sig<std::vector<std::string>>, Sig<c07::Said, std::vector<c07::Said>, std::optional<c07::Said>>>(g);
}
