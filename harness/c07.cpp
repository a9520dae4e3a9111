#include "c07.h"

c07::Rec c07::rec;

void vh_warmup()
{
    for (uint64_t i = 0; i < 200; i++)
    {
        vh::Gen g(i);
        c07::part4(g);
        c07::part5(g);
        c07::part6(g);
        c07::part7(g);
        c07::part8(g);
    }
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    using F = void (*)(vh::Gen&);
    static F const f[] = {&c07::part1, &c07::part2, &c07::part3, &c07::part4, &c07::part5, &c07::part6, &c07::part7, &c07::part8};
    for (int i = 0; i < 4; i++)
        g.pick(f)(g);
    c07::rec = c07::Rec();
}
