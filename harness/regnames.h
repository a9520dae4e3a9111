// Names for registry histories: many with equal djb2 hashes, binary ones, prefixes of each other.
#pragma once
#include "coilcmp.h"

namespace ref
{
    // "Ez" and "FY" have the same hash: any concatenation of them collides with all others of its length
    inline std::string name(vh::Gen& g)
    {
        std::string s;
        switch (g.below(8))
        {
        case 0:
        case 1:
        case 2:
        {
            size_t n = 1 + g.below(4);
            for (size_t i = 0; i < n; i++)
                s += g.coin() ? "Ez" : "FY";
            return s;
        }
        case 3: // prefixes of each other
            return std::string("prefix.of.names").substr(0, g.below(16));
        case 4: // binary
        {
            size_t n = g.below(4);
            for (size_t i = 0; i < n; i++)
                s += "\0\x01\xff\x80\n a"[g.below(7)];
            return s;
        }
        case 5:
            return "c" + std::to_string(g.below(12));
        case 6:
            return std::string(1 + g.logsize(300), static_cast<char>('a' + g.below(2)));
        default:
        {
            static char const* const some[] = {"add", "Add", "ADD", "add ", " add", "a=b", "'q'", "(x)", "%s", "%n%n", "object.command", "object.Command", "object.comman"};
            return g.pick(some);
        }
        }
    }
    inline std::vector<std::string> namePool(vh::Gen& g, size_t n)
    {
        std::vector<std::string> p;
        for (size_t i = 0; i < n; i++)
            p.push_back(name(g));
        return p;
    }
}
