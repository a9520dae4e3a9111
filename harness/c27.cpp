// C27: user-defined types.
#include "c27.h"

namespace c27
{
    State st;

    void helpers(vh::Gen& g)
    {
        Fields f(g.chance(1, 10) ? g.logsize(100) : g.below(5));
        for (auto& s : f)
            s = ref::anyText(g, 30);
        ref::InputBuilder in;
        coil::Value v = in.value(f);
        std::string name = g.coin() ? ref::anyText(g, 30) : g.pick(std::vector<std::string>{"int", "%s", "%n%n", "", "a 'quoted' name"});
        std::string details = g.chance(1, 3) ? "" : ref::anyText(g, 40);
        if (g.chance(1, 20))
            details += std::string(g.logsize(5000), 'd');
        if (name.find('\0') != std::string::npos)
            return;
        ref::Exact n(name), d(details);
        coil::Unexpected<coil::String> u = coil::makeUnexpected(coil::String());
        CR want;
        switch (g.below(6))
        {
        case 0:
            u = coil::errors::createGenericError(cv(n), v);
            want = ref::bad(f, name);
            break;
        case 1:
            u = coil::errors::createGenericError(cv(n), v, cv(d));
            want = ref::bad(f, name, details);
            break;
        case 2:
        {
            size_t k = g.chance(1, 4) ? static_cast<size_t>(g.u64()) : g.below(5);
            u = coil::errors::createMismatchedSubvaluesError(cv(n), v, k);
            want = ref::badCount(f, name, k);
            break;
        }
        case 3:
            u = coil::errors::createGenericError<Plain>(v, cv(d));
            want = ref::bad(f, "Plain %s type", details);
            break;
        case 4:
            u = coil::errors::createMismatchedSubvaluesError<std::vector<std::optional<Own>>>(v, f.size() + 1);
            want = ref::badCount(f, "vector<optional<Own>>", f.size() + 1);
            break;
        default:
            u = coil::errors::createGenericError<Box<int>>(v, cs(details));
            want = ref::bad(f, "Box<int>", details);
        }
        vh::observe(vh::hashStr(want.err));
        if (want.hasNul)
            VH_CHECK(errorIs(sv(u.value()), want), "helper", "'%s'", vh::esc(sv(u.value())).c_str());
        else
            VH_CHECK(sv(u.value()) == want.err, "helper", "'%s', should be '%s'", vh::esc(sv(u.value())).c_str(), vh::esc(want.err).c_str());
        VH_CHECK(sv(v.str()) == ref::join(f), "value-text", "'%s', should be '%s'", vh::esc(sv(v.str())).c_str(), vh::esc(ref::join(f)).c_str());
        vh::count("helpers");
    }
}

void vh_warmup()
{
    coil::TypeName<c27::Box<int>>::name();
    coil::TypeName<c27::Box<char>>::name();
    coil::TypeName<std::vector<c27::Box<int>>>::name();
    coil::TypeName<std::vector<c27::Box<char>>>::name();
    coil::TypeName<std::optional<std::vector<c27::Box<char>>>>::name();
    coil::TypeName<std::vector<c27::Plain>>::name();
    coil::TypeName<std::optional<c27::Plain>>::name();
    coil::TypeName<std::optional<std::vector<c27::Plain>>>::name();
    coil::TypeName<std::vector<c27::Own>>::name();
    coil::TypeName<std::optional<c27::Own>>::name();
    coil::TypeName<std::vector<std::optional<c27::Own>>>::name();
    coil::TypeName<std::vector<c27::Enum>>::name();
    coil::TypeName<std::optional<c27::Enum>>::name();
    coil::TypeName<std::vector<c27::Marked>>::name();
    coil::TypeName<std::optional<c27::Marked>>::name();
    c27::decide('x', {});
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }
void vh_case(vh::Gen& g)
{
    c27::st.salt = g.u64();
    c27::st.failing = static_cast<unsigned>(g.pick(std::vector<int>{0, 1, 3, 6}));
    switch (g.below(6))
    {
    case 0:
    case 1:
        c27::signatures1(g);
        break;
    case 2:
        c27::signatures2(g);
        break;
    case 3:
        c27::positions1(g);
        break;
    case 4:
        c27::positions2(g);
        break;
    default:
        c27::helpers(g);
    }
    c27::st = {};
}
