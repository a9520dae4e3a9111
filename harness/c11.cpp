// C11: standard-library types.
#include "convcheck.h"

#include <sstream>

static void helpers(vh::Gen& g)
{
    std::string s = ref::anyText(g, g.chance(1, 20) ? 5000 : 40);
    ref::Exact e(s);
    coil::StringView v = cv(e);
    std::string w = vh::esc(s);
    VH_CHECK(coil::toStdString(v) == s, "toStdString", "\"%s\"", w.c_str());
    std::string_view sv1 = coil::toStdStringView(v);
    VH_CHECK(sv1 == s && (s.empty() || sv1.data() == e.p), "toStdStringView", "\"%s\"", w.c_str());
    std::string_view exact(e.p, s.size());
    coil::String cs1 = coil::fromStdString(exact);
    VH_CHECK(sv(cs1) == s && cs1.cStr()[cs1.length()] == 0, "fromStdString", "\"%s\"", w.c_str());
    coil::StringView cv1 = coil::fromStdStringView(exact);
    VH_CHECK(sv(cv1) == s && (s.empty() || cv1.data() == e.p), "fromStdStringView", "\"%s\"", w.c_str());
    coil::String owned(v);
    // each stream operator writes the same bytes; the field width applies to the whole text
    std::ostringstream o, p;
    size_t width = g.chance(1, 3) ? g.below(60) : 0;
    auto fill = static_cast<char>('.');
    for (auto* st : {&o, &p})
    {
        st->fill(fill);
        st->width(static_cast<std::streamsize>(width));
        if (width % 2)
            *st << std::left;
    }
    o << owned << "|" << v << "|" << owned;
    p << s << "|" << s << "|" << s;
    VH_CHECK(o.str() == p.str(), "stream", "\"%s\" is written as \"%s\"", w.c_str(), vh::esc(o.str()).c_str());
    std::string_view none;
    VH_CHECK(coil::fromStdStringView(none).empty() && coil::fromStdString(none).empty(), "default-view", "a default-constructed view");
    VH_CHECK(coil::toStdString(coil::StringView{}).empty() && coil::toStdStringView(coil::StringView{}).empty(), "default-view", "a default-constructed view");
    vh::observe(vh::hashStr("h" + s));
    vh::count("helpers");
}

template<typename... Ts>
static void oneOf(vh::Gen& g)
{
    using F = void (*)(vh::Gen&);
    static F const f[] = {&cc::both<Ts>...};
    g.pick(f)(g);
}

void part2(vh::Gen& g);
void part3(vh::Gen& g);
void part4(vh::Gen& g);

void vh_warmup()
{
    for (uint64_t i = 0; i < 400; i++)
    {
        vh::Gen g(i);
        oneOf<std::string, std::string_view, std::vector<int>, std::vector<std::string>>(g);
        part2(g);
        part3(g);
        part4(g);
    }
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    for (int i = 0; i < 8; i++)
        switch (g.below(6))
        {
        case 0:
            oneOf<std::string, std::string_view, std::vector<int>, std::vector<std::string>>(g);
            break;
        case 1:
            oneOf<std::string, std::string_view>(g);
            break;
        case 2:
            part2(g);
            break;
        case 3:
            part3(g);
            break;
        case 4:
            part4(g);
            break;
        default:
            helpers(g);
        }
}
