// C10: booleans, strings, raw values, pointers, and the number of fields.
#include "convcheck.h"

static void cstrings(vh::Gen& g)
{
    std::string s = ref::anyText(g, 40);
    s = s.c_str();
    ref::Exact e(s + std::string(1, '\0'));
    char const* p = e.p;
    bool null = g.chance(1, 4);
    if (null)
        p = nullptr;
    std::string want = null ? "null" : s;
    VH_CHECK(sv(coil::TypeSerializer<char const*>::toString(p)) == want, "c-string", "\"%s\"", vh::esc(s).c_str());
    coil::Bindings b;
    if (g.coin())
        b["f"] = [p]() { return p; };
    else
        b["f"] = [&p]() -> char const* const& { return p; };
    auto r = b.execute("f");
    VH_CHECK(r.returnValue && sv(*r.returnValue) == want && r.errors.empty(), "c-string-returned", "\"%s\": %s", vh::esc(s).c_str(), vh::esc(show(r)).c_str());
    vh::count("c-strings");
}

// types which take one text reject every other number of fields
template<typename T>
static void counts(vh::Gen& g)
{
    ref::Fields f(ref::oddCount(g));
    if (g.chance(1, 10))
        f.resize(2 + g.logsize(g.chance(1, 20) ? 3000 : 300));
    for (auto& s : f)
        s = g.coin() ? "1" : ref::anyText(g);
    cc::from<T>(g, f, g.chance(1, 3));
}

static void values(vh::Gen& g)
{
    // Value: constructors, str, equality and get agree with the fields
    ref::Fields f = ref::Conv<coil::Value>::fields(g, true), h = f;
    if (g.coin())
        switch (g.below(4))
        {
        case 0:
            h.push_back(g.coin() ? "" : "x");
            break;
        case 1:
            if (!h.empty())
                h.pop_back();
            break;
        case 2:
            if (!h.empty())
                h[g.below(h.size())] += "\0";
            break;
        default:
            if (!h.empty())
                h[g.below(h.size())] += std::string(1, '\0');
        }
    ref::InputBuilder in;
    coil::Value a = in.value(f), b = in.value(h);
    VH_CHECK((a == b) == (f == h) && (a != b) == (f != h), "value-equality", "%s and %s", vh::esc(ref::showFields(f)).c_str(), vh::esc(ref::showFields(h)).c_str());
    VH_CHECK(sv(a.str()) == ref::join(f), "value-str", "%s: \"%s\"", vh::esc(ref::showFields(f)).c_str(), vh::esc(sv(a.str())).c_str());
    VH_CHECK(sv(coil::TypeSerializer<coil::Value>::toString(a)) == ref::join(f), "value-str", "%s", vh::esc(ref::showFields(f)).c_str());
    coil::Value c = a;
    coil::Value d = coil::move(c);
    c = d;
    VH_CHECK(c == a && d == a && ref::Conv<coil::Value>::canon(c) == ref::Conv<coil::Value>::canon(a), "value-copy", "%s", vh::esc(ref::showFields(f)).c_str());
    coil::Value one{in.view(ref::join(f))};
    VH_CHECK(one.subvalues.size() == 1 && sv(one.subvalues[0]) == ref::join(f), "value-single", "%s", vh::esc(ref::showFields(f)).c_str());
    auto r = coil::TypeSerializer<coil::Value>::fromString(a);
    VH_CHECK(r && &static_cast<coil::Value const&>(*r) == &a, "value-raw", "%s", vh::esc(ref::showFields(f)).c_str());
    vh::count("values");
}

void vh_warmup() {}

void vh_case(vh::Gen& g)
{
    for (int i = 0; i < 8; i++)
        switch (g.below(12))
        {
        case 0:
        case 1:
            cc::both<bool>(g);
            break;
        case 2:
            cc::both<coil::String>(g);
            break;
        case 3:
            cc::both<coil::StringView>(g);
            break;
        case 4:
            cc::from<coil::Value>(g, ref::Conv<coil::Value>::fields(g, true), g.coin());
            break;
        case 5:
            cstrings(g);
            break;
        case 6:
            values(g);
            break;
        case 7:
            switch (g.below(7))
            {
            case 0:
                counts<char>(g);
                break;
            case 1:
                counts<signed char>(g);
                break;
            case 2:
                counts<unsigned char>(g);
                break;
            case 3:
                counts<short>(g);
                break;
            case 4:
                counts<unsigned short>(g);
                break;
            case 5:
                counts<int>(g);
                break;
            default:
                counts<unsigned>(g);
            }
            break;
        case 8:
            switch (g.below(7))
            {
            case 0:
                counts<long>(g);
                break;
            case 1:
                counts<unsigned long>(g);
                break;
            case 2:
                counts<long long>(g);
                break;
            case 3:
                counts<unsigned long long>(g);
                break;
            case 4:
                counts<float>(g);
                break;
            case 5:
                counts<double>(g);
                break;
            default:
                counts<long double>(g);
            }
            break;
        case 9:
            switch (g.below(4))
            {
            case 0:
                counts<bool>(g);
                break;
            case 1:
                counts<coil::String>(g);
                break;
            case 2:
                counts<coil::StringView>(g);
                break;
            default:
                counts<std::string>(g);
            }
            break;
        case 10:
            switch (g.below(4))
            {
            case 0:
                cc::to<int>(g, ref::Conv<int>::value(g));
                break;
            case 1:
                cc::to<char>(g, ref::Conv<char>::value(g));
                break;
            case 2:
                cc::to<unsigned long long>(g, ref::Conv<unsigned long long>::value(g));
                break;
            default:
                cc::to<std::string>(g, ref::Conv<std::string>::value(g));
            }
            break;
        default:
            cc::to<double>(g, ref::Conv<double>::value(g));
        }
}

static void boolText(std::string const& s)
{
    ref::Exact e(s);
    ref::CR want = ref::Conv<bool>::conv({s});
    auto r = coil::TypeSerializer<bool>::fromString(coil::Value(cv(e)));
    VH_CHECK(r.hasValue() == want.ok && (!r || ref::Conv<bool>::canon(*r) == want.canon), "bool-enumerated", "\"%s\": %s", vh::esc(s).c_str(), r ? ref::Conv<bool>::canon(*r).c_str() : "rejected");
    vh::st().evaluations++;
    vh::count("enumerated");
}
// all letter cases; all texts one character away from them; all short texts
bool vh_mode(std::string const& m, uint64_t from, uint64_t)
{
    if (m != "enum")
        return false;
    uint64_t const parts = 16;
    uint64_t n = 0;
    for (std::string base : {"true", "false", "1", "0"})
        for (unsigned c = 0; c < (1u << base.size()); c++)
        {
            if (n++ % parts != from)
                continue;
            std::string s = base;
            for (size_t i = 0; i < s.size(); i++)
                if ((c >> i) & 1 && s[i] >= 'a')
                    s[i] = static_cast<char>(s[i] - 32);
            boolText(s);
            for (size_t i = 0; i <= s.size(); i++)
                for (int ch = 0; ch < 256; ch++)
                {
                    std::string t = s;
                    t.insert(i, 1, static_cast<char>(ch));
                    boolText(t);
                    if (i < s.size())
                    {
                        t = s;
                        t[i] = static_cast<char>(ch);
                        boolText(t);
                        t.erase(i, 1);
                        boolText(t);
                    }
                }
        }
    ref::shortTexts(from, parts, boolText);
    return true;
}
