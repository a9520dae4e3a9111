// C08: integers, all types, against mathematical parsing.
#include <memory>
#include "refconv.h"
#include <cerrno>

template<typename T>
static void staleErrno(vh::Gen& g, T&&)
{
    static int const e[] = {0, ERANGE, EINVAL, ENOMEM, EDOM};
    errno = g.pick(e);
}

template<typename T>
struct State
{
    T last{};
    int calls = 0;
};

template<typename T>
static void one(vh::Gen& g, ref::Related& related)
{
    using C = ref::Conv<T>;
    // text -> value
    {
        ref::Fields f = C::fields(g, g.chance(1, 3));
        related.apply(g, f);
        ref::CR want = C::conv(f);
        vh::count(want.ok ? "accepted" : "rejected");
        std::string what = C::name() + " from " + ref::showFields(f);
        vh::st().note = vh::esc(what).c_str();
        vh::observe(vh::hashStr(what));
        if (g.chance(1, 50))
            vh::sample(vh::esc(what));
        ref::InputBuilder in;
        coil::Value v = in.value(f);
        if (f.size() == 1)
        {
            ref::Exact e(f[0]);
            T x = 0;
            staleErrno(g, 0);
            bool ok = coil::fromString(cv(e), x);
            VH_CHECK(ok == want.ok, ok ? "accepts" : "rejects", "fromString: %s: %s, should be %s", vh::esc(what).c_str(), ok ? "accepted" : "rejected", want.ok ? want.canon.c_str() : "rejected");
            if (ok)
                VH_CHECK(C::canon(x) == want.canon, "value", "fromString: %s: got %s, should be %s", vh::esc(what).c_str(), C::canon(x).c_str(), want.canon.c_str());
        }
        staleErrno(g, 0);
        auto r = coil::TypeSerializer<T>::fromString(v);
        VH_CHECK(r.hasValue() == want.ok, r ? "accepts" : "rejects", "%s: %s, should be %s", vh::esc(what).c_str(), r ? "accepted" : "rejected", want.ok ? want.canon.c_str() : "rejected");
        if (r)
            VH_CHECK(C::canon(*r) == want.canon, "value", "%s: got %s, should be %s", vh::esc(what).c_str(), C::canon(*r).c_str(), want.canon.c_str());
        else
            VH_CHECK(ref::errMatches(sv(r.error()), want), "error-text", "%s: error \"%s\", should be \"%s\"", vh::esc(what).c_str(), vh::esc(sv(r.error())).c_str(), vh::esc(want.err).c_str());

        // the same through a command, echoing the value
        if (g.chance(1, 4))
        {
            State<T> st;
            coil::Bindings b;
            b["f"] = [&st](T x) {
                st.calls++;
                st.last = x;
                return x;
            };
            ref::Exec ex;
            staleErrno(g, 0);
            auto res = ex.run(g, b, "f", {f});
            VH_CHECK(st.calls == (want.ok ? 1 : 0), "command-call", "%s: command called %d times", vh::esc(ex.text).c_str(), st.calls);
            if (want.ok)
            {
                VH_CHECK(C::canon(st.last) == want.canon, "command-value", "%s: command got %s, should be %s", vh::esc(ex.text).c_str(), C::canon(st.last).c_str(), want.canon.c_str());
                VH_CHECK(res.returnValue && sv(*res.returnValue) == want.canon && res.errors.empty(), "command-return", "%s: %s, should return %s", vh::esc(ex.text).c_str(), vh::esc(show(res)).c_str(), want.canon.c_str());
            }
            else
                VH_CHECK(!res.returnValue && res.errors.size() == 1 && ref::errMatches(sv(res.errors[0]), want), "command-error", "%s: %s, should fail with %s", vh::esc(ex.text).c_str(), vh::esc(show(res)).c_str(), vh::esc(want.err).c_str());
            vh::count("through-commands");
        }
    }
    // value -> text -> value
    {
        T v = C::value(g);
        std::string want = C::text(v);
        staleErrno(g, 0);
        coil::String a = coil::TypeSerializer<T>::toString(v);
        VH_CHECK(sv(a) == want, "to-string", "%s %s: textual form \"%s\"", C::name().c_str(), want.c_str(), vh::esc(sv(a)).c_str());
        auto back = coil::TypeSerializer<T>::fromString(coil::Value(coil::StringView(a)));
        VH_CHECK(back && *back == v, "round-trip", "%s %s does not convert back", C::name().c_str(), want.c_str());
        vh::observe(vh::hashStr("v" + C::name() + want));
        vh::count("round-trips");
    }
}

void vh_warmup() {}

void vh_case(vh::Gen& g)
{
    ref::Related related;
    int only = g.chance(1, 3) ? static_cast<int>(g.below(11)) : -1; // the same type again and again
    for (int i = 0; i < 8; i++)
        switch (only >= 0 ? only : static_cast<int>(g.below(11)))
        {
        case 0:
            one<char>(g, related);
            break;
        case 1:
            one<signed char>(g, related);
            break;
        case 2:
            one<unsigned char>(g, related);
            break;
        case 3:
            one<short>(g, related);
            break;
        case 4:
            one<unsigned short>(g, related);
            break;
        case 5:
            one<int>(g, related);
            break;
        case 6:
            one<unsigned>(g, related);
            break;
        case 7:
            one<long>(g, related);
            break;
        case 8:
            one<unsigned long>(g, related);
            break;
        case 9:
            one<long long>(g, related);
            break;
        default:
            one<unsigned long long>(g, related);
        }
}

// every text of up to 4 characters over a small alphabet, every short text, and every number around all 8- and 16-bit limits
template<typename T>
static void exhaustive(std::string const& s)
{
    using C = ref::Conv<T>;
    ref::Exact e(s);
    ref::CR want = C::conv({s});
    T x = 0;
    errno = ERANGE;
    bool ok = coil::fromString(cv(e), x);
    VH_CHECK(ok == want.ok && (!ok || C::canon(x) == want.canon), "value", "%s from \"%s\": %s, should be %s", C::name().c_str(), vh::esc(s).c_str(), ok ? C::canon(x).c_str() : "rejected", want.ok ? want.canon.c_str() : "rejected");
    vh::st().evaluations++;
    vh::count("enumerated");
}
template<typename T>
static void all(uint64_t from, uint64_t to)
{
    static char const alpha[] = "019+- \t.a\0";
    size_t const base = 10;
    uint64_t n = 0;
    for (size_t len = 0; len <= 4; len++)
    {
        uint64_t total = 1;
        for (size_t k = 0; k < len; k++)
            total *= base;
        for (uint64_t c = 0; c < total; c++, n++)
        {
            if (n % to != from)
                continue;
            std::string s;
            uint64_t v = c;
            for (size_t k = 0; k < len; k++, v /= base)
                s += alpha[v % base];
            exhaustive<T>(s);
        }
    }
    ref::shortTexts(from, to, [](std::string const& s) { exhaustive<T>(s); });
    for (long v = -70000; v <= 70000; v++)
        if (static_cast<uint64_t>(v + 70000) % to == from)
            exhaustive<T>(std::to_string(v));
}
bool vh_mode(std::string const& m, uint64_t from, uint64_t)
{
    if (m != "enum")
        return false;
    uint64_t const parts = 16;
    all<char>(from, parts);
    all<signed char>(from, parts);
    all<unsigned char>(from, parts);
    all<short>(from, parts);
    all<unsigned short>(from, parts);
    all<int>(from, parts);
    all<unsigned>(from, parts);
    all<long>(from, parts);
    all<unsigned long>(from, parts);
    all<long long>(from, parts);
    all<unsigned long long>(from, parts);
    return true;
}
