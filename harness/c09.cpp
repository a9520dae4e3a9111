// C09: floating-point types.
#include "refconv.h"
#include <cerrno>

void vh_warmup() {}

// every short text
template<typename T>
static void enumerated(std::string const& s)
{
    using C = ref::Conv<T>;
    ref::Exact e(s);
    ref::CR want = C::conv({s});
    if (want.open)
        return;
    T x = 0;
    errno = ERANGE;
    bool ok = coil::fromString(cv(e), x);
    VH_CHECK(ok == want.ok && (!ok || C::canon(x) == want.canon), "value", "%s from \"%s\": %s, should be %s", C::name().c_str(), vh::esc(s).c_str(), ok ? C::canon(x).c_str() : "rejected", want.ok ? want.canon.c_str() : "rejected");
    vh::st().evaluations++;
    vh::count("enumerated");
}
bool vh_mode(std::string const& m, uint64_t from, uint64_t)
{
    if (m != "enum")
        return false;
    ref::shortTexts(from, 16, [](std::string const& s) {
        enumerated<float>(s);
        enumerated<double>(s);
        enumerated<long double>(s);
    });
    return true;
}

static void staleErrno(vh::Gen& g)
{
    static int const e[] = {0, ERANGE, EINVAL, ENOMEM, EDOM};
    errno = g.pick(e);
}

template<typename T>
static void one(vh::Gen& g, ref::Related& related)
{
    using C = ref::Conv<T>;
    {
        ref::Fields f = g.chance(1, 3) ? ref::Fields{C::number(g)} : C::fields(g, g.coin());
        related.apply(g, f);
        ref::CR want = C::conv(f);
        std::string what = C::name() + " from " + ref::showFields(f);
        vh::st().note = vh::esc(what).c_str();
        vh::observe(vh::hashStr(what), !want.open);
        vh::count(want.open ? "subnormal-left-open" : want.ok ? "accepted" : "rejected");
        if (g.chance(1, 50))
            vh::sample(vh::esc(what));
        ref::InputBuilder in;
        coil::Value v = in.value(f);
        if (f.size() == 1)
        {
            ref::Exact e(f[0]);
            T x = 0;
            staleErrno(g);
            bool ok = coil::fromString(cv(e), x);
            if (!want.open)
            {
                VH_CHECK(ok == want.ok, ok ? "accepts" : "rejects", "fromString: %s: %s, should be %s", vh::esc(what).c_str(), ok ? "accepted" : "rejected", want.ok ? want.canon.c_str() : "rejected");
                if (ok)
                    VH_CHECK(C::canon(x) == want.canon, "value", "fromString: %s: got %s, should be %s", vh::esc(what).c_str(), C::canon(x).c_str(), want.canon.c_str());
            }
        }
        staleErrno(g);
        auto r = coil::TypeSerializer<T>::fromString(v);
        if (!want.open)
        {
            VH_CHECK(r.hasValue() == want.ok, r ? "accepts" : "rejects", "%s: %s, should be %s", vh::esc(what).c_str(), r ? "accepted" : "rejected", want.ok ? want.canon.c_str() : "rejected");
            if (r)
                VH_CHECK(C::canon(*r) == want.canon, "value", "%s: got %s, should be %s", vh::esc(what).c_str(), C::canon(*r).c_str(), want.canon.c_str());
            else
                VH_CHECK(ref::errMatches(sv(r.error()), want), "error-text", "%s: error \"%s\", should be \"%s\"", vh::esc(what).c_str(), vh::esc(sv(r.error())).c_str(), vh::esc(want.err).c_str());
        }
        if (!want.open && g.chance(1, 3))
        {
            coil::Bindings b;
            int calls = 0;
            T last = 0;
            b["f"] = [&](T x) {
                calls++;
                last = x;
                return x;
            };
            ref::Exec ex;
            staleErrno(g);
            auto res = ex.run(g, b, "f", {f});
            VH_CHECK(calls == (want.ok ? 1 : 0), "command-call", "%s: command called %d times", vh::esc(ex.text).c_str(), calls);
            if (want.ok)
            {
                VH_CHECK(C::canon(last) == want.canon, "command-value", "%s: command got %s, should be %s", vh::esc(ex.text).c_str(), C::canon(last).c_str(), want.canon.c_str());
                VH_CHECK(res.returnValue && sv(*res.returnValue) == C::text(last) && res.errors.empty(), "command-return", "%s: %s, should return %s", vh::esc(ex.text).c_str(), vh::esc(show(res)).c_str(), C::text(last).c_str());
            }
            else
                VH_CHECK(!res.returnValue && res.errors.size() == 1 && ref::errMatches(sv(res.errors[0]), want), "command-error", "%s: %s, should fail with %s", vh::esc(ex.text).c_str(), vh::esc(show(res)).c_str(), vh::esc(want.err).c_str());
            vh::count("through-commands");
        }
    }
    {
        T v = C::value(g);
        std::string want = C::text(v);
        staleErrno(g);
        coil::String a = coil::TypeSerializer<T>::toString(v);
        coil::String a2 = coil::toString(v);
        VH_CHECK(sv(a) == want && sv(a2) == want, "to-string", "%s %s: textual form \"%s\"/\"%s\", should be \"%s\"", C::name().c_str(), C::canon(v).c_str(), vh::esc(sv(a)).c_str(), vh::esc(sv(a2)).c_str(), want.c_str());
        auto back = coil::TypeSerializer<T>::fromString(coil::Value(coil::StringView(a)));
        vh::observe(vh::hashStr("v" + C::name() + C::canon(v)));
        vh::count("round-trips");
        if (std::isnan(v))
            VH_CHECK(back && std::isnan(*back), "round-trip", "%s nan does not convert back", C::name().c_str());
        else if (std::isinf(v))
            VH_CHECK(back && *back == v, "round-trip", "%s inf does not convert back", C::name().c_str());
        else if (std::fabs(static_cast<long double>(v)) < std::numeric_limits<T>::max() * 0.9999L) // the rounded form of the largest values overflows
        {
            long double l = static_cast<long double>(v);
            long double tol = std::fabs(l) < 1e-6L ? 1e-6L : std::fabs(l) * 5.1e-6L;
            VH_CHECK(back.hasValue(), "round-trip", "%s %s: \"%s\" does not convert back", C::name().c_str(), C::canon(v).c_str(), want.c_str());
            VH_CHECK(std::fabs(static_cast<long double>(*back) - l) <= tol, "round-trip", "%s %s: \"%s\" converts back to %s", C::name().c_str(), C::canon(v).c_str(), want.c_str(), C::canon(*back).c_str());
        }
    }
}

void vh_case(vh::Gen& g)
{
    ref::Related related;
    int only = g.chance(1, 3) ? static_cast<int>(g.below(11)) : -1; // the same type again and again
    for (int i = 0; i < 6; i++)
        switch (only >= 0 ? only % 3 : static_cast<int>(g.below(3)))
        {
        case 0:
            one<float>(g, related);
            break;
        case 1:
            one<double>(g, related);
            break;
        default:
            one<long double>(g, related);
        }
}
