// Checks of the conversions of one type against the reference model (refconv.h), through every public way.
#pragma once
#include <memory>
#include "refconv.h"

#include <cerrno>

namespace cc
{
    template<typename T>
    std::string canonOf(T const& v)
    {
        return ref::Conv<T>::canon(v);
    }

    template<typename T>
    void verdict(bool has, std::string const& got, std::string_view error, ref::CR const& want, std::string const& what, char const* where)
    {
        VH_CHECK(has == want.ok, has ? "accepts" : "rejects", "%s: %s: %s, should be %s", where, vh::esc(what).c_str(), has ? ("gives " + vh::esc(got)).c_str() : vh::esc(error).c_str(), want.ok ? vh::esc(want.canon).c_str() : "rejected");
        if (has)
            VH_CHECK(got == want.canon, "value", "%s: %s: got %s, should be %s", where, vh::esc(what).c_str(), vh::esc(got).c_str(), vh::esc(want.canon).c_str());
        else
            VH_CHECK(ref::errMatches(error, want), "error-text", "%s: %s: error \"%s\", should be \"%s\"", where, vh::esc(what).c_str(), vh::esc(error).c_str(), vh::esc(want.err).c_str());
    }

    // fields -> value
    template<typename T>
    void from(vh::Gen& g, ref::Fields const& f, bool command)
    {
        using C = ref::Conv<T>;
        ref::CR want = C::conv(f);
        std::string what = C::name() + " from " + ref::showFields(f);
        vh::st().note = vh::esc(what).c_str();
        vh::observe(vh::hashStr(what + (std::is_same_v<T, coil::String> ? "c" : "")));
        if (g.chance(1, 60))
            vh::sample(vh::esc(what));
        if (want.open)
            return;
        vh::count(want.ok ? "accepted" : "rejected");
        if (f.size() != 1)
            vh::count("odd-counts");
        {
            ref::InputBuilder in;
            coil::Value v = in.value(f);
            errno = g.coin() ? ERANGE : 0;
            if (g.coin())
            {
                auto r = coil::TypeSerializer<T>::fromString(v);
                std::string got;
                if (r)
                {
                    T const& x = *r;
                    got = C::canon(x);
                }
                verdict<T>(r.hasValue(), got, r ? std::string_view() : sv(r.error()), want, what, "TypeSerializer");
            }
            else if constexpr (!std::is_same_v<T, coil::Value>)
            {
                auto r = v.template get<T>();
                verdict<T>(r.hasValue(), r ? C::canon(*r) : "", r ? std::string_view() : sv(r.error()), want, what, "Value::get");
            }
        }
        if (!command)
            return;
        vh::count("through-commands");
        int calls = 0;
        std::string got;
        bool returns = true;
        coil::Bindings b;
        std::vector<ref::Fields> args = {f};
        std::vector<std::pair<std::string, ref::Fields>> named;
        bool throughNamed = false;
        std::unique_ptr<T> keep;
        switch (g.below(std::is_same_v<T, coil::Value> ? 4 : 6))
        {
        case 0:
            b["f"] = [&](T x) {
                calls++;
                got = C::canon(x);
                return x;
            };
            break;
        case 1:
            b["f"] = [&](T const& x) -> T const& {
                calls++;
                got = C::canon(x);
                return x;
            };
            break;
        case 2:
            b["f"] = [&](T const& x) -> T* {
                calls++;
                got = C::canon(x);
                keep = std::make_unique<T>(x);
                return keep.get();
            };
            break;
        case 3:
            b["f"] = [&](T x) -> T const* {
                calls++;
                got = C::canon(x);
                keep = std::make_unique<T>(x);
                return keep.get();
            };
            break;
        default:
            if constexpr (!std::is_same_v<T, coil::Value>)
            {
                throughNamed = true;
                returns = false;
                args.clear();
                named.push_back({"key", f});
                b["f"] = [&](coil::Context ctx) {
                    calls++;
                    auto a = ctx.namedArgs();
                    if (auto v = a.template get<T>("key"))
                    {
                        got = C::canon(*v);
                        auto w = a.template getOrReport<T>("key", coil::NamedArgs::ArgType::Required);
                        VH_CHECK(w.hasValue() && C::canon(*w) == got, "named-twice", "the two lookups differ: %s", vh::esc(what).c_str());
                    }
                    else
                        ctx.reportError(v.error().message);
                };
            }
        }
        std::vector<std::string> errs;
        bool hasRet;
        std::string ret;
        {
            ref::Exec ex;
            auto r = ex.run(g, b, "f", args, named);
            for (auto& e : r.errors)
                errs.push_back(ss(e));
            hasRet = r.returnValue.hasValue();
            if (hasRet)
                ret = ss(*r.returnValue);
            what += " in \"" + ex.text + "\"";
        }
        VH_CHECK(calls == ((want.ok || throughNamed) ? 1 : 0), "command-calls", "%s: called %d times", vh::esc(what).c_str(), calls);
        VH_CHECK(errs.size() == (want.ok ? 0u : 1u), "command-errors", "%s: %zu errors", vh::esc(what).c_str(), errs.size());
        verdict<T>(want.ok, got, want.ok ? "" : errs[0], want, what, "command");
        VH_CHECK(hasRet == (want.ok && returns), "command-return", "%s: %s return value", vh::esc(what).c_str(), hasRet ? "unexpected" : "no");
        if (hasRet)
        {
            // got is the canonical form: compare with the reference's text of the same value
            ref::InputBuilder in;
            coil::Value v = in.value(f);
            auto x = coil::TypeSerializer<T>::fromString(v);
            T const& y = *x;
            VH_CHECK(ret == C::text(y), "command-return-text", "%s: returned \"%s\", should be \"%s\"", vh::esc(what).c_str(), vh::esc(ret).c_str(), vh::esc(C::text(y)).c_str());
        }
    }

    // value -> text
    template<typename T>
    void to(vh::Gen& g, T const& v)
    {
        using C = ref::Conv<T>;
        std::string want = C::text(v);
        std::string what = C::name() + " with text " + vh::esc(want);
        vh::st().note = what.c_str();
        vh::count("to-text");
        coil::String a = coil::TypeSerializer<T>::toString(v);
        VH_CHECK(sv(a) == want, "to-string", "%s: \"%s\"", what.c_str(), vh::esc(sv(a)).c_str());
        T const* p = &v;
        T* q = const_cast<T*>(p);
        T** pp = &q;
        T* null = nullptr;
        T const* cnull = nullptr;
        VH_CHECK(sv(coil::TypeSerializer<T*>::toString(q)) == want, "pointer", "%s through a pointer", what.c_str());
        VH_CHECK(sv(coil::TypeSerializer<T**>::toString(pp)) == want, "pointer", "%s through two pointers", what.c_str());
        VH_CHECK(sv(coil::TypeSerializer<T*>::toString(null)) == "null", "null", "a null pointer to %s", C::name().c_str());
        VH_CHECK(sv(coil::TypeSerializer<T**>::toString(&null)) == "null", "null", "a pointer to a null pointer to %s", C::name().c_str());
        if constexpr (!std::is_same_v<T, char>) // char const* is a C string
        {
            VH_CHECK(sv(coil::TypeSerializer<T const*>::toString(p)) == want, "pointer", "%s through a pointer to const", what.c_str());
            VH_CHECK(sv(coil::TypeSerializer<T const*>::toString(cnull)) == "null", "null", "a null pointer to const %s", C::name().c_str());
        }
        vh::count("pointers");
        // returned from a command
        coil::Bindings b;
        bool isNull = false;
        switch (g.below(7))
        {
        case 0:
            b["f"] = [&v]() { return v; };
            break;
        case 1:
            b["f"] = [&v]() -> T const& { return v; };
            break;
        case 2:
            b["f"] = [q]() -> T& { return *q; };
            break;
        case 3:
            b["f"] = [q]() { return q; };
            break;
        case 4:
            if constexpr (!std::is_same_v<T, char>)
                b["f"] = [p]() { return p; };
            else
                b["f"] = [q]() { return q; };
            break;
        case 5:
            b["f"] = [null]() { return null; };
            isNull = true;
            break;
        default:
            b["f"] = [q]() -> T* const { return q; };
        }
        auto r = b.execute("f");
        VH_CHECK(r.returnValue && r.errors.empty() && sv(*r.returnValue) == (isNull ? "null" : want), "returned", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
    }

    template<typename T>
    void both(vh::Gen& g)
    {
        from<T>(g, ref::Conv<T>::fields(g, g.coin()), g.chance(1, 3));
        if constexpr (!std::is_same_v<T, coil::Value>)
            if (g.chance(1, 3))
                to<T>(g, ref::Conv<T>::value(g));
    }
}
