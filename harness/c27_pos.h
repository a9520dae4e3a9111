#pragma once
#include "c27.h"

namespace c27
{
    inline void expectTo(std::vector<std::pair<char, long>> const& want, std::string const& what)
    {
        bool same = st.to.size() == want.size();
        std::string w;
        for (size_t i = 0; i < want.size(); i++)
        {
            same = same && st.to[i].tag == want[i].first && st.to[i].serial == want[i].second;
            w += std::string(1, want[i].first) + std::to_string(want[i].second) + " ";
        }
        VH_CHECK(same, "serializer-calls", "%s: values turned to text: %s, should be: %s", what.c_str(), toCalls().c_str(), w.c_str());
        vh::count("to-text", want.size());
    }
    template<typename T>
    void returned(vh::Gen& g)
    {
        using U = User<T>;
        char const tag = U::tag;
        coil::Bindings b;
        long s = static_cast<long>(g.below(1000)) + 1;
        T kept = U::make(s);
        std::string want = textOf(tag, s);
        std::vector<std::pair<char, long>> calls = {{tag, s}};
        int kind = static_cast<int>(g.below(12));
        bool errors = false;
        std::vector<T> many;
        std::optional<T> some;
        struct Obj
        {
            T* v;
            T const& get() const { return *v; }
            T make() { return U::make(U::serial(*v)); }
        } obj{&kept};
        switch (kind)
        {
        case 0:
            b["f"] = [s] { return U::make(s); };
            break;
        case 1:
            b["f"] = [&]() -> T const& { return kept; };
            break;
        case 2:
            b["f"] = [&]() -> T& { return kept; };
            break;
        case 3:
            b["f"] = [&] { return &kept; };
            break;
        case 4:
            b["f"] = [&]() -> T const* { return &kept; };
            break;
        case 5:
            b["f"] = []() -> T const* { return nullptr; };
            want = "null";
            calls.clear();
            break;
        case 6:
            want = "[";
            calls.clear();
            for (size_t n = g.below(5); n; n--)
            {
                s++;
                want += (many.empty() ? "" : ", ") + textOf(tag, s);
                many.push_back(U::make(s));
                calls.push_back({tag, s});
            }
            want += "]";
            b["f"] = [&]() -> std::vector<T> const& { return many; };
            break;
        case 7:
            if (g.coin())
                some = U::make(s);
            else
            {
                want = "";
                calls.clear();
            }
            b["f"] = [&]() -> std::optional<T> const& { return some; };
            break;
        case 8:
            b["f"] = coil::bind(&Obj::get, static_cast<Obj const*>(&obj));
            break;
        case 9:
            b["f"] = coil::bind(&Obj::make, &obj);
            break;
        case 10:
            b["f"] = [&](coil::Context ctx) -> T const& {
                ctx.log("output");
                ctx.reportError("an error");
                return kept;
            };
            errors = true;
            break;
        default:
            b["f"] = [&](coil::Context) -> T&& { return std::move(kept); };
        }
        begin();
        ref::Exec ex;
        auto r = ex.run(g, b, "f", {});
        std::string what = "return kind " + std::to_string(kind) + " of " + std::string(1, tag) + std::to_string(s);
        vh::observe(vh::hashStr(what));
        vh::count("returned");
        if (errors)
        {
            VH_CHECK(!r.returnValue && r.errors.size() == 1 && st.to.size() <= 1, "return", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
            return;
        }
        VH_CHECK(r.errors.empty() && r.returnValue && sv(*r.returnValue) == want, "return", "%s: %s, should return %s", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(want).c_str());
        expectTo(calls, what);
        checkCalls({}, what);
    }

    template<typename T>
    void variables(vh::Gen& g) // copyable types
    {
        using U = User<T>;
        char const tag = U::tag;
        struct Obj
        {
            T v = U::make(1);
            int sets = 0;
            T const& get() const { return v; }
            T copy() { return v; }
            void set(T const& x)
            {
                sets++;
                v = x;
            }
        } o;
        coil::Bindings b;
        int kind = static_cast<int>(g.below(8));
        bool readOnly = false, setterTakesAny = false;
        switch (kind)
        {
        case 0:
            b["v"] = coil::variable(&o.v);
            break;
        case 1:
            b["v"] = coil::variable(static_cast<T const*>(&o.v));
            readOnly = true;
            break;
        case 2:
            b["v"] = coil::property([&]() -> T const& { return o.v; }, [&](T const& x) { o.set(x); });
            break;
        case 3:
            b["v"] = coil::property([&] { return o.v; }, [&](T x) { o.set(x); });
            break;
        case 4:
            b["v"] = coil::property([&]() -> T const& { return o.v; });
            readOnly = setterTakesAny = true;
            break;
        case 5:
            b["v"] = coil::bindProperty(&Obj::get, &Obj::set, &o);
            break;
        case 6:
            b["v"] = coil::bindProperty(&Obj::copy, &Obj::set, &o);
            break;
        default:
            b["v"] = coil::bindProperty(&Obj::get, static_cast<Obj const*>(&o));
            readOnly = true;
        }
        for (int i = 0; i < 4; i++)
        {
            long before = U::serial(o.v);
            begin();
            ref::Exec ex;
            std::string what = "variable kind " + std::to_string(kind) + " of " + tag;
            vh::count("variables");
            if (g.coin())
            {
                auto r = ex.run(g, b, "v", {});
                VH_CHECK(r.errors.empty() && r.returnValue && sv(*r.returnValue) == textOf(tag, before) && U::serial(o.v) == before, "read", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
                checkCalls({}, what);
                expectTo({{tag, before}}, what);
                continue;
            }
            Fields f = X<T>::fields(g);
            Expect e;
            CR want = X<T>::conv(f, e);
            if (setterTakesAny)
                e.calls.clear();
            auto r = ex.run(g, b, "v", {f});
            what += ", \"" + vh::esc(ex.text) + "\"";
            vh::observe(vh::hashStr(what, st.salt));
            checkCalls(e, what);
            if (setterTakesAny || (readOnly && want.ok))
            {
                VH_CHECK(U::serial(o.v) == before && !r.returnValue && r.errors.size() == 1 && sv(r.errors[0]).find("read-only") != std::string_view::npos && st.to.size() <= 1, "read-only", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
                continue;
            }
            if (!want.ok)
            {
                VH_CHECK(U::serial(o.v) == before && !r.returnValue && r.errors.size() == 1 && errorIs(sv(r.errors[0]), want) && st.to.empty(), "error-text", "%s: %s, should be the error '%s'", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(want.err).c_str());
                continue;
            }
            long now = st.from[0].serial;
            VH_CHECK(U::serial(o.v) == now, "value", "%s: holds %ld, should be %ld", what.c_str(), U::serial(o.v), now);
            VH_CHECK(r.errors.empty() && r.returnValue && sv(*r.returnValue) == textOf(tag, now), "return", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
            expectTo({{tag, now}}, what);
        }
    }

    // named arguments and raw values
    template<typename T>
    void lookups(vh::Gen& g)
    {
        std::vector<std::pair<std::string, Fields>> named;
        for (size_t n = g.below(5); n; n--)
            named.emplace_back(std::string(1, "abc"[g.below(3)]), X<T>::fields(g));
        std::string key(1, "abc"[g.below(3)]);
        Fields const* first = nullptr;
        for (auto& kv : named)
            if (kv.first == key)
            {
                first = &kv.second;
                break;
            }
        Expect e;
        CR want;
        if (first)
            want = X<T>::conv(*first, e);
        coil::Bindings b;
        int how = static_cast<int>(g.below(std::is_copy_constructible_v<T> ? 5 : 3));
        bool ran = false;
        std::string what;
        b["f"] = [&](coil::Context ctx, coil::Value const& arg) {
            ran = true;
            auto args = ctx.namedArgs();
            ref::Exact k(key);
            switch (how)
            {
            case 0:
            {
                auto v = args.get<T>(cv(k));
                VH_CHECK(v.hasValue() == (first && want.ok), "named", "%s: has a value: %d", what.c_str(), v.hasValue());
                if (v)
                    VH_CHECK(X<T>::canon(*v) == want.canon, "value", "%s: another value", what.c_str());
                else if (first)
                    VH_CHECK(v.error().type == coil::NamedArgs::Error::Type::TypeMismatch && errorIs(sv(v.error().message), want), "error-text", "%s: '%s', should be '%s'", what.c_str(), vh::esc(sv(v.error().message)).c_str(), vh::esc(want.err).c_str());
                break;
            }
            case 1:
                if (first)
                {
                    auto raw = args.get(cv(k));
                    VH_CHECK(raw.hasValue(), "named", "%s: not found", what.c_str());
                    auto v = static_cast<coil::Value const&>(*raw).template get<T>();
                    VH_CHECK(v.hasValue() == want.ok, "named", "%s: has a value: %d", what.c_str(), v.hasValue());
                    if (v)
                        VH_CHECK(X<T>::canon(*v) == want.canon, "value", "%s: another value", what.c_str());
                    else
                        VH_CHECK(errorIs(sv(v.error()), want), "error-text", "%s: '%s', should be '%s'", what.c_str(), vh::esc(sv(v.error())).c_str(), vh::esc(want.err).c_str());
                }
                break;
            case 2: // the positional argument, as a raw value
            {
                auto v = arg.get<T>();
                VH_CHECK(v.hasValue() == want.ok, "raw", "%s: has a value: %d", what.c_str(), v.hasValue());
                if (v)
                    VH_CHECK(X<T>::canon(*v) == want.canon, "value", "%s: another value", what.c_str());
                break;
            }
            default:
                if constexpr (std::is_copy_constructible_v<T>)
                {
                    auto v = args.getOrReport<T>(cv(k), how == 3 ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional);
                    VH_CHECK(v.hasValue() == (first && want.ok), "named", "%s: has a value: %d", what.c_str(), v.hasValue());
                    if (v)
                        VH_CHECK(X<T>::canon(*v) == want.canon, "value", "%s: another value", what.c_str());
                }
            }
        };
        std::vector<Fields> args = {{"x"}};
        if (how == 2)
        {
            args[0] = X<T>::fields(g);
            e.calls.clear();
            want = X<T>::conv(args[0], e);
        }
        if (how == 1 && !first)
            e.calls.clear();
        begin();
        ref::Exec ex;
        what = "lookup " + std::to_string(how) + " of " + X<T>::name() + " '" + key + "'";
        auto r = ex.run(g, b, "f", args, named);
        what += ", \"" + vh::esc(ex.text) + "\"";
        vh::observe(vh::hashStr(what, st.salt));
        vh::count("lookups");
        VH_CHECK(ran, "called", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
        checkCalls(e, what);
        if (how >= 3 && first && !want.ok)
            VH_CHECK(r.errors.size() == 1 && errorIs(sv(r.errors[0]), want), "error-text", "%s: %s, should be '%s'", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(want.err).c_str());
        else if (how == 3 && !first)
            VH_CHECK(r.errors.size() == 1 && sv(r.errors[0]) == "Missing named argument '" + key + "'", "error-text", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
        else
            VH_CHECK(r.errors.empty(), "errors", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
    }
}
