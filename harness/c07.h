// C07: a matrix of signatures x kinds of callables; each source file instantiates a part of the signatures.
#pragma once
#include "refconv.h"

#include <functional>
#include <memory>
#include <tuple>

namespace c07
{
    // a user's type: says itself why a text is not one of it, in any words, even none
    struct Said
    {
        std::string text;
    };
}
COIL_CREATE_TYPE_NAME(c07::Said, "Said");
namespace coil
{
    template<>
    struct TypeSerializer<c07::Said>
    {
        static Expected<c07::Said, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return makeUnexpected(String(input.subvalues.size() == 0 ? "nothing" : ""));
            std::string s = ss(input.subvalues[0]);
            if (!s.empty() && s[0] == '!')
                return makeUnexpected(cs(s.substr(1)));
            return c07::Said{s};
        }
        static String toString(c07::Said const& s) { return cs(s.text); }
    };
}
namespace ref
{
    template<>
    struct Conv<c07::Said>
    {
        static std::string name() { return "Said"; }
        static CR conv(Fields const& f)
        {
            CR r;
            if (f.size() != 1)
                r.err = f.empty() ? "nothing" : "";
            else if (!f[0].empty() && f[0][0] == '!')
                r.err = f[0].substr(1);
            else
                return good("said:" + f[0]);
            return r;
        }
        static std::string canon(c07::Said const& s) { return "said:" + s.text; }
        static std::string text(c07::Said const& s) { return s.text; }
        static Fields fields(vh::Gen& g, bool valid)
        {
            if (!valid && g.chance(1, 5))
            {
                Fields f(oddCount(g));
                for (auto& s : f)
                    s = anyText(g);
                return f;
            }
            if (valid)
                return {"=" + anyText(g)};
            static char const* const words[] = {"!", "!no", "!100% %s%n", "!an error as long as it takes to leave any small buffer behind, and then some more of it", "x"};
            return {g.coin() ? std::string(g.pick(words)) : "!" + anyText(g)};
        }
    };
}
namespace c07
{
    struct Rec
    {
        int calls = 0;
        std::vector<std::string> args;
        std::string ret;
        void const* self = nullptr;
        bool ctx = false;
    };
    extern Rec rec;

    template<typename T>
    std::string canon(T const& v)
    {
        return ref::Conv<T>::canon(v);
    }

    template<typename... Ts>
    std::string record(void const* self, bool ctx, Ts const&... v)
    {
        rec.calls++;
        rec.self = self;
        rec.ctx = ctx;
        rec.args = {canon<Ts>(v)...};
        std::string all = "r";
        for (auto& s : rec.args)
            all += "|" + s;
        rec.ret = all;
        return all;
    }

    template<typename T>
    using RR = std::conditional_t<std::is_same_v<T, coil::Value>, T const&, T&&>; // the library has no Value&& parameters

    template<typename... Ts>
    struct Sig
    {
        struct Obj
        {
            long own = 5; // not empty: not at the address of an object derived from it
            std::string byValue(Ts... v) { return record<Ts...>(this, false, v...); }
            std::string constMethod(Ts const&... v) const { return record<Ts...>(this, false, v...); }
            std::string const& noexceptMethod(coil::Context, RR<Ts>... v) noexcept
            {
                record<Ts...>(this, true, v...);
                return rec.ret;
            }
            std::string lvalueRef(Ts const&... v) const& noexcept { return record<Ts...>(this, false, v...); }
            void volatileRef(Ts const&... v) const volatile { record<Ts...>(const_cast<Obj const*>(this), false, v...); }
        };
        struct Mutable
        {
            int n = 0;
            std::string operator()(coil::Context ctx, Ts const... v)
            {
                n++;
                ctx.log("");
                return record<Ts...>(nullptr, true, v...);
            }
        };
        // the method belongs to a base which is not at the object's own address
        struct Pad
        {
            long pad[3] = {1, 2, 3};
            virtual ~Pad() {}
            virtual std::string other(Ts...) { return "other"; }
        };
        struct Interface
        {
            long tag = 7;
            virtual ~Interface() {}
            virtual std::string virtualMethod(Ts... v) const
            {
                rec.calls += 100;
                return record<Ts...>(this, false, v...);
            }
        };
        struct Derived : Pad, Obj, virtual Interface
        {
            std::string virtualMethod(Ts... v) const override { return record<Ts...>(this->tag == 7 ? this : nullptr, false, v...); }
        };
        static std::string freeFunction(Ts... v) { return record<Ts...>(nullptr, false, v...); }
        static void freeNoexcept(Ts const&... v) noexcept { record<Ts...>(nullptr, false, v...); }
        static std::string* freeContext(coil::Context const& ctx, Ts... v)
        {
            record<Ts...>(nullptr, !ctx.hasErrors(), v...);
            return &rec.ret;
        }

        static constexpr int kinds = 23;

        template<size_t... I>
        static void run(vh::Gen& g, std::index_sequence<I...>)
        {
            int kind = static_cast<int>(g.below(kinds));
            Obj obj;
            Derived derived;
            void const* self = nullptr;
            bool ctx = false;
            enum
            {
                None,
                Text,
                Number
            } returns = Text;
            coil::Bindings b;
            auto proxy = b["f"];
            switch (kind)
            {
            case 0:
                proxy = [](Ts... v) { return record<Ts...>(nullptr, false, v...); };
                break;
            case 1:
                proxy = [](Ts const&... v) { return coil::fromStdString(record<Ts...>(nullptr, false, v...)); };
                break;
            case 2:
                proxy = [](RR<Ts>... v) mutable { return record<Ts...>(nullptr, false, v...); };
                break;
            case 3:
                proxy = [](coil::Context, Ts... v) { record<Ts...>(nullptr, true, v...); };
                ctx = true;
                returns = None;
                break;
            case 4:
                proxy = Mutable{};
                ctx = true;
                break;
            case 5:
                proxy = &freeFunction;
                break;
            case 6:
                proxy = &freeNoexcept;
                returns = None;
                break;
            case 7:
                proxy = &freeContext;
                ctx = true;
                break;
            case 8:
                proxy = coil::bind(&Obj::byValue, &obj);
                self = &obj;
                break;
            case 9:
                proxy = coil::bind(&Obj::constMethod, static_cast<Obj const*>(&obj));
                self = &obj;
                break;
            case 10:
                proxy = coil::bind(&Obj::constMethod, &obj);
                self = &obj;
                break;
            case 11:
                proxy = coil::bind(&Obj::noexceptMethod, &obj);
                self = &obj;
                ctx = true;
                break;
            case 12:
                proxy = coil::bind(&Obj::volatileRef, &obj);
                self = &obj;
                returns = None;
                break;
            case 13:
                proxy = std::function<std::string(Ts...)>([](Ts const&... v) { return record<Ts...>(nullptr, false, v...); });
                break;
            case 14:
                proxy = [](Ts const&... v) noexcept { return record<Ts...>(nullptr, false, v...); };
                break;
            case 21:
                proxy = coil::bind(&Obj::lvalueRef, &obj);
                self = &obj;
                break;
            case 15:
                proxy = coil::bind(&Obj::byValue, &derived);
                self = static_cast<Obj*>(&derived);
                break;
            case 16:
                proxy = coil::bind(&Obj::constMethod, static_cast<Derived const*>(&derived));
                self = static_cast<Obj*>(&derived);
                break;
            case 17:
                proxy = coil::bind(&Derived::virtualMethod, &derived);
                self = &derived;
                break;
            case 18:
                proxy = coil::bind(&Interface::virtualMethod, static_cast<Interface const*>(&derived));
                self = &derived;
                break;
            case 19:
                proxy = coil::bind(&Interface::virtualMethod, &derived);
                self = &derived;
                break;
            default:
                proxy = coil::overloaded([](Ts..., int) { rec.calls += 100; }, [](coil::Context const, Ts const&... v) { record<Ts...>(nullptr, true, v...); return static_cast<unsigned char>(sizeof...(Ts)); }, [](Ts...) { rec.calls += 1000; });
                ctx = true;
                returns = Number;
            }

            for (int round = 0; round < 3; round++)
            {
                bool allValid = g.coin();
                static uint64_t const chances[] = {0, 1, 3, 3};
                uint64_t const quarters = g.pick(chances);
                std::vector<ref::Fields> f = {ref::Conv<Ts>::fields(g, allValid || g.chance(quarters, 4))...};
                std::vector<ref::CR> want = {ref::Conv<Ts>::conv(f[I])...};
                bool open = false, all = true;
                for (auto& w : want)
                {
                    open = open || w.open;
                    all = all && w.ok;
                }
                std::vector<std::pair<std::string, ref::Fields>> named;
                if (g.chance(1, 6))
                    named.push_back({"key", {"1"}});
                rec = Rec();
                ref::Exec ex;
                auto r = ex.run(g, b, "f", f, named);
                std::string what = "callable kind " + std::to_string(kind) + ", \"" + vh::esc(ex.text) + "\"";
                vh::st().note = what.c_str();
                vh::observe(vh::hashStr(what));
                if (g.chance(1, 400))
                    vh::sample(what);
                if (open)
                    continue;
                VH_CHECK(rec.calls == (all ? 1 : 0), "calls", "%s: called %d times, should be %d; %s", what.c_str(), rec.calls, all ? 1 : 0, vh::esc(show(r)).c_str());
                if (all)
                {
                    vh::count("delivered");
                    VH_CHECK(rec.args.size() == sizeof...(Ts) && (true && ... && (rec.args[I] == want[I].canon)), "arguments", "%s: received %s", what.c_str(), vh::esc(ref::join(rec.args, " ; ")).c_str());
                    VH_CHECK(rec.self == self, "object", "%s: called on another object", what.c_str());
                    VH_CHECK(rec.ctx == ctx, "context", "%s: wrong overload", what.c_str());
                    VH_CHECK(r.errors.empty() && sv(r.output).empty(), "errors", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
                    if (returns == None)
                        VH_CHECK(!r.returnValue, "return", "%s: a void callable returned %s", what.c_str(), vh::esc(show(r)).c_str());
                    else
                    {
                        std::string expect = returns == Text ? rec.ret : std::to_string(sizeof...(Ts));
                        VH_CHECK(r.returnValue && sv(*r.returnValue) == expect, "return", "%s: %s, should return %s", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(expect).c_str());
                    }
                }
                else
                {
                    vh::count("rejected");
                    std::vector<ref::CR> errs;
                    for (auto& w : want)
                        if (!w.ok)
                            errs.push_back(w);
                    if (errs.size() > 1)
                        vh::count("several-errors");
                    bool ok = r.errors.size() == errs.size() && !r.returnValue && sv(r.output).empty();
                    std::string expect;
                    for (size_t i = 0; i < errs.size(); i++)
                    {
                        ok = ok && ref::errMatches(sv(r.errors[i]), errs[i]);
                        expect += "<" + errs[i].err + ">";
                    }
                    VH_CHECK(ok, "errors", "%s: %s, should report %s", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(expect).c_str());
                }
            }
        }
        static void run(vh::Gen& g) { run(g, std::index_sequence_for<Ts...>{}); }
    };
    template<typename... S>
    void runOne(vh::Gen& g)
    {
        using F = void (*)(vh::Gen&);
        static F const f[] = {&S::run...};
        g.pick(f)(g);
    }
    void part1(vh::Gen& g);
    void part2(vh::Gen& g);
    void part3(vh::Gen& g);
    void part4(vh::Gen& g);
    void part5(vh::Gen& g);
    void part6(vh::Gen& g);
    void part7(vh::Gen& g);
    void part8(vh::Gen& g);
}
