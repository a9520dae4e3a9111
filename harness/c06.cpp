// C06: overload choice by the number of positional arguments.
#include "refconv.h"

#include <memory>
#include <utility>

struct Log
{
    std::vector<int> calls;
    std::vector<size_t> got;
};
static Log* theLog;

template<size_t>
using IntArg = int;
template<size_t>
using StrArg = coil::StringView;
template<size_t>
using ValArg = coil::Value const&;

template<template<size_t> class A, size_t... I>
static coil::AnyFunctor makeN(int id, bool ctx, bool ret, std::index_sequence<I...>)
{
    auto one = [](coil::Vector<coil::AnyFunctor> v) { return coil::AnyFunctor(coil::move(v[0])); };
    auto hit = [id]() {
        theLog->calls.push_back(id);
        theLog->got.push_back(sizeof...(I));
    };
    if (ctx)
        return ret ? one(coil::overloaded([hit, id](coil::Context, A<I>...) { hit(); return id; })) : one(coil::overloaded([hit](coil::Context, A<I>...) { hit(); }));
    return ret ? one(coil::overloaded([hit, id](A<I>...) { hit(); return id; })) : one(coil::overloaded([hit](A<I>...) { hit(); }));
}
template<template<size_t> class A>
static coil::AnyFunctor make(size_t arity, int id, bool ctx, bool ret)
{
    switch (arity)
    {
#define N(n) \
    case n:  \
        return makeN<A>(id, ctx, ret, std::make_index_sequence<n>())
        N(0);
        N(1);
        N(2);
        N(3);
        N(4);
        N(5);
        N(6);
        N(7);
        N(8);
    default:
        return makeN<A>(id, ctx, ret, std::make_index_sequence<12>());
#undef N
    }
}
struct Over
{
    size_t arity;
    bool ints;   // parameters are integers
    bool ret;
    int id;
    bool raw = false; // parameters are raw values
};

static std::string expectedText(std::vector<Over> const& o)
{
    std::string s;
    for (size_t i = 0; i < o.size(); i++)
        s += (i == 0 ? "" : i + 1 == o.size() ? " or " : ", ") + std::to_string(o[i].arity);
    return s;
}

static void judge(vh::Gen& g, coil::Bindings& b, std::string const& name, std::vector<Over> const& os, size_t n, bool convertible, bool named, bool preferText)
{
    Log log;
    theLog = &log;
    std::vector<ref::Fields> args;
    bool compound = false;
    size_t badAt = convertible || !n ? n : g.below(n);
    for (size_t i = 0; i < n; i++)
        args.push_back({i == badAt ? "xyz" : std::to_string(i)});
    if (n && convertible && g.chance(1, 10)) // a compound argument is still one argument
        args[0] = {"1", "2"}, badAt = 0, compound = true;
    std::vector<std::pair<std::string, ref::Fields>> nm;
    if (named)
        for (size_t i = 0; i < 1 + g.below(3); i++)
            nm.push_back({"k" + std::to_string(i), {"1"}});
    ref::Exec ex;
    auto r = ex.run(g, b, name, args, nm, preferText);
    Over const* want = nullptr;
    for (auto& o : os)
        if (o.arity == n)
        {
            want = &o;
            break;
        }
    std::string what = "overloads " + expectedText(os) + ", \"" + vh::esc(ex.text) + "\"";
    vh::count(os.empty() ? "no-overloads" : want ? "matching" : "wrong-count");
    if (!want)
    {
        VH_CHECK(log.calls.empty(), "called", "%s: overload %d was called", what.c_str(), log.calls[0]);
        std::string msg = "Wrong number of arguments to '" + name + "': expected " + expectedText(os) + ", got " + std::to_string(n);
        bool ok = r.errors.size() == 1 && !r.returnValue && sv(r.output).empty();
        if (ok)
            ok = name.find('\0') == std::string::npos ? sv(r.errors[0]) == msg : sv(r.errors[0]).substr(0, 30) == "Wrong number of arguments to '";
        VH_CHECK(ok, "message", "%s: %s, should fail with %s", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(msg).c_str());
        return;
    }
    bool fails = compound ? !want->raw : want->ints && badAt < n;
    if (fails)
    {
        vh::count("chosen-fails-to-convert");
        VH_CHECK(log.calls.empty(), "called", "%s: an argument does not convert but overload %d was called", what.c_str(), log.calls[0]);
        VH_CHECK(r.errors.size() == 1 && !r.returnValue, "message", "%s: %s, should report one conversion error", what.c_str(), vh::esc(show(r)).c_str());
        return;
    }
    VH_CHECK(log.calls.size() == 1 && log.calls[0] == want->id && log.got[0] == n, "choice", "%s: %zu calls (first %d), should call overload %d", what.c_str(), log.calls.size(), log.calls.empty() ? -1 : log.calls[0], want->id);
    VH_CHECK(r.errors.empty() && (want->ret ? r.returnValue && sv(*r.returnValue) == std::to_string(want->id) : !r.returnValue), "result", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
}

void vh_warmup() {}

void vh_case(vh::Gen& g)
{
    coil::Bindings b;
    b["other"] = []() { theLog->calls.push_back(-5); };
    static std::string const names[] = {"f", "object.method", "two words", "%s%d%n", "long" + std::string(200, 'x'), std::string("a\0b", 3), "quo'te"};
    std::string name = g.chance(1, 30) ? std::string(1 + g.logsize(6000), static_cast<char>('a' + g.below(26))) : g.pick(names);
    std::vector<Over> os;
    coil::Vector<coil::AnyFunctor> v;
    size_t k = g.chance(1, 30) ? 0 : g.chance(1, 10) ? g.logsize(40) : 1 + g.below(5);
    size_t maxArity = 1 + g.below(9);
    for (size_t i = 0; i < k; i++)
    {
        Over o{g.below(maxArity + 1), g.coin(), g.coin(), static_cast<int>(i)};
        if (o.arity > 8)
            o.arity = 12;
        bool ctx = g.coin();
        o.raw = !o.ints && g.coin();
        v.pushBack(o.ints ? make<IntArg>(o.arity, o.id, ctx, o.ret) : !o.raw ? make<StrArg>(o.arity, o.id, ctx, o.ret) : make<ValArg>(o.arity, o.id, ctx, o.ret));
        os.push_back(o);
    }
    if (g.coin())
        b[cv(name)] = coil::move(v);
    else
        b.add(cv(name), coil::move(v));
    if (g.chance(1, 40))
        vh::sample(expectedText(os));
    for (int i = 0; i < 6; i++)
    {
        size_t n = !os.empty() && g.coin() ? g.pick(os).arity : g.below(14);
        vh::st().note = (expectedText(os) + " with " + std::to_string(n)).c_str();
        judge(g, b, name, os, n, g.chance(2, 3), g.chance(1, 4), true);
        uint64_t h = n;
        for (auto& o : os)
            h = vh::mix(h * 13 + o.arity * 4 + (o.ints ? 2 : 0) + (o.ret ? 1 : 0));
        vh::observe(h);
    }
}

// every sequence of up to three overloads with up to 3 parameters, every argument count up to 4
bool vh_mode(std::string const& m, uint64_t from, uint64_t)
{
    if (m != "enum")
        return false;
    uint64_t idx = 0;
    vh::Gen g(vh::caseSeed(from));
    for (size_t k = 0; k <= 3; k++)
    {
        size_t total = 1;
        for (size_t i = 0; i < k; i++)
            total *= 8; // arity 0..3, context or not
        for (size_t c = 0; c < total; c++)
        {
            if (idx++ % 16 != from)
                continue;
            coil::Bindings b;
            std::vector<Over> os;
            coil::Vector<coil::AnyFunctor> v;
            size_t x = c;
            for (size_t i = 0; i < k; i++, x /= 8)
            {
                Over o{x % 4, true, true, static_cast<int>(i)};
                v.pushBack(make<IntArg>(o.arity, o.id, (x % 8) >= 4, true));
                os.push_back(o);
            }
            b["f"] = coil::move(v);
            for (size_t n = 0; n <= 4; n++)
                for (int conv = 0; conv < 2; conv++)
                    for (int text = 0; text < 2; text++)
                    {
                        judge(g, b, "f", os, n, conv == 0, false, text == 0);
                        vh::st().evaluations++;
                        vh::count("enumerated");
                    }
        }
    }
    return true;
}
