// A registry with commands of every kind the library supports, all of them safe for every input.
#pragma once

#include "coilcmp.h"

#include <functional>
#include <optional>
#include <stdexcept>

namespace world
{
    enum class Color
    {
        Red,
        Green
    };
    struct Point
    {
        double x = 0, y = 0;
    };
}
COIL_CREATE_TYPE_NAME(world::Color, "Color");
COIL_CREATE_TYPE_NAME(world::Point, "Point");
namespace coil
{
    template<>
    struct TypeSerializer<world::Color>
    {
        static Expected<world::Color, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<world::Color>(input, 1);
            if (input.subvalues[0] == "red")
                return world::Color::Red;
            if (input.subvalues[0] == "green")
                return world::Color::Green;
            return errors::createGenericError<world::Color>(input, "Possible values are 'red', 'green'");
        }
        static String toString(world::Color const& c) { return c == world::Color::Red ? "red" : "green"; }
    };
    template<>
    struct TypeSerializer<world::Point>
    {
        static Expected<world::Point, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<world::Point>(input, 2);
            auto x = TypeSerializer<double>::fromString(input.subvalues[0]);
            if (!x)
                return errors::createGenericError<world::Point>(input, coil::move(x).error());
            auto y = TypeSerializer<double>::fromString(input.subvalues[1]);
            if (!y)
                return errors::createGenericError<world::Point>(input, coil::move(y).error());
            world::Point p;
            p.x = *x;
            p.y = *y;
            return p;
        }
        static String toString(world::Point const& p) { return coil::sprintf("(%g, %g)", p.x, p.y); }
    };
}

namespace world
{
    inline int freeSum(int a, int b) { return static_cast<int>(static_cast<unsigned>(a) + static_cast<unsigned>(b)); }
    inline void freeNothing() noexcept {}

    struct Object
    {
        int counter = 0;
        std::string name = "obj";
        double speed = 1;
        int bump(short by)
        {
            counter = (counter + by) & 0xffff;
            return counter;
        }
        std::string const& getName() const { return name; }
        void setName(std::string const& n) { name = n; }
        double getSpeed() const { return speed; }
        void describe(coil::Context ctx, coil::StringView what) const
        {
            ctx.logline(coil::String(what));
            ctx.logf("%s=%d;", name.c_str(), counter);
        }
    };

    // throwing is only allowed where exceptions are caught or expected
    struct World
    {
        coil::Bindings b;
        Object object;
        int vInt = 0;
        double vDouble = 0;
        bool vBool = false;
        std::string vString = "init";
        coil::String vCoilString = "coil";
        std::vector<int> vVector;
        std::optional<short> vOptional;
        Color vColor = Color::Red;
        int const vConst = 7;
        unsigned long calls = 0;
        int depth = 0;
        std::vector<std::string> dynamic;

        template<typename T>
        void echo(char const* name)
        {
            b[name] = [this](T x) -> T {
                calls++;
                return x;
            };
        }
        template<typename T>
        void echoRef(char const* name)
        {
            b[name] = [this](T const& x) {
                calls++;
                return coil::TypeSerializer<T>::toString(x);
            };
        }

        explicit World(bool throwing = false)
        {
            echo<char>("c");
            echo<signed char>("sc");
            echo<unsigned char>("uc");
            echo<short>("s");
            echo<unsigned short>("us");
            echo<int>("i");
            echo<unsigned>("u");
            echo<long>("l");
            echo<unsigned long>("ul");
            echo<long long>("ll");
            echo<unsigned long long>("ull");
            echo<float>("f");
            echo<double>("d");
            echo<long double>("ld");
            echo<bool>("b");
            echo<coil::String>("cs");
            echo<coil::StringView>("sv");
            echo<std::string>("ss");
            echo<std::string_view>("ssv");
            echo<std::vector<int>>("vi");
            echo<std::vector<std::string>>("vs");
            echo<std::vector<bool>>("vb");
            echo<std::vector<double>>("vd");
            echo<std::optional<int>>("oi");
            echo<std::optional<std::string>>("os");
            echo<std::optional<std::vector<unsigned char>>>("ov");
            echo<std::vector<std::optional<int>>>("vo");
            echo<Color>("color");
            echo<Point>("point");
            echo<std::vector<Color>>("colors");
            echoRef<std::string>("rs");
            echoRef<std::vector<float>>("rv");
            echoRef<Point>("rp");
            b["val"] = [this](coil::Value const& v) {
                calls++;
                return v;
            };
            b["vals"] = [this](coil::Context ctx, coil::Value const& a, coil::Value bb) {
                calls++;
                ctx.log(a.str());
                ctx.logf("%d %d|", static_cast<int>(a.subvalues.size()), a == bb ? 1 : 0);
                ctx.loglinef("[%s]", bb.str().cStr());
            };
            b["sum"] = &freeSum;
            b["nothing"] = &freeNothing;
            b["bump"] = coil::bind(&Object::bump, &object);
            b["getName"] = coil::bind(&Object::getName, static_cast<Object const*>(&object));
            b["describe"] = coil::bind(&Object::describe, &object);
            b["ptr"] = [this](bool null) -> std::string* { return null ? nullptr : &object.name; };
            b["cptr"] = [](bool null) -> char const* { return null ? nullptr : "c string %s"; };
            b["vint"] = coil::variable(&vInt);
            b["vdouble"] = coil::variable(&vDouble);
            b["vbool"] = coil::variable(&vBool);
            b["vstring"] = coil::variable(&vString);
            b["vcs"] = coil::variable(&vCoilString);
            b["vvector"] = coil::variable(&vVector);
            b["voptional"] = coil::variable(&vOptional);
            b["vcolor"] = coil::variable(&vColor);
            b["vconst"] = coil::variable(&vConst);
            b["prop"] = coil::property([this]() { return vInt; }, [this](int v) { vInt = v; });
            b["ro"] = coil::property([this]() -> std::string const& { return vString; });
            b["bname"] = coil::bindProperty(&Object::getName, &Object::setName, &object);
            b["bspeed"] = coil::bindProperty(&Object::getSpeed, &object);
            b["over"] = coil::overloaded([]() { return 0; }, [](int) { return 1; }, [](coil::Context ctx, std::string const& s, float) { ctx.log(s.c_str()); return 2; }, [](int, int, int, coil::StringView) { return 4; });
            b["nofunc"] = coil::overloaded();
            b["three"] = [this](coil::Context ctx, int a, double d, std::vector<std::string> const& v) {
                calls++;
                ctx.loglinef("%d %g %zu", a, d, v.size());
                for (auto const& s : v)
                    ctx.log(coil::fromStdString(s));
                return v.size();
            };
            b["many"] = [](int a, unsigned bb, bool c, float d, coil::StringView e, std::string const& f, std::optional<long> g, coil::Value const& h) {
                return coil::sprintf("%d %u %d %g %d %zu %d %zu", a, bb, c ? 1 : 0, static_cast<double>(d), e.slength(), f.size(), g ? 1 : 0, h.subvalues.size());
            };
            b["named"] = [](coil::Context ctx) {
                auto args = ctx.namedArgs();
                for (auto const& a : args)
                {
                    ctx.log(coil::String(a.key));
                    ctx.log("=");
                    ctx.logline(a.value.str());
                }
                for (auto it = args.begin(); it != args.end(); ++it)
                    if (auto v = args.get(it->key); !v)
                        ctx.reportError("lookup failed");
                return args.size();
            };
            b["get"] = [](coil::Context ctx, coil::StringView key) {
                auto args = ctx.namedArgs();
                if (auto v = args.get<int>(key))
                    ctx.loglinef("int %d", *v);
                else
                    ctx.logline(v.error().message);
                if (auto v = args.get<std::vector<double>>(key))
                    ctx.loglinef("doubles %zu", v->size());
                if (auto v = args.getOrReport<std::string>(key, coil::NamedArgs::ArgType::Optional, std::string("default")))
                    ctx.logline(coil::fromStdString(*v));
                if (auto v = args.getOrReport<Color>(key, coil::NamedArgs::ArgType::Required))
                    ctx.logline(coil::TypeSerializer<Color>::toString(*v));
                if (auto* v = args.getOrReport(key, coil::NamedArgs::ArgType::Required))
                    ctx.logline(v->str());
            };
            b["err"] = [](coil::Context ctx, std::vector<std::string> const& messages, int code) {
                for (auto const& m : messages)
                    ctx.reportError(coil::fromStdString(m));
                if (ctx.hasErrors())
                    ctx.logline("failed");
                return code;
            };
            b["err2"] = [](coil::Context ctx, coil::StringView s) {
                ctx.reportErrors("first", coil::String(s), coil::sprintf("%.*s", s.slength(), s.data()));
                return true;
            };
            b["nest"] = [this](coil::Context ctx, coil::StringView text) {
                if (depth >= 5)
                    return coil::String("too deep");
                coil::ExecutionResult r;
                {
                    struct Deeper
                    {
                        int& d;
                        explicit Deeper(int& x) : d(x) { d++; }
                        ~Deeper() { d--; }
                    } deeper(depth);
                    r = b.execute(text);
                }
                for (auto const& e : r.errors)
                    ctx.logline(e);
                ctx.log(r.output);
                return r.returnValue ? *r.returnValue : coil::String("none");
            };
            b["bindnew"] = [this](std::string const& n, int v) { // only names no other command has
                std::string name = "u:" + n;
                b[cv(name)] = [v](coil::Context ctx) {
                    ctx.loglinef("dynamic %d", v);
                    return v;
                };
                return static_cast<int>(name.size());
            };
            b["unbindnew"] = [this](std::string const& n) {
                std::string name = "u:" + n;
                b[cv(name)] = nullptr;
                return b.get(cv(name)) == nullptr;
            };
            b["meta"] = [this](coil::Context ctx, coil::StringView n) {
                auto* c = b.get(n);
                if (!c)
                    return 0;
                ctx.logline(coil::String(c->name));
                for (auto const& f : c->functors)
                {
                    ctx.log(coil::String(f.returnType()));
                    for (auto const& p : f.parameterTypes())
                    {
                        ctx.log(" ");
                        ctx.log(coil::String(p));
                    }
                    ctx.log("\n");
                }
                return static_cast<int>(c->functors.size());
            };
#ifdef __cpp_exceptions
            if (throwing)
            {
                b["throw"] = [](coil::Context ctx, std::string const& what) -> int {
                    ctx.log("before");
                    throw std::runtime_error(what);
                };
                b["throwint"] = []() -> int { throw 5; };
            }
#else
            (void)throwing;
#endif
        }
        World(World const&) = delete;

        // commands with extreme properties: many overloads, long names, many parameters
        void extremes(vh::Gen& g)
        {
            size_t n = g.chance(1, 8) ? g.logsize(300) : g.below(90);
            coil::Vector<coil::AnyFunctor> v;
            for (size_t i = 0; i < n; i++)
                switch (g.below(4))
                {
                case 0:
                    v.pushBack(functor([i](int) { return i; }));
                    break;
                case 1:
                    v.pushBack(functor([i](int, coil::StringView) { return i; }));
                    break;
                case 2:
                    v.pushBack(functor([i](coil::Context ctx, coil::Value const& x, int, bool) { ctx.log(x.str()); return i; }));
                    break;
                default:
                    v.pushBack(functor([i](int, int, int, int, int, int, int, int, int, int, int, int) { return i; }));
                }
            b["overs"] = coil::move(v);
            std::string name(1 + g.logsize(g.chance(1, 20) ? 5000 : 100), 'n');
            longName = name;
            b[cv(name)] = coil::overloaded([](int) {}, [](double, coil::Value const&) {});
        }
        std::string longName = "missing";
    };

    inline std::vector<std::string> const& names()
    {
        static std::vector<std::string> const n = {"overs", "overs", "c", "sc", "uc", "s", "us", "i", "u", "l", "ul", "ll", "ull", "f", "d", "ld", "b", "cs", "sv", "ss", "ssv", "vi", "vs", "vb", "vd", "oi", "os", "ov", "vo", "color", "point", "colors", "rs", "rv", "rp", "val", "vals", "sum", "nothing", "bump", "getName", "describe", "ptr", "cptr", "vint", "vdouble", "vbool", "vstring", "vcs", "vvector", "voptional", "vcolor", "vconst", "prop", "ro", "bname", "bspeed", "over", "nofunc", "three", "many", "named", "get", "err", "err2", "nest", "bindnew", "unbindnew", "meta", "throw", "throwint", "u:x", "u:", "missing", ""};
        return n;
    }
    // number of positional arguments which makes sense, to get past the dispatch
    inline size_t usualArgs(std::string const& n)
    {
        static std::map<std::string, size_t> const m = {{"vals", 2}, {"sum", 2}, {"nothing", 0}, {"getName", 0}, {"three", 3}, {"many", 8}, {"named", 0}, {"err", 2}, {"bindnew", 2}, {"throwint", 0}, {"u:x", 0}, {"u:", 0}};
        auto it = m.find(n);
        return it == m.end() ? 1 : it->second;
    }
    inline std::string usualWord(vh::Gen& g)
    {
        static char const* const w[] = {"1", "0", "-1", "true", "FALSE", "red", "green", "x", "3.5", "1e9", "300", "''", "'a b'", "(1, 2)", "(1.5 2)", "()", "(a,'b c',d)", "1,2,3", "(1,x)", "('', 1)", "%s%n%d", "99999999999999999999", "nan", "0x1p3", "u", "name", "vi", "key", "x=1", "key=5", "key = red", "k='a b'", "(red green)", "\"q\"", "'u:x'"};
        return g.pick(w);
    }
    inline std::string text(vh::Gen& g, size_t max = 60)
    {
        ref::LexCfg cfg;
        std::string const& n = g.pick(names());
        if (g.chance(1, 12) && !g.exhausted())
            return "nest '" + text(g, max / 2) + "'";
        if (g.chance(1, 3))
            return ref::command(g, cfg, max, true, n.c_str());
        std::string s = n;
        size_t k = g.chance(1, 5) ? g.below(5) : usualArgs(n);
        for (size_t i = 0; i < k; i++)
            s += " " + (g.chance(2, 3) ? usualWord(g) : ref::argument(g, cfg, max, g.chance(1, 3)));
        while (g.chance(1, 5))
            s += std::string(" ") + (g.coin() ? "key" : ref::word(g, 6, false).c_str()) + "=" + (g.coin() ? usualWord(g) : ref::argument(g, cfg, max, false));
        return s;
    }
}
