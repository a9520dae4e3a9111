// C27: user-defined types; their serializers record every call and follow a script.
#pragma once
#include "refconv.h"

#include <functional>
#include <tuple>

namespace c27
{
    using ref::CR;
    using ref::Fields;

    struct From
    {
        char tag;
        Fields fields;
        long serial; // 0: it failed
    };
    struct To
    {
        char tag;
        long serial;
    };
    struct State
    {
        std::vector<From> from;
        std::vector<To> to;
        long next = 1;
        uint64_t salt = 0;
        unsigned failing = 3; // of 8
        size_t fromBeforeBody = 0;
        int bodies = 0;
        std::vector<std::string> received;
        bool late = false; // a conversion after a body began
    };
    extern State st;

    struct Decision
    {
        bool ok = true;
        int kind = 0;
        std::string text;
        size_t n = 0;
    };
    inline Decision decide(char tag, Fields const& f)
    {
        uint64_t h = vh::hashStr(ref::showFields(f), st.salt + static_cast<unsigned char>(tag) * 77u + f.size());
        h ^= h >> 29;
        h *= 0x9E3779B97F4A7C15u;
        h ^= h >> 32;
        Decision d;
        d.ok = h % 8 >= st.failing;
        h >>= 3;
        d.kind = static_cast<int>(h % 6);
        h >>= 4;
        static std::string const texts[] = {"", "plain error", "%s%n%d", std::string("nul\0tail", 8), "quote ' \" and (", "\xc3\xa9\xff\n", ": : :", std::string(2000, 'e'), " ", "Unable to convert"};
        d.text = texts[h % 10];
        h >>= 8;
        d.n = h % 7;
        return d;
    }
    // what the error of a failed conversion should be
    inline CR failure(Decision const& d, Fields const& f, std::string const& name)
    {
        CR r;
        switch (d.kind)
        {
        case 0:
        case 1:
            r.err = d.text; // verbatim, whatever it contains
            return r;
        case 2:
            return ref::bad(f, name);
        case 3:
            return ref::bad(f, name, d.text);
        case 4:
            return ref::badCount(f, name, d.n);
        default:
            return ref::bad(f, "other %d name", d.text);
        }
    }
    inline std::string textOf(char tag, long serial)
    {
        std::string s = std::string(1, tag) + "#" + std::to_string(serial);
        if (serial % 5 == 1)
            s += std::string("\0\xff%s", 4);
        if (serial % 11 == 3)
            s += std::string(500, tag);
        return s;
    }

    enum class Enum : long
    {
        Zero
    };
    struct Plain
    {
        long serial = 0;
        std::string payload;
    };
    struct Own // move-only
    {
        std::unique_ptr<long> p;
        Own() = default;
        explicit Own(long s) : p(std::make_unique<long>(s)) {}
        Own(Own&&) = default;
        Own& operator=(Own&&) = default;
        Own(Own const&) = delete;
        Own& operator=(Own const&) = delete;
    };
    template<typename T>
    struct Box // a family of user types
    {
        long serial = 0;
        std::vector<T> payload;
    };

    struct Marked // large, and its copies differ from the original
    {
        long serial = 0;
        int copies = 0;
        char payload[200] = {};
        explicit Marked(long s) : serial(s) { payload[199] = static_cast<char>(s); }
        Marked(Marked&&) noexcept = default;
        Marked& operator=(Marked&&) noexcept = default;
        Marked(Marked const& r) : serial(r.serial), copies(r.copies + 1) {}
        Marked& operator=(Marked const& r)
        {
            serial = r.serial;
            copies = r.copies + 1;
            return *this;
        }
    };

    template<typename T>
    struct User;
    template<>
    struct User<Marked> // for arguments of commands only
    {
        static constexpr char tag = 'K';
        static std::string name() { return "Marked"; }
        static Marked make(long s) { return Marked(s); }
        static long serial(Marked const& m)
        {
            VH_CHECK(m.copies == 0 && m.payload[199] == static_cast<char>(m.serial), "copied", "the command received a copy of the value with serial %ld", m.serial);
            return m.serial;
        }
    };
    template<>
    struct User<Enum>
    {
        static constexpr char tag = 'E';
        static std::string name() { return "Enum"; }
        static Enum make(long s) { return static_cast<Enum>(s); }
        static long serial(Enum e) { return static_cast<long>(e); }
    };
    template<>
    struct User<Plain>
    {
        static constexpr char tag = 'P';
        static std::string name() { return "Plain %s type"; }
        static Plain make(long s) { return {s, std::string(30, 'p') + std::to_string(s)}; }
        static long serial(Plain const& p)
        {
            VH_CHECK(p.payload == std::string(30, 'p') + std::to_string(p.serial), "damaged", "a Plain with serial %ld has payload %s", p.serial, p.payload.c_str());
            return p.serial;
        }
    };
    template<>
    struct User<Own>
    {
        static constexpr char tag = 'M';
        static std::string name() { return "Own"; }
        static Own make(long s) { return Own(s); }
        static long serial(Own const& o)
        {
            VH_CHECK(o.p != nullptr, "damaged", "a moved-from Own");
            return *o.p;
        }
    };
    template<typename T>
    struct User<Box<T>>
    {
        static constexpr char tag = sizeof(T) == 1 ? 'b' : 'B';
        static std::string name() { return sizeof(T) == 1 ? "Box<char>" : "Box<int>"; }
        static Box<T> make(long s) { return {s, std::vector<T>(40, T(1))}; }
        static long serial(Box<T> const& b)
        {
            VH_CHECK(b.payload.size() == 40, "damaged", "a Box with %zu elements", b.payload.size());
            return b.serial;
        }
    };

    template<typename T>
    coil::Expected<T, coil::String> fromString(coil::Value const& in)
    {
        Fields f;
        for (auto const& s : in.subvalues)
            f.push_back(ss(s));
        using U = User<T>;
        Decision d = decide(U::tag, f);
        if (st.bodies)
            st.late = true;
        st.from.push_back({U::tag, f, d.ok ? st.next : 0});
        if (d.ok)
            return U::make(st.next++);
        ref::Exact text(d.text);
        switch (d.kind)
        {
        case 0:
            return coil::makeUnexpected(cs(d.text));
        case 1:
        {
            coil::String s = cs(d.text);
            return coil::makeUnexpected(coil::move(s));
        }
        case 2:
            return coil::errors::createGenericError<T>(in);
        case 3:
            return coil::errors::createGenericError<T>(in, cv(text));
        case 4:
            return coil::errors::createMismatchedSubvaluesError<T>(in, d.n);
        default:
            return coil::errors::createGenericError("other %d name", in, cv(text));
        }
    }
    template<typename T>
    coil::String toString(T const& v)
    {
        using U = User<T>;
        long s = U::serial(v);
        st.to.push_back({U::tag, s});
        return cs(textOf(U::tag, s));
    }
}

// enums: one serializer for all of them
namespace coil
{
    template<typename T>
    struct TypeSerializer<T, std::enable_if_t<std::is_enum_v<T>>>
    {
        static Expected<T, String> fromString(Value const& input) { return c27::fromString<T>(input); }
        static String toString(T const& v) { return c27::toString<T>(v); }
    };
    template<typename T>
    struct TypeName<T, std::enable_if_t<std::is_enum_v<T>>>
    {
        static StringView name() { return "Enum"; }
    };
    template<typename T>
    struct TypeSerializer<c27::Box<T>>
    {
        static Expected<c27::Box<T>, String> fromString(Value const& input) { return c27::fromString<c27::Box<T>>(input); }
        static String toString(c27::Box<T> const& v) { return c27::toString(v); }
    };
    template<typename T>
    struct TypeName<c27::Box<T>>
    {
        static StringView name()
        {
            static String n = "Box<" + String{TypeName<T>::name()} + ">";
            return n;
        }
    };
    template<>
    struct TypeSerializer<c27::Plain>
    {
        static Expected<c27::Plain, String> fromString(Value const& input) { return c27::fromString<c27::Plain>(input); }
        static String toString(c27::Plain const& v) { return c27::toString(v); }
    };
    template<>
    struct TypeSerializer<c27::Marked>
    {
        static Expected<c27::Marked, String> fromString(Value const& input) { return c27::fromString<c27::Marked>(input); }
        static String toString(c27::Marked const& v) { return c27::toString(v); }
    };
    template<>
    struct TypeSerializer<c27::Own>
    {
        static Expected<c27::Own, String> fromString(Value const& input) { return c27::fromString<c27::Own>(input); }
        static String toString(c27::Own const& v) { return c27::toString(v); }
    };
}
COIL_CREATE_TYPE_NAME(c27::Plain, "Plain %s type");
COIL_CREATE_TYPE_NAME(c27::Own, "Own");
COIL_CREATE_TYPE_NAME(c27::Marked, "Marked");

namespace c27
{
    // expectations
    struct Expect
    {
        std::vector<std::string> calls; // tag + fields
    };
    inline std::string callText(char tag, Fields const& f) { return std::string(1, tag) + std::to_string(f.size()) + ref::showFields(f); }
    inline std::string bySerial(char tag, long serial) // the fields a value was made of
    {
        for (auto const& f : st.from)
            if (f.serial == serial && f.tag == tag)
                return callText(tag, f.fields);
        return "a value no serializer made: " + std::to_string(serial);
    }

    template<typename T, typename = void>
    struct X // built-in types
    {
        static CR conv(Fields const& f, Expect&) { return ref::Conv<T>::conv(f); }
        static std::string canon(T const& v) { return ref::Conv<T>::canon(v); }
        static Fields fields(vh::Gen& g) { return ref::Conv<T>::fields(g, g.chance(9, 10)); }
        static std::string name() { return ref::Conv<T>::name(); }
        static constexpr bool user = false;
    };
    template<typename T>
    struct X<T, std::void_t<decltype(User<T>::tag)>>
    {
        static CR conv(Fields const& f, Expect& e)
        {
            e.calls.push_back(callText(User<T>::tag, f));
            Decision d = decide(User<T>::tag, f);
            if (d.ok)
                return ref::good(callText(User<T>::tag, f));
            return failure(d, f, User<T>::name());
        }
        static std::string canon(T const& v) { return bySerial(User<T>::tag, User<T>::serial(v)); }
        static Fields fields(vh::Gen& g)
        {
            Fields f(g.chance(1, 10) ? g.logsize(80) : g.chance(1, 2) ? 1 : g.below(6));
            for (auto& s : f)
                s = ref::anyText(g, 20);
            return f;
        }
        static std::string name() { return User<T>::name(); }
    };
    template<typename T>
    struct X<std::vector<T>, std::void_t<decltype(User<T>::tag)>>
    {
        static CR conv(Fields const& f, Expect& e)
        {
            std::string c = "[";
            for (auto& s : f)
            {
                CR r = X<T>::conv({s}, e);
                if (!r.ok)
                {
                    CR b = ref::bad(f, name(), r.err);
                    return b;
                }
                c += r.canon + ";";
            }
            return ref::good(c + "]");
        }
        static std::string canon(std::vector<T> const& v)
        {
            std::string c = "[";
            for (auto const& x : v)
                c += X<T>::canon(x) + ";";
            return c + "]";
        }
        static Fields fields(vh::Gen& g)
        {
            Fields f(g.chance(1, 10) ? g.logsize(40) : g.below(6));
            for (auto& s : f)
                s = ref::anyText(g, 20);
            return f;
        }
        static std::string name() { return "vector<" + X<T>::name() + ">"; }
    };
    template<typename T>
    struct X<std::optional<T>, std::void_t<decltype(X<T>::name())>>
    {
        static CR conv(Fields const& f, Expect& e)
        {
            if (f.empty() || (f.size() == 1 && f[0].empty()))
                return ref::good("none");
            CR r = X<T>::conv(f, e);
            if (r.ok)
                return ref::good("some(" + r.canon + ")");
            return ref::bad(f, name(), r.err);
        }
        static std::string canon(std::optional<T> const& v) { return v ? "some(" + X<T>::canon(*v) + ")" : "none"; }
        static Fields fields(vh::Gen& g)
        {
            if (g.chance(1, 4))
                return g.coin() ? Fields{} : Fields{""};
            return X<T>::fields(g);
        }
        static std::string name() { return "optional<" + X<T>::name() + ">"; }
    };

    inline std::vector<std::string> recorded()
    {
        std::vector<std::string> v;
        for (auto const& f : st.from)
            v.push_back(callText(f.tag, f.fields));
        return v;
    }
    // each expected call once; the order of arguments among each other is open
    inline void checkCalls(Expect const& e, std::string const& what)
    {
        auto got = recorded(), want = e.calls;
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        VH_CHECK(got == want, "serializer-calls", "%s: the serializers were called with %s, should be %s", what.c_str(), vh::esc(ref::join(got, " , ")).c_str(), vh::esc(ref::join(want, " , ")).c_str());
        VH_CHECK(!st.late, "serializer-late", "%s: an argument was converted after the command began", what.c_str());
        vh::count("conversions", got.size());
    }
    inline void begin()
    {
        st.from.clear();
        st.to.clear();
        st.bodies = 0;
        st.received.clear();
        st.late = false;
    }
    inline std::string toCalls()
    {
        std::string s;
        for (auto const& t : st.to)
            s += std::string(1, t.tag) + std::to_string(t.serial) + " ";
        return s;
    }
    inline bool errorIs(std::string_view got, CR const& want) { return want.hasNul ? got.substr(0, 19) == "Unable to convert '" : got == want.err; }

    template<typename T>
    using RR = std::conditional_t<std::is_same_v<T, coil::Value>, T const&, T&&>;

    template<typename... Ts>
    void body(Ts const&... v)
    {
        st.bodies++;
        st.received = {X<Ts>::canon(v)...};
    }
    // a command with these parameters
    template<typename... Ts>
    struct Sig
    {
        struct Obj
        {
            void method(Ts... v) { body<Ts...>(v...); }
            int constMethod(coil::Context, Ts const&... v) const
            {
                body<Ts...>(v...);
                return 7;
            }
        };
        template<size_t... I>
        static void run(vh::Gen& g, std::index_sequence<I...>)
        {
            coil::Bindings b;
            Obj obj;
            bool takesContext = false;
            int kind = static_cast<int>(g.below(7));
            switch (kind)
            {
            case 0:
                b["f"] = [](Ts... v) { body<Ts...>(v...); };
                break;
            case 1:
                b["f"] = [](Ts const&... v) { body<Ts...>(v...); };
                break;
            case 2:
                b["f"] = [](coil::Context, RR<Ts>... v) { body<Ts...>(v...); };
                takesContext = true;
                break;
            case 3:
                b["f"] = coil::bind(&Obj::method, &obj);
                break;
            case 4:
                b["f"] = coil::bind(&Obj::constMethod, static_cast<Obj const*>(&obj));
                break;
            case 5:
                b["f"] = coil::overloaded([](Ts const&..., Plain) { st.bodies += 100; }, [](Ts... v) { body<Ts...>(v...); }, [](Ts...) { st.bodies += 100; });
                break;
            default:
                b["f"] = [](coil::Context ctx, Ts... v) {
                    body<Ts...>(v...);
                    ctx.reportError("from the body");
                };
            }
            (void)takesContext;
            for (int round = 0; round < 3; round++)
            {
                std::vector<Fields> f = {X<Ts>::fields(g)...};
                if (g.chance(1, 6) && f.size() > 1) // the same fields twice
                    f[1] = f[0];
                Expect e;
                std::vector<CR> want = {X<Ts>::conv(f[I], e)...};
                bool all = true;
                for (auto& w : want)
                    all = all && w.ok;
                begin();
                ref::Exec ex;
                bool wrongCount = g.chance(1, 12);
                if (wrongCount)
                    f.resize(f.size() + 2, {"x"});
                auto r = ex.run(g, b, "f", f);
                std::string what = "callable " + std::to_string(kind) + ", \"" + vh::esc(ex.text) + "\"";
                vh::st().note = what.c_str();
                vh::observe(vh::hashStr(what, st.salt));
                if (wrongCount)
                {
                    checkCalls({}, what);
                    VH_CHECK(!st.bodies, "called", "%s: called with a wrong number of arguments", what.c_str());
                    vh::count("wrong-count");
                    continue;
                }
                checkCalls(e, what);
                VH_CHECK(st.bodies == (all ? 1 : 0), "called", "%s: called %d times: %s", what.c_str(), st.bodies, vh::esc(show(r)).c_str());
                if (g.chance(1, 1500))
                    vh::sample(what.substr(0, 200) + " -> " + vh::esc(show(r)).substr(0, 200));
                if (all)
                {
                    for (size_t i = 0; i < want.size(); i++)
                        VH_CHECK(st.received[i] == want[i].canon, "value", "%s: parameter %zu received %s, should be made of %s", what.c_str(), i, vh::esc(st.received[i]).c_str(), vh::esc(want[i].canon).c_str());
                    VH_CHECK(kind == 6 ? r.errors.size() == 1 : r.errors.empty(), "errors", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
                    vh::count("delivered");
                    continue;
                }
                std::vector<CR> errs;
                for (auto& w : want)
                    if (!w.ok)
                        errs.push_back(w);
                VH_CHECK(r.errors.size() == errs.size() && !r.returnValue, "errors", "%s: %s, should be %zu errors", what.c_str(), vh::esc(show(r)).c_str(), errs.size());
                for (size_t i = 0; i < errs.size(); i++)
                    VH_CHECK(errorIs(sv(r.errors[i]), errs[i]), "error-text", "%s: error %zu is '%s', should be '%s'", what.c_str(), i, vh::esc(sv(r.errors[i])).c_str(), vh::esc(errs[i].err).c_str());
                vh::count("rejected");
            }
        }
        static void run(vh::Gen& g) { run(g, std::index_sequence_for<Ts...>{}); }
    };

    template<typename T>
    void positions(vh::Gen& g); // returned values, variables, properties, named arguments, Value::get
    void signatures1(vh::Gen& g);
    void signatures2(vh::Gen& g);
    void positions1(vh::Gen& g);
    void positions2(vh::Gen& g);
    void helpers(vh::Gen& g);
}
