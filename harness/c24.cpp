// C24: executes a workload written by c24_gen and writes a transcript of everything observable; built in many
// configurations, whose transcripts are compared.  Makes no choices of its own.
#define VH_NO_MAIN_DEFS
#include "world.h"

#include <algorithm>

namespace
{
    int fill = -1;
}
void* operator new(size_t n)
{
    char* p = static_cast<char*>(malloc(n + 16));
    if (!p)
        abort();
    memcpy(p, &n, sizeof n);
    if (fill >= 0)
        memset(p + 16, fill, n);
    return p + 16;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (!p)
        return;
    char* c = static_cast<char*>(p) - 16;
    size_t n;
    memcpy(&n, c, sizeof n);
    if (fill >= 0)
        memset(p, fill ^ 0xff, n);
    free(c);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { operator delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { operator delete(p); }

namespace
{
    __attribute__((noinline)) void dirtyStack(int pattern)
    {
        if (pattern < 0)
            return;
        char a[24000];
        memset(a, pattern, sizeof a);
        asm volatile("" : : "r"(a) : "memory");
    }

    using Op = std::vector<std::string>;
    std::string out; // the transcript of the running case
    void say(std::string const& s)
    {
        out += s;
        out += '\n';
    }
    void say(char const* what, std::string const& s) { say(std::string(what) + ": " + s); }

    std::string meta(coil::Bindings const& b, std::string const& name)
    {
        auto* c = b.get(cv(name));
        if (!c)
            return "not found";
        std::string s = "<" + ss(c->name) + ">";
        for (auto const& f : c->functors)
        {
            s += " " + std::to_string(f.arity()) + ":" + ss(f.returnType()) + "(";
            for (auto const& p : f.parameterTypes())
                s += ss(p) + ",";
            s += ")";
        }
        return s;
    }

    template<typename T>
    std::string render(coil::Expected<T, coil::String> const& e)
    {
        return e ? "value <" + ss(coil::TypeSerializer<T>::toString(*e)) + ">" : "error <" + ss(e.error()) + ">";
    }

    struct Case
    {
        coil::Bindings b;
        std::unique_ptr<world::World> w;
        coil::String s[4];
        coil::Vector<coil::String> v[4];
        coil::Vector<int> vi[4];
        struct Pod
        {
            char c;
            int i;
            void* p;
            bool operator!=(Pod const& r) const { return c != r.c || i != r.i || p != r.p; }
        };
        coil::Vector<Pod> vp[4];
        static std::string one(int x) { return std::to_string(x); }
        static std::string one(Pod const& x) { return std::to_string(static_cast<int>(x.c)) + "/" + std::to_string(x.i) + (x.p ? "p" : "0"); }
        static void set(int& x, size_t n) { x = static_cast<int>(n); }
        static void set(Pod& x, size_t n)
        {
            x.c = static_cast<char>(n % 100);
            x.i = -static_cast<int>(n);
            x.p = n % 2 ? &x : nullptr;
        }
        template<typename T>
        void plainStep(coil::Vector<T>* v, Op const& op)
        {
            auto& x = v[num(op[1]) % 4];
            auto& y = v[num(op[3]) % 4];
            size_t n = num(op[5]);
            switch (num(op[2]))
            {
            case 0:
            case 1:
            case 2:
            {
                T t{};
                set(t, n);
                x.pushBack(t);
                break;
            }
            case 3:
                if (!x.empty())
                    x.popBack();
                break;
            case 4:
                x = y;
                break;
            case 5:
                x.resize(n);
                break;
            case 6:
                x.reserve(n);
                break;
            case 7:
                if (n < 3)
                    x.clear();
                break;
            case 8:
                if (!x.empty())
                    x[n % x.size()] = x.back();
                break;
            default:
                x = coil::Vector<T>(y.begin(), y.begin() + static_cast<ptrdiff_t>(y.size() / 2));
            }
            std::string r = std::to_string(x.size()) + (x == y ? "=" : "!");
            for (auto const& e : x)
                r += " " + one(e);
            if (x.size() > 60)
                x.clear();
            say("plain", r);
        }
        coil::UnorderedMap<coil::String, coil::String> m[4];
        std::vector<std::unique_ptr<std::string>> texts; // kept alive for the results
        std::vector<std::pair<coil::ExecutionResult, std::string>> kept;
        int depth = 0;
        int executions = 0;

        void show(char const* what, coil::ExecutionResult const& r) { say(what, ::show(r) + " " + ::show(r.input)); }

        void run(coil::Context ctx, std::string const& script)
        {
            size_t at = 0;
            while (at < script.size())
            {
                size_t e = script.find('\n', at);
                if (e == std::string::npos)
                    e = script.size();
                std::string arg = script.substr(at + 1, e - at - 1);
                char k = script[at];
                at = e + 1;
                switch (k)
                {
                case 'l':
                    ctx.log(cs(arg));
                    break;
                case 'L':
                    ctx.logline(cs(arg));
                    break;
                case 'f':
                    ctx.logf("%d|%s|%g", static_cast<int>(arg.size()), arg.c_str(), static_cast<double>(arg.size()) / 3);
                    break;
                case 'F':
                    ctx.loglinef("%.*s", static_cast<int>(arg.size() / 2), arg.c_str());
                    break;
                case 'e':
                    ctx.reportError(cs(arg));
                    break;
                case 'r':
                    ctx.reportErrors(cs(arg), "second");
                    break;
                case 'h':
                    ctx.log(ctx.hasErrors() ? "E" : "-");
                    break;
                case 'n':
                {
                    auto na = ctx.namedArgs();
                    for (auto const& x : na)
                        ctx.logline(cs(ss(x.key) + "=" + ::show(x.value)));
                    break;
                }
                case 'k':
                {
                    auto na = ctx.namedArgs();
                    if (auto x = na.get<int>(cv(arg)))
                        ctx.log(coil::toString(*x));
                    else
                        ctx.log(x.error().message);
                    if (auto x = na.getOrReport<float>(cv(arg), coil::NamedArgs::ArgType::Optional, 2.5f))
                        ctx.log(coil::toString(*x));
                    if (auto x = na.getOrReport<std::vector<unsigned char>>(cv(arg), coil::NamedArgs::ArgType::Required))
                        ctx.log(coil::TypeSerializer<std::vector<unsigned char>>::toString(*x));
                    break;
                }
                case 'x':
                    if (depth < 4)
                    {
                        depth++;
                        auto r = b.execute(cv(arg));
                        depth--;
                        show("nested", r);
                        ctx.log(r.output);
                    }
                    break;
                case 'b':
                {
                    size_t p = arg.find('\1'), q = arg.find('\1', p + 1);
                    std::string inner = arg.substr(q + 1);
                    for (auto& c : inner)
                        if (c == '\2')
                            c = '\n';
                    std::string name = arg.substr(0, p);
                    if (name.empty() || std::find(running.begin(), running.end(), name) == running.end())
                        bind(name, arg[p + 1] - '0', inner);
                    break;
                }
                case 'u':
                    if (std::find(running.begin(), running.end(), arg) == running.end())
                        b.remove(cv(arg));
                    break;
                }
            }
        }
        std::vector<std::string> running;
        struct Running
        {
            std::vector<std::string>& r;
            Running(std::vector<std::string>& l, std::string const& n) : r(l) { r.push_back(n); }
            ~Running() { r.pop_back(); }
        };
        void bind(std::string const& n, int sig, std::string const& sc)
        {
            auto p = b[cv(n)];
            switch (sig)
            {
            case 0:
                p = [this, n, sc](coil::Context c) { Running k(running, n); run(c, sc); };
                break;
            case 1:
                p = [this, n, sc](coil::Context c, int x) { Running k(running, n); run(c, sc); return x; };
                break;
            case 2:
                p = [this, n, sc](coil::Context c, coil::StringView a, float f) { Running k(running, n); run(c, sc); c.log(coil::toString(f)); return coil::String(a); };
                break;
            case 3:
                p = [n, sc](std::string const& a, std::vector<short> v) { return std::to_string(v.size()) + a + sc; };
                break;
            case 4:
                p = [this, n, sc](coil::Context c, coil::Value const& a, std::optional<long> o, bool x) { Running k(running, n); run(c, sc); c.logline(a.str()); c.logf("%d", x ? 1 : 0); return o; };
                break;
            case 5:
                p = coil::overloaded([this, n, sc](coil::Context c) { Running k(running, n); run(c, sc); return 0; }, [](unsigned long long x) { return x; }, [this, n, sc](coil::Context c, signed char x, long double y) { Running k(running, n); run(c, sc); c.log(coil::toString(y)); return x; });
                break;
            case 6:
                p = [this, n](coil::Context c, std::string const& t) { Running k(running, n); run(c, t); return t.size(); };
                break;
            case 7:
                p = [](std::vector<std::optional<unsigned short>> v) { return v; };
                break;
            case 8:
                p = [](unsigned x, long long y, unsigned long z) { return coil::sprintf("%u %lld %lu", x, y, z); };
                break;
            case 9:
                p = [this, n, sc = std::string(sc)](coil::Context c) mutable { Running k(running, n); std::string now = sc; sc += "\nlagain"; run(c, now); return now; };
                break;
            case 10:
                p = coil::variable(&number);
                break;
            case 11:
                p = coil::property([this]() { return string; }, [this](std::string const& x) { string = x; });
                break;
            case 12: // several of the same count: the first of them is meant
                p = coil::overloaded([](int x) { return "first " + std::to_string(x); }, [](std::string const& x) { return "second " + x; }, [](coil::Context c) { c.log("third"); }, [] { return 4; }, [this, n, sc](coil::Context c, double) { Running k(running, n); run(c, sc); });
                break;
            case 13:
                p = coil::overloaded([] { return "none"; }, [this, n, sc](coil::Context c, std::string const& x, bool y) { Running k(running, n); run(c, sc); return y ? x : sc; }, [](bool, int) { return 'b'; }, [](int) { return 1; }, [](std::vector<int>) { return 2; });
                break;
            case 14:
                p = coil::bind(&Case::method, this);
                break;
            case 15:
                p = coil::bind(&Case::constMethod, static_cast<Case const*>(this));
                break;
            case 16:
                p = &freeText;
                break;
            case 17:
                p = [this](std::optional<double> x) { if (x) number = *x; return x ? &number : nullptr; };
                break;
            case 18:
                p = [this](coil::Context c) { c.log(string.c_str()); return string.c_str(); };
                break;
            case 19:
                p = [this, n, sc](coil::Context c, std::vector<std::string> v, std::optional<std::vector<int>> o) { Running k(running, n); run(c, sc); c.log(cs(std::to_string(v.size()))); return o; };
                break;
            case 20:
                p = coil::variable(&color);
                break;
            case 21:
                p = coil::variable(static_cast<std::string const*>(&string));
                break;
            case 22:
                p = coil::bindProperty(&Case::getText, &Case::setText, this);
                break;
            default:
            {
                coil::Vector<coil::AnyFunctor> f;
                auto add = [&](coil::Vector<coil::AnyFunctor> one) { f.pushBack(coil::move(one[0])); };
                for (size_t i = 0; i < sc.size() % 6; i++)
                {
                    std::string tag = std::to_string(i) + sc;
                    if (i % 3 == 0)
                        add(coil::overloaded([tag](coil::Value const& x) { return tag + ss(x.str()); }));
                    else if (i % 3 == 1)
                        add(coil::overloaded([tag](coil::Context, float x) { return tag + std::to_string(x); }));
                    else
                        add(coil::overloaded([tag]() mutable { tag += "+"; return tag; }));
                }
                p = coil::move(f);
            }
            }
        }
        std::string method(coil::Context c, int x, std::string const& y)
        {
            c.logf("%s %d", y.c_str(), x);
            calls += x % 100;
            return y + std::to_string(calls);
        }
        std::string const& getText() const { return string; }
        void setText(std::string const& x)
        {
            string = x;
            calls++;
        }
        long constMethod(unsigned char x) const { return calls * 1000L + x; }
        static char const* freeText(coil::StringView x) { return x.empty() ? nullptr : "some text"; }
        int calls = 0;
        world::Color color{};
        double number = 1;
        std::string string = "property";

        static size_t num(std::string const& s) { return strtoull(s.c_str(), nullptr, 10); }

        coil::Value value(Op const& op, size_t& at)
        {
            coil::Vector<coil::StringView> f;
            size_t n = num(op[at++]);
            for (size_t i = 0; i < n; i++)
            {
                texts.push_back(std::make_unique<std::string>(op[at++]));
                f.pushBack(cv(*texts.back()));
            }
            return coil::Value(coil::move(f));
        }
        coil::StringView keep(std::string const& s)
        {
            texts.push_back(std::make_unique<std::string>(s));
            return cv(*texts.back());
        }

        template<typename T>
        void convert(std::string const& t)
        {
            T x{};
            bool ok = coil::fromString(cv(t), x);
            coil::Value v{cv(t)};
            say(std::string(ok ? "1 " : "0 ") + (ok ? ss(coil::TypeSerializer<T>::toString(x)) : std::string()) + " " + render(coil::TypeSerializer<T>::fromString(v)));
        }

        void step(Op const& op)
        {
            std::string const& k = op[0];
            if (k == "bind")
                bind(op[1], static_cast<int>(num(op[2])), op[3]);
            else if (k == "unbind")
                b[cv(op[1])] = nullptr;
            else if (k == "clear")
                b.clear();
            else if (k == "move")
            {
                coil::Bindings other(coil::move(b));
                b = coil::move(other);
            }
            else if (k == "meta")
                say("meta", meta(b, op[1]));
            else if (k == "lexer" || k == "wlexer")
            {
                auto l = coil::makeUnique<coil::DefaultLexer>(cv(op[1]), cv(op[2]), cv(op[3]), cv(op[4]));
                (k == "lexer" ? b : getWorld().b).setLexer(coil::move(l));
            }
            else if (k == "kept")
            {
                for (auto& r : kept)
                    say("kept", ::show(r.first) + ::show(r.first.input));
            }
            else if (k == "exec" || k == "input")
            {
                coil::ExecutionResult r;
                if (k == "exec")
                    r = b.execute(keep(op[1]));
                else
                {
                    coil::ExecutionInput in;
                    in.name = keep(op[1]);
                    size_t at = 2;
                    for (size_t n = num(op[at++]); n; n--)
                        in.arguments.pushBack(value(op, at));
                    for (size_t n = num(op[at++]); n; n--)
                    {
                        coil::StringView key = keep(op[at++]);
                        in.namedArguments.pushBack(coil::NamedValue{key, value(op, at)});
                    }
                    r = b.execute(coil::move(in));
                }
                show(k.c_str(), r);
                if (kept.size() < 5)
                    kept.emplace_back(r, "");
            }
            else if (k == "world")
                show("world", getWorld().b.execute(keep(op[1])));
            else if (k == "wmeta")
                say("meta", meta(getWorld().b, op[1]));
            else if (k == "parse")
            {
                coil::DefaultLexer l(cv(op[1]), cv(op[2]), cv(op[3]), cv(op[4]));
                auto r = l.parse(keep(op[5]));
                say("parse", r ? ::show(*r) : "error <" + ss(r.error()) + ">");
            }
            else if (k == "value")
            {
                size_t at = 2;
                coil::Value v = value(op, at);
                switch (num(op[1]))
                {
#define T(i, ...)                                      \
    case i:                                            \
        say(render(v.get<__VA_ARGS__>()));             \
        break;
                    T(0, char)
                    T(1, signed char)
                    T(2, unsigned char)
                    T(3, short)
                    T(4, unsigned short)
                    T(5, int)
                    T(6, unsigned)
                    T(7, long)
                    T(8, unsigned long)
                    T(9, long long)
                    T(10, unsigned long long)
                    T(11, float)
                    T(12, double)
                    T(13, long double)
                    T(14, bool)
                    T(15, coil::String)
                    T(16, coil::StringView)
                    T(17, std::string)
                    T(18, std::string_view)
                    T(19, std::vector<int>)
                    T(20, std::vector<std::string>)
                    T(21, std::optional<unsigned short>)
                    T(22, std::vector<std::optional<long long>>)
                    T(23, world::Color)
                    T(24, world::Point)
                default:
                    say("value", ss(v.str()) + " " + (v == coil::Value(coil::Vector<coil::StringView>(v.subvalues)) ? "=" : "!") + " " + ss(coil::errors::createGenericError<std::vector<unsigned char>>(v, "details").value()) + " " + ss(coil::errors::createMismatchedSubvaluesError<long long>(v, v.subvalues.size() + 3).value()));
#undef T
                }
            }
            else if (k == "conv")
            {
                convert<char>(op[1]);
                convert<signed char>(op[1]);
                convert<unsigned char>(op[1]);
                convert<short>(op[1]);
                convert<unsigned short>(op[1]);
                convert<int>(op[1]);
                convert<unsigned>(op[1]);
                convert<long>(op[1]);
                convert<unsigned long>(op[1]);
                convert<long long>(op[1]);
                convert<unsigned long long>(op[1]);
                convert<float>(op[1]);
                convert<double>(op[1]);
                convert<long double>(op[1]);
            }
            else if (k == "format")
            {
                int n = static_cast<int>(num(op[3]));
                long long x = static_cast<long long>(num(op[4]));
                char const* t = op[2].c_str();
                coil::String s;
                switch (num(op[1]))
                {
                case 0:
                    s = coil::sprintf("%s", t);
                    break;
                case 1:
                    s = coil::sprintf("%*s|%.*s", n, t, n, t);
                    break;
                case 2:
                    s = coil::sprintf("%lld %llx %d", x, static_cast<unsigned long long>(x), n);
                    break;
                case 3:
                    s = coil::sprintf("%g %f %e", static_cast<double>(x), static_cast<double>(n) / 7, static_cast<double>(x) / 3);
                    break;
                case 4:
                    s = coil::sprintf("%s%s%s%c", t, t, t, 'c');
                    break;
                case 5:
                    s = coil::sprintf("%0*d", n, n);
                    break;
                case 6:
                    s = coil::toString(x) + coil::toString(static_cast<unsigned long long>(x)) + coil::toString(n) + coil::toString(static_cast<double>(x)) + coil::toString(static_cast<float>(x)) + coil::toString(static_cast<long double>(x) / 1000);
                    break;
                default:
                    s = coil::sprintf("%s", "");
                }
                say("format", ss(s) + " " + std::to_string(s.length()));
            }
            else if (k == "string")
                stringStep(op);
            else if (k == "vector")
            {
                vectorStep(op);
                plainSteps(op);
            }
            else if (k == "map")
                mapStep(op);
            else
                say("unknown");
        }
        world::World& getWorld()
        {
            if (!w)
                w = std::make_unique<world::World>();
            return *w;
        }
        void stringStep(Op const& op)
        {
            coil::String& x = s[num(op[1]) % 4];
            coil::String& y = s[num(op[3]) % 4];
            std::string const& t = op[4];
            size_t n = num(op[5]);
            switch (num(op[2]))
            {
            case 0:
                x = coil::String(cv(t));
                break;
            case 1:
                x = coil::String(t.c_str());
                break;
            case 2:
                x += y;
                break;
            case 3:
                x += cv(t);
                break;
            case 4:
                x += t.c_str();
                break;
            case 5:
                x += static_cast<char>(n);
                break;
            case 6:
                x = y;
                break;
            case 7:
                x.reserve(n * 3);
                break;
            case 8:
            {
                size_t old = x.length();
                x.resize(n);
                for (size_t i = old; i < n; i++) // the contents of a grown part are not specified
                    x.data()[i] = 'r';
                break;
            }
            case 9:
                x.append(t.data(), t.size());
                break;
            case 10:
                x = y + t.c_str() + x + 'c' + cv(t);
                break;
            case 11:
            {
                coil::StringView v = y;
                size_t from = v.length() ? n % v.length() : 0;
                coil::StringView part = v.substr(from, (v.length() - from) / 2);
                say("sub", ss(part) + (part == v ? "=" : "!") + (x == v ? "=" : "!"));
                x = coil::String(part);
                break;
            }
            case 12:
                if (x.length() > 400)
                    x = "";
                else
                    x.append(x.data() + x.length() / 3, x.length() / 3);
                break;
            default:
                say("compare", std::string(x == y ? "=" : "!") + (x == t.c_str() ? "=" : "!") + (x == cv(t) ? "=" : "!") + std::to_string(coil::Hash<coil::String>{}(x)) + " " + std::to_string(coil::Hash<coil::StringView>{}(cv(t))) + (x.empty() ? "" : std::string(1, x.back())));
            }
            if (x.length() > 5000)
                x = "";
            say("string", std::to_string(x.length()) + " <" + ss(x) + ">");
        }
        void vectorStep(Op const& op)
        {
            auto& x = v[num(op[1]) % 4];
            auto& y = v[num(op[3]) % 4];
            size_t n = num(op[5]);
            switch (num(op[2]))
            {
            case 0:
            case 1:
            case 2:
                x.pushBack(cs(op[4]));
                break;
            case 3:
                if (!x.empty())
                    x.popBack();
                break;
            case 4:
                x = y;
                break;
            case 5:
                x.resize(n);
                break;
            case 6:
                x.reserve(n);
                break;
            case 7:
                if (n < 3)
                    x.clear();
                break;
            case 8:
                if (!x.empty())
                    x[n % x.size()] = x.back() + op[4].c_str();
                break;
            default:
                x = coil::Vector<coil::String>(y.begin(), y.begin() + static_cast<ptrdiff_t>(y.size() / 2));
            }
            std::string r = std::to_string(x.size()) + (x == y ? "=" : "!");
            for (auto const& e : x)
            {
                r += "<" + ss(e) + ">";
                if (r.size() > 5000)
                    break;
            }
            if (!x.empty() && x.back().length() > 500)
                x.back() = "";
            if (x.size() > 60)
                x.clear();
            say("vector", r);
        }
        void plainSteps(Op const& op)
        {
            if (num(op[5]) % 2)
                plainStep(vi, op);
            else
                plainStep(vp, op);
        }
        void mapStep(Op const& op)
        {
            auto& x = m[num(op[1]) % 4];
            switch (num(op[2]))
            {
            case 0:
            case 1:
            case 2:
            {
                auto it = x.insertOrAssign(cs(op[3]), cs(op[4]));
                say("inserted", ss(it->key()) + "=" + ss(it->value()));
                break;
            }
            case 3:
                x.erase(cv(op[3]));
                break;
            case 4:
                x = m[(num(op[1]) + 1) % 4];
                break;
            case 5:
            {
                auto it = x.find(cs(op[3]));
                say("found", it != x.end() ? ss(it->value()) : "not");
                break;
            }
            default:
                if (op[4].size() < 2)
                    x.clear();
            }
            std::map<std::string, std::string> all;
            for (auto& e : x)
                all[ss(e.key())] += ss(e.value());
            std::string r = std::to_string(x.size());
            for (auto& e : all)
                r += "<" + e.first + "=" + e.second + ">";
            say("map", r);
        }
    };
}

// c24 WORK OUT fill stackPattern [case]: OUT gets the hash of each case's transcript, or the text of one
int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    FILE* f = fopen(argv[1], "rb");
    FILE* o = fopen(argv[2], "wb");
    if (!f || !o)
        return 2;
    fill = atoi(argv[3]);
    int stack = atoi(argv[4]);
    long only = argc > 5 ? atol(argv[5]) : -1;
    size_t ops = 0, lines = 0;
    for (long i = 0;; i++)
    {
        uint32_t n;
        auto get = [&] {
            uint32_t x;
            if (fread(&x, 4, 1, f) != 1)
                exit(2);
            return x;
        };
        if (fread(&n, 4, 1, f) != 1)
            break;
        std::vector<Op> todo(n);
        for (auto& op : todo)
        {
            op.resize(get());
            for (auto& s : op)
            {
                s.resize(get());
                if (!s.empty() && fread(&s[0], 1, s.size(), f) != s.size())
                    return 2;
            }
        }
        if (only >= 0 && i != only)
            continue;
        vh::st().caseIndex = static_cast<uint64_t>(i);
        alarm(60);
        out.clear();
        {
            auto c = std::make_unique<Case>();
            for (size_t j = 0; j < todo.size(); j++)
            {
                say("#", std::to_string(j) + " " + todo[j][0]);
                dirtyStack(stack);
                c->step(todo[j]);
                ops++;
            }
        }
        if (only >= 0)
        {
            for (auto& op : todo)
            {
                fputs("OP", stdout);
                for (auto& s : op)
                    printf(" \"%s\"", vh::esc(s).c_str());
                fputs("\n", stdout);
            }
            size_t at = 0;
            while (at < out.size())
            {
                size_t e = out.find("\n#", at + 1);
                if (e == std::string::npos)
                    e = out.size();
                fprintf(o, "%s\n", vh::esc(std::string_view(out).substr(at, e - at)).c_str());
                at = e + 1;
            }
            break;
        }
        // as it is, and with all integer type names replaced by their aliases
        uint64_t h[2] = {vh::hashStr(out), 0};
        for (char c : out)
            lines += c == '\n';
        std::string norm;
        size_t at = 0;
        static std::pair<char const*, char const*> const alias[] = {{"unsigned char", "uint8"}, {"unsigned short", "uint16"}, {"unsigned int", "uint32"}, {"unsigned long long", nullptr}, {"unsigned long", "uint64"}, {"signed char", "int8"}, {"long long", nullptr}, {"long double", nullptr}, {"short", "int16"}, {"int", "int32"}, {"long", "int64"}};
        while (at < out.size())
        {
            bool word = at == 0 || !isalnum(static_cast<unsigned char>(out[at - 1]));
            size_t len = 0;
            for (auto& a : alias)
            {
                size_t l = strlen(a.first);
                if (word && out.compare(at, l, a.first) == 0 && (at + l == out.size() || !isalnum(static_cast<unsigned char>(out[at + l]))))
                {
                    norm += a.second ? a.second : a.first;
                    len = l;
                    break;
                }
            }
            if (len)
                at += len;
            else
                norm += out[at++];
        }
        h[1] = vh::hashStr(norm);
        fwrite(h, 8, 2, o);
    }
    if (fclose(o) != 0)
        return 2;
    printf("VH-DONE %zu %zu\n", ops, lines);
    return 0;
}
