#define VH_NO_MAIN_DEFS
#include "model.h"

#include <sched.h>

namespace model
{
    thread_local int nextId = 1;
    static thread_local std::vector<Call> ownCalls;
    static thread_local std::vector<std::string> ownRunning;
    std::vector<Call>& Env::callLog() { return shared ? ownCalls : calls; }
    std::vector<std::string>& Env::runLog() { return shared ? ownRunning : running; }

    // ---- exceptions -----------------------------------------------------------------------------
    void throwNow(Thrown const& t)
    {
        switch (t.kind)
        {
        case 1:
            throw std::runtime_error(t.what);
        case 2:
            throw std::logic_error(t.what);
        case 3:
            throw OwnException(t.what);
        case 4:
            throw DerivedError(t.what);
        case 5:
            throw std::out_of_range(t.what);
        case 6:
            throw 42;
        case 7:
            throw Odd{7};
        case 8:
            throw std::string(t.what);
        case 9:
            throw "a literal";
        default:
            throw coil::String("coil string");
        }
    }
    Thrown describeCurrent()
    {
        try
        {
            throw;
        }
        catch (DerivedError const& e)
        {
            return {4, e.what()};
        }
        catch (OwnException const& e)
        {
            return {3, e.what()};
        }
        catch (std::out_of_range const& e)
        {
            return {5, e.what()};
        }
        catch (std::logic_error const& e)
        {
            return {2, e.what()};
        }
        catch (std::runtime_error const& e)
        {
            return {1, e.what()};
        }
        catch (int v)
        {
            return {v == 42 ? 6 : 0, ""};
        }
        catch (Odd const& o)
        {
            return {o.v == 7 ? 7 : 0, ""};
        }
        catch (std::string const& s)
        {
            return {8, s};
        }
        catch (char const* s)
        {
            return {strcmp(s, "a literal") == 0 ? 9 : 0, ""};
        }
        catch (coil::String const& s)
        {
            return {sv(s) == "coil string" ? 10 : 0, ""};
        }
        catch (...)
        {
            return {};
        }
    }

    // ---- formats --------------------------------------------------------------------------------
#define VH_FORMATS(F)                                                                            \
    F(0, "%s", a.text.c_str())                                                                   \
    F(1, "%d|%5ld|%-8d|%+ld|%x", static_cast<int>(a.a), a.a, static_cast<int>(a.a), a.a, static_cast<unsigned>(a.a)) \
    F(2, "[%.*s]", static_cast<int>(a.text.size() / 2), a.text.c_str())                           \
    F(3, "%g %e %.3f %Lg", a.d, a.d, a.d, static_cast<long double>(a.d))                          \
    F(4, "100%%%s%%", a.text.c_str())                                                            \
    F(5, "a%cb%c", static_cast<int>(a.a & 0xff), 0)                                              \
    F(6, "%zu %lld %llu", a.text.size(), static_cast<long long>(a.a), static_cast<unsigned long long>(a.a)) \
    F(7, "%*d|%-*.*s|", static_cast<int>(a.a & 63), 5, 10, 3, a.text.c_str())                     \
    F(8, "plain text without arguments")                                                         \
    F(9, "%*s%d", static_cast<int>(a.a & 0xfff), "x", 1)                                         \
    F(10, "%s%s%s", a.text.c_str(), a.text.c_str(), a.text.c_str())                              \
    F(11, "%05d %#x %o %hhd %hd", static_cast<int>(a.a), static_cast<unsigned>(a.a), static_cast<unsigned>(a.a), static_cast<int>(static_cast<signed char>(a.a)), static_cast<int>(static_cast<short>(a.a))) \
    F(12, "%s\n", a.text.c_str())                                                                \
    F(13, "a%d\n", static_cast<int>(a.a))                                                        \
    F(14, "\n")                                                                                  \
    F(15, "x\n\n")                                                                               \
    F(16, "\n%s\r\n", a.text.c_str())                                                           \
    F(17, "%d\t", static_cast<int>(a.a))                                                         \
    F(18, "  %s  ", a.text.c_str())                                                              \
    F(19, "%%\n")                                                                                \
    F(20, "%d", static_cast<int>(a.a))                                                           \
    F(21, "%.2f%c", a.d, '\n')                                                                   \
    F(22, "%.0s%s", a.text.c_str(), "")                                                          \
    F(23, "%2$s|%1$d|%2$s", static_cast<int>(a.a), a.text.c_str())                               \
    F(24, "%ju %td %a %G %X %i %u", static_cast<uintmax_t>(a.a), static_cast<ptrdiff_t>(a.a), a.d, a.d, static_cast<unsigned>(a.a), static_cast<int>(a.a), static_cast<unsigned>(a.a)) \
    F(25, "%p", static_cast<void*>(nullptr))                                                     \
    F(26, " %s", a.text.c_str())                                                                 \
    F(27, "%s %s\n\n", a.text.c_str(), "")
    int const formats = 28;

    std::string refFormat(Action const& a)
    {
        std::string b;
        auto f = [&b](char const* fmt, auto... args) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
            int n = snprintf(nullptr, 0, fmt, args...);
            std::vector<char> buf(static_cast<size_t>(n) + 1);
            snprintf(buf.data(), buf.size(), fmt, args...);
#pragma GCC diagnostic pop
            b.assign(buf.data(), static_cast<size_t>(n));
        };
        switch (a.variant)
        {
#define F(n, ...) \
    case n:       \
        f(__VA_ARGS__); \
        break;
            VH_FORMATS(F)
#undef F
        default:
            f("%s", "");
        }
        return b;
    }
    coil::String realSprintf(Action const& a)
    {
        switch (a.variant)
        {
#define F(n, ...) \
    case n:       \
        return coil::sprintf(__VA_ARGS__);
            VH_FORMATS(F)
#undef F
        default:
            return coil::sprintf("%s", "");
        }
    }
    static void realFormat(coil::Context& ctx, Action const& a, bool line)
    {
        switch (a.variant)
        {
#define F(n, ...)                  \
    case n:                        \
        if (line)                  \
            ctx.loglinef(__VA_ARGS__); \
        else                       \
            ctx.logf(__VA_ARGS__); \
        break;
            VH_FORMATS(F)
#undef F
        default:
            if (line)
                ctx.loglinef("%s", "");
            else
                ctx.logf("%s", "");
        }
    }

    // ---- shapes ---------------------------------------------------------------------------------
    template<typename T>
    using Param = std::conditional_t<std::is_same_v<T, coil::Value> || std::is_same_v<T, std::string>, T const&, T>;

    struct Running
    {
        Env* env;
        Running(Env* e, std::string const& n) : env(e) { env->runLog().push_back(n); }
        ~Running() { env->runLog().pop_back(); }
    };

    static void perform(Env* env, coil::Context& ctx, Action const& a, std::string const& args)
    {
        for (unsigned i = 0; i < env->spin; i++)
            asm volatile("" ::: "memory");
        if (env->spin % 3 == 1)
            sched_yield();
        switch (a.kind)
        {
        case Action::Log:
            if (a.variant % 3 == 0 && a.text.find('\0') == std::string::npos)
                ctx.log(a.text.c_str());
            else if (a.variant % 3 == 1)
                ctx.log(coil::fromStdString(a.text));
            else
                ctx.log(cs(a.text));
            break;
        case Action::Logline:
            if (a.variant % 3 == 0 && a.text.find('\0') == std::string::npos)
                ctx.logline(a.text.c_str());
            else
                ctx.logline(cs(a.text));
            break;
        case Action::Logf:
            realFormat(ctx, a, false);
            break;
        case Action::Loglinef:
            realFormat(ctx, a, true);
            break;
        case Action::Error:
            if (a.variant % 3 == 0 && a.text.find('\0') == std::string::npos)
                ctx.reportError(a.text.c_str());
            else
                ctx.reportError(cs(a.text));
            break;
        case Action::Errors:
            switch (a.variant % 4)
            {
            case 0:
                ctx.reportErrors();
                break;
            case 1:
                ctx.reportErrors(cs(a.text));
                break;
            case 2:
                ctx.reportErrors("first %s", cs(a.text), coil::String("third"));
                break;
            default:
            {
                coil::String const lvalue = cs(a.text);
                ctx.reportErrors(lvalue, lvalue, cs(a.text));
            }
            }
            break;
        case Action::HasErrors:
            ctx.log(ctx.hasErrors() ? "E1" : "E0");
            break;
        case Action::Named:
            for (auto const& n : ctx.namedArgs())
            {
                ctx.log(coil::String(n.key));
                ctx.log("=");
                ctx.logline(n.value.str());
            }
            break;
        case Action::EchoArgs:
            ctx.log(cs(args));
            break;
        case Action::Exec:
            if (env->runLog().size() >= static_cast<size_t>(env->maxDepth) || env->callLog().size() >= env->maxCalls)
            {
                ctx.log("deep");
                break;
            }
            if (a.guard)
            {
                try
                {
                    ref::Exact text(a.text);
                    auto r = env->b.execute(cv(text));
                    ctx.log(cs(render(r)));
                }
                catch (...)
                {
                    Thrown t = describeCurrent();
                    ctx.log(cs("caught" + std::to_string(t.kind) + t.what));
                }
            }
            else
            {
                ref::Exact text(a.text);
                auto r = env->b.execute(cv(text));
                ctx.log(cs(render(r)));
            }
            break;
        case Action::Bind:
            if (env->isRunning(a.text))
                ctx.log("busy");
            else
            {
                env->bind(a.text, a.def);
                ctx.log(env->b.get(cv(a.text)) ? "bound" : "lost");
            }
            break;
        case Action::Unbind:
            if (env->isRunning(a.text))
                ctx.log("busy");
            else
            {
                env->unbind(a.text);
                ctx.log(env->b.get(cv(a.text)) ? "still there" : "gone");
            }
            break;
        case Action::Throw:
            throwNow(a.thrown);
        }
    }

    struct Ops
    {
        size_t arity;
        std::vector<ref::CR> (*convert)(std::vector<ref::Fields> const&);
        std::vector<ref::Fields> (*fields)(vh::Gen&, bool);
        coil::AnyFunctor (*make)(Env*, std::string const&, std::shared_ptr<Overload const>);
    };
    template<typename... Ts>
    struct Shape
    {
        template<size_t... I>
        static std::vector<ref::CR> convertAt(std::vector<ref::Fields> const& a, std::index_sequence<I...>)
        {
            (void)a;
            return {ref::Conv<Ts>::conv(a[I])...};
        }
        static std::vector<ref::CR> convert(std::vector<ref::Fields> const& a) { return convertAt(a, std::index_sequence_for<Ts...>{}); }
        static std::vector<ref::Fields> fields(vh::Gen& g, bool valid)
        {
            (void)g;
            (void)valid;
            return {ref::Conv<Ts>::fields(g, valid)...};
        }
        static std::string body(Env* env, std::string const& name, Overload const& o, coil::Context* ctx, Ts const&... v)
        {
            std::string args;
            ((args += "|" + ref::Conv<Ts>::canon(v)), ...);
            env->callLog().push_back({o.id, args});
            Running r(env, name);
            if (ctx)
            {
                // a context may be copied and passed on: all the copies belong to the same execution
                coil::Context kept(*ctx);
                for (auto const& a : o.script)
                    switch (a.route)
                    {
                    case 1:
                        perform(env, kept, a, args);
                        break;
                    case 2:
                    {
                        coil::Context copy(*ctx);
                        perform(env, copy, a, args);
                        break;
                    }
                    case 3:
                        [&](coil::Context byValue) { perform(env, byValue, a, args); }(coil::Context(*ctx));
                        break;
                    default:
                        perform(env, *ctx, a, args);
                    }
            }
            return "r" + std::to_string(o.id) + args;
        }
        static coil::AnyFunctor make(Env* env, std::string const& name, std::shared_ptr<Overload const> o)
        {
            auto one = [](coil::Vector<coil::AnyFunctor> v) { return coil::AnyFunctor(coil::move(v[0])); };
            if (o->ctx)
                switch (o->ret)
                {
                case Ret::None:
                    return one(coil::overloaded([env, name, o](coil::Context ctx, Param<Ts>... v) { body(env, name, *o, &ctx, v...); }));
                case Ret::Text:
                    return one(coil::overloaded([env, name, o](coil::Context ctx, Param<Ts>... v) { return body(env, name, *o, &ctx, v...) + (o->id ? "" : "?"); }));
                case Ret::NullPointer:
                    return one(coil::overloaded([env, name, o](coil::Context ctx, Param<Ts>... v) -> int* { body(env, name, *o, &ctx, v...); return o->id ? nullptr : reinterpret_cast<int*>(env); }));
                default:
                    return one(coil::overloaded([env, name, o](coil::Context ctx, Param<Ts>... v) -> char const* { body(env, name, *o, &ctx, v...); return o->id ? "c %s" : nullptr; }));
                }
            if (o->ret == Ret::None)
                return one(coil::overloaded([env, name, o](Param<Ts>... v) { body(env, name, *o, nullptr, v...); }));
            return one(coil::overloaded([env, name, o](Param<Ts>... v) { return coil::fromStdString(body(env, name, *o, nullptr, v...)); }));
        }
        static Ops ops() { return {sizeof...(Ts), &convert, &fields, &make}; }
    };
    static Ops const& ops(int shape)
    {
        static Ops const all[shapes] = {
            Shape<>::ops(),
            Shape<int>::ops(),
            Shape<std::string>::ops(),
            Shape<coil::Value>::ops(),
            Shape<int, unsigned char>::ops(),
            Shape<coil::StringView, bool>::ops(),
            Shape<std::vector<int>, double>::ops(),
            Shape<short, coil::String, coil::Value>::ops(),
            Shape<std::optional<int>, int, std::string_view>::ops(),
            Shape<int, int, bool, int>::ops(),
        };
        return all[shape];
    }
    size_t Overload::arity() const { return ops(shape).arity; }
    std::vector<ref::CR> Overload::convert(std::vector<ref::Fields> const& args) const { return ops(shape).convert(args); }
    std::vector<ref::Fields> Overload::fields(vh::Gen& g, bool valid) const { return ops(shape).fields(g, valid); }
    coil::AnyFunctor makeFunctor(Env* env, std::string const& name, std::shared_ptr<Overload const> o) { return ops(o->shape).make(env, name, o); }

    void Env::bind(std::string const& name, DefPtr const& def)
    {
        coil::Vector<coil::AnyFunctor> f;
        for (auto const& o : def->overloads)
            f.pushBack(makeFunctor(this, name, o));
        if (f.size() == 1 && def->overloads[0]->id % 2)
            b.add(cv(name), coil::AnyFunctor(coil::move(f[0])));
        else
            b[cv(name)] = coil::move(f);
    }
    void Env::unbind(std::string const& name)
    {
        if (name.size() % 2)
            b.remove(cv(name));
        else
            b[cv(name)] = nullptr;
    }

    // ---- prediction -----------------------------------------------------------------------------
    static bool hasNul(std::string const& s) { return s.find('\0') != std::string::npos; }

    struct Unwind
    {
        Thrown t;
    };
    static void predict(Model& m, Result& r, Action const& a, std::string const& args, Named const& named)
    {
        switch (a.kind)
        {
        case Action::Log:
            r.out += a.text;
            break;
        case Action::Logline:
            r.out += a.text + "\n";
            break;
        case Action::Logf:
            r.out += refFormat(a);
            break;
        case Action::Loglinef:
            r.out += refFormat(a) + "\n";
            break;
        case Action::Error:
            r.errors.push_back({a.text, false, ""});
            break;
        case Action::Errors:
            switch (a.variant % 4)
            {
            case 0:
                break;
            case 1:
                r.errors.push_back({a.text, false, ""});
                break;
            case 2:
                r.errors.push_back({"first %s", false, ""});
                r.errors.push_back({a.text, false, ""});
                r.errors.push_back({"third", false, ""});
                break;
            default:
                for (int i = 0; i < 3; i++)
                    r.errors.push_back({a.text, false, ""});
            }
            break;
        case Action::HasErrors:
            r.out += r.errors.empty() ? "E0" : "E1";
            break;
        case Action::Named:
            for (auto const& n : named)
                r.out += n.first + "=" + ref::join(n.second) + "\n";
            break;
        case Action::EchoArgs:
            r.out += args;
            break;
        case Action::Exec:
        {
            if (m.running.size() >= static_cast<size_t>(m.maxDepth) || m.calls.size() >= m.maxCalls)
            {
                r.out += "deep";
                break;
            }
            Result in = m.executeText(a.text);
            if (in.open)
                r.open = true;
            for (auto& e : in.errors)
                if (e.lenient)
                    r.open = true;
            if (in.threw)
            {
                if (!a.guard)
                    throw Unwind{*in.threw};
                r.out += "caught" + std::to_string(in.threw->kind) + in.threw->what;
            }
            else
                r.out += render(in);
            break;
        }
        case Action::Bind:
            if (m.isRunning(a.text))
                r.out += "busy";
            else
            {
                m.cmds[a.text] = a.def;
                r.out += "bound";
            }
            break;
        case Action::Unbind:
            if (m.isRunning(a.text))
                r.out += "busy";
            else
            {
                m.cmds.erase(a.text);
                r.out += "gone";
            }
            break;
        case Action::Throw:
        {
            Thrown t = a.thrown;
            if (t.kind <= 5 || t.kind == 8)
                t.what = t.kind == 8 ? t.what : std::string(t.what.c_str());
            else
                t.what.clear();
            throw Unwind{t};
        }
        }
    }

    Result Model::execute(std::string const& name, std::vector<ref::Fields> const& args, Named const& named)
    {
        Result r;
        if (name.empty())
        {
            r.errors.push_back({"No function name is specified", false, ""});
            return r;
        }
        auto it = cmds.find(name);
        if (it == cmds.end())
        {
            r.errors.push_back({"No function '" + name + "' is registered", hasNul(name), "No function '"});
            return r;
        }
        DefPtr def = it->second;
        Overload const* o = nullptr;
        for (auto const& x : def->overloads)
            if (x->arity() == args.size())
            {
                o = x.get();
                break;
            }
        if (!o)
        {
            std::string s;
            auto const& v = def->overloads;
            for (size_t i = 0; i < v.size(); i++)
                s += (i == 0 ? "" : i + 1 == v.size() ? " or " : ", ") + std::to_string(v[i]->arity());
            r.errors.push_back({"Wrong number of arguments to '" + name + "': expected " + s + ", got " + std::to_string(args.size()), hasNul(name), "Wrong number of arguments to '"});
            return r;
        }
        auto conv = o->convert(args);
        std::string canon;
        for (auto& c : conv)
        {
            r.open = r.open || c.open;
            if (!c.ok)
                r.errors.push_back({c.err, c.hasNul, "Unable to convert '"});
            canon += "|" + c.canon;
        }
        if (!r.errors.empty() || r.open)
            return r;
        calls.push_back({o->id, canon});
        running.push_back(name);
        try
        {
            if (o->ctx)
                for (auto const& a : o->script)
                    predict(*this, r, a, canon, named);
            if (r.errors.empty() && o->ret != Ret::None)
            {
                r.hasRet = true;
                r.ret = o->ret == Ret::NullPointer ? "null" : o->ret == Ret::CString ? "c %s" : "r" + std::to_string(o->id) + canon;
                if (!o->ctx)
                    r.ret = "r" + std::to_string(o->id) + canon;
            }
        }
        catch (Unwind& u)
        {
            if (catches)
                r.errors.push_back({u.t.std() ? "Exception caught during execution: " + u.t.what : "Exception caught during execution", false, ""});
            else
                r.threw = u.t;
        }
        running.pop_back();
        return r;
    }

    Result Model::executeText(std::string const& text)
    {
        texts.push_back(text);
        ref::Parsed p = ref::parse(text, cfg);
        if (!p.ok)
        {
            Result r;
            r.errors.push_back({"Syntax error: " + p.error, p.errorHasNul, "Syntax error: "});
            return r;
        }
        auto str = [&](ref::Span s) { return std::string(sub(text, s)); };
        auto val = [&](ref::Val const& v) {
            ref::Fields f;
            for (auto s : v.subs)
                f.push_back(str(s));
            return f;
        };
        std::vector<ref::Fields> args;
        Named named;
        for (auto& a : p.args)
            args.push_back(val(a));
        for (auto& n : p.named)
            named.emplace_back(str(n.first), val(n.second));
        return execute(p.hasName ? str(p.name) : "", args, named);
    }

    // ---- text forms -----------------------------------------------------------------------------
    std::string render(Result const& r)
    {
        std::string s = "{" + (r.hasRet ? "=" + r.ret : std::string("-")) + "/" + r.out;
        for (auto& e : r.errors)
            s += "/!" + e.text;
        if (r.threw)
            s += "/threw " + std::to_string(r.threw->kind) + r.threw->what;
        return s + "}";
    }
    std::string render(coil::ExecutionResult const& r)
    {
        std::string s = "{" + (r.returnValue ? "=" + ss(*r.returnValue) : std::string("-")) + "/" + ss(r.output);
        for (auto const& e : r.errors)
            s += "/!" + ss(e);
        return s + "}";
    }
    std::string showDef(DefPtr const& d)
    {
        std::string s = "[";
        for (auto const& o : d->overloads)
            s += "#" + std::to_string(o->id) + " shape " + std::to_string(o->shape) + (o->ctx ? " ctx" : "") + " ret " + std::to_string(static_cast<int>(o->ret)) + "/" + std::to_string(o->script.size()) + " ";
        return s + "]";
    }

    std::string difference(coil::ExecutionResult const& r, Result const& w)
    {
        if (w.open)
            return "";
        if (w.threw)
            return "an exception should have escaped";
        if (r.returnValue.hasValue() != w.hasRet)
            return w.hasRet ? "no return value" : "a return value";
        if (w.hasRet && sv(*r.returnValue) != w.ret)
            return "another return value";
        if (sv(r.output) != w.out)
            return "another output";
        if (r.errors.size() != w.errors.size())
            return "another number of errors";
        for (size_t i = 0; i < w.errors.size(); i++)
        {
            auto got = sv(r.errors[i]);
            auto& e = w.errors[i];
            if (e.lenient ? got.substr(0, e.prefix.size()) != e.prefix : got != e.text)
                return "another error (number " + std::to_string(i) + ")";
        }
        return "";
    }

    // ---- generation -----------------------------------------------------------------------------
    static std::string genText(vh::Gen& g, Options const& o)
    {
        static char const* const special[] = {"%", "%s", "%n", "%d%d%d%s%s%s", "100%", "%%", "\n", "", "line\nline", "%5$s", "%*d", "\\n", "%1000000d"};
        std::string s = g.chance(1, 4) ? std::string(g.pick(special)) : ref::anyText(g, o.maxText);
        if (g.chance(1, 25))
            s += std::string(g.logsize(o.maxText * 60), static_cast<char>('a' + g.below(26)));
        if (!o.nuls)
            for (auto& c : s)
                if (!c)
                    c = '0';
        return s;
    }
    static std::string genNested(vh::Gen& g, Options const& o)
    {
        static char const* const words[] = {"1", "2", "300", "abc", "true", "'a b'", "(1,2)", "()", "x", "''", "1.5", "-7", "%s", "key=5", "k='v w'"};
        std::string s = g.chance(1, 20) ? "" : g.pick(*o.names);
        if (!s.empty() && !ref::isPlain(s, false))
            s = "'" + s + "'";
        if (o.simple && !g.chance(1, 4))
            return s + (g.coin() ? "" : " 1");
        size_t n = g.below(4);
        for (size_t i = 0; i < n; i++)
            s += std::string(" ") + g.pick(words);
        if (g.chance(1, 15))
            s += g.coin() ? " '" : " (";
        return s;
    }
    Action genAction(vh::Gen& g, Options const& o, int depth)
    {
        Action a;
        a.variant = static_cast<int>(g.below(12));
        a.route = static_cast<int>(g.below(7));
        a.text = genText(g, o);
        a.a = static_cast<long>(g.range(-100000, 100000));
        a.d = static_cast<double>(g.range(-100000, 100000)) / 64;
        if (o.nest && g.chance(1, 2))
        {
            switch (g.below(depth < 2 && !o.readOnly ? 7 : 4))
            {
            case 0:
            case 1:
            case 2:
            case 3:
                a.kind = Action::Exec;
                a.text = genNested(g, o);
                a.guard = g.coin();
                return a;
            case 4:
            case 5:
                a.kind = Action::Bind;
                a.text = g.pick(*o.names);
                a.def = genDef(g, o, depth + 1);
                return a;
            default:
                a.kind = Action::Unbind;
                a.text = g.pick(*o.names);
                return a;
            }
        }
        if (g.chance(1, 8)) // white space around the text
        {
            static char const* const around[] = {"\n", "\r\n", " ", "\n\n", "\t", "\r", "%\n", "\\n", "\v", "\b", "\x1b[0m"};
            std::string const w = g.chance(1, 12) ? std::string(1, '\0') : std::string(g.pick(around));
            a.text = g.chance(3, 4) ? a.text + w : w + a.text;
        }
        if (o.throws && g.chance(1, 5))
        {
            a.kind = Action::Throw;
            a.thrown.kind = static_cast<int>(1 + g.below(throwKinds));
            a.thrown.what = a.text;
            return a;
        }
        switch (g.below(o.errors ? 12 : 8))
        {
        case 0:
        case 1:
            a.kind = Action::Log;
            break;
        case 2:
            a.kind = Action::Logline;
            break;
        case 3:
        case 4:
            a.kind = Action::Logf;
            a.variant = static_cast<int>(g.below(formats));
            break;
        case 5:
            a.kind = Action::Loglinef;
            a.variant = static_cast<int>(g.below(formats));
            break;
        case 6:
            a.kind = Action::Named;
            break;
        case 7:
            a.kind = Action::EchoArgs;
            break;
        case 8:
        case 9:
            a.kind = Action::HasErrors;
            break;
        case 10:
            a.kind = Action::Error;
            break;
        default:
            a.kind = Action::Errors;
        }
        return a;
    }
    DefPtr genDef(vh::Gen& g, Options const& o, int depth)
    {
        auto d = std::make_shared<Def>();
        size_t n = g.chance(1, 4) ? g.below(4) : 1;
        for (size_t i = 0; i < n; i++)
        {
            auto v = std::make_shared<Overload>();
            v->shape = static_cast<int>(g.below(shapes));
            if (o.simple && !g.chance(1, 4))
                v->shape = static_cast<int>(g.below(4)) % 3;
            v->ctx = g.chance(o.simple ? 9 : 4, o.simple ? 10 : 5);
            v->ret = static_cast<Ret>(g.below(4));
            if (!v->ctx && v->ret != Ret::None)
                v->ret = Ret::Text;
            v->id = nextId++;
            if (v->ctx)
            {
                Options local = o;
                local.errors = o.errors && g.chance(1, 3); // most commands succeed
                size_t k = g.below(o.maxActions + 1);
                for (size_t j = 0; j < k; j++)
                    v->script.push_back(genAction(g, local, depth));
            }
            d->overloads.push_back(v);
        }
        return d;
    }
    void genArgs(vh::Gen& g, DefPtr const& d, std::vector<ref::Fields>& args, Named& named, unsigned validNum, unsigned validDen)
    {
        args.clear();
        named.clear();
        if (d && !d->overloads.empty() && !g.chance(1, 10))
        {
            auto const& o = d->overloads[g.below(d->overloads.size())];
            args = o->fields(g, g.chance(validNum, validDen));
            if (g.chance(1, 12) && !args.empty())
                args.pop_back();
        }
        else
            for (size_t n = g.below(6); n; n--)
                args.push_back({std::to_string(g.below(10))});
        if (g.chance(1, 5))
            for (size_t n = 1 + g.below(3); n; n--)
            {
                ref::Fields f(g.coin() ? 1 : g.below(4));
                for (auto& s : f)
                    s = ref::anyText(g, 12);
                named.emplace_back(g.coin() ? "key" : ref::word(g, 6, false), f);
            }
    }
}
