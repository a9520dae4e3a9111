// C17: output and errors are exactly what was logged and reported.
#include "model.h"

#include <cstdarg>

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

static coil::String throughV(char const* f, ...)
{
    va_list a;
    va_start(a, f);
    coil::String s = coil::vsprintf(f, a);
    va_end(a);
    return s;
}

static void formatting(vh::Gen& g)
{
    model::Options o;
    o.maxText = g.chance(1, 10) ? 3000 : 60;
    o.errors = false;
    for (int i = 0; i < 4; i++)
    {
        model::Action a = model::genAction(g, o);
        a.variant = static_cast<int>(g.below(static_cast<uint64_t>(model::formats)));
        coil::String s = model::realSprintf(a);
        std::string w = model::refFormat(a);
        VH_CHECK(sv(s) == w, "sprintf", "format %d: \"%s\", should be \"%s\"", a.variant, vh::esc(sv(s)).c_str(), vh::esc(w).c_str());
        vh::count("sprintf");
    }
    std::string t = ref::anyText(g, 50).c_str();
    int n = static_cast<int>(g.range(-1000, 1000));
    coil::String s = throughV("%d %s", n, t.c_str());
    VH_CHECK(sv(s) == std::to_string(n) + " " + t, "vsprintf", "\"%s\"", vh::esc(sv(s)).c_str());
}

// text which isn't a format, in every place where the library puts it into a message
static void messages(vh::Gen& g)
{
    static char const* const nasty[] = {"%s", "%n", "%d%s%n", "100%", "%%", "%5$n", "%.100000d", "a%", "\\%s", "%s%s%s%s%s%s%s%s", "%ls", "%lc", "{}", "%*.*f"};
    std::string t = g.coin() ? std::string(g.pick(nasty)) : ref::word(g, 20, true);
    if (g.chance(1, 10))
        t += std::string(g.logsize(4000), 'x');
    if (t.find('\0') != std::string::npos || t.size() < 2)
        return;
    coil::Bindings b;
    b["i"] = [](int) {};
    b["v"] = [](std::vector<int> const&) {};
    b["n"] = [](coil::Context ctx, coil::StringView key) { ctx.namedArgs().getOrReport(key, coil::NamedArgs::ArgType::Required); };
    b["t"] = [](coil::Context ctx, std::string const& s) { ctx.namedArgs().getOrReport<bool>(cv(s)); };
    b[cv(t)] = [](int, int) {};
    ref::Exec ex;
    coil::ExecutionResult r;
    std::string want;
    ref::CR bad = ref::Conv<int>::conv({t});
    switch (g.below(COIL_CONFIG_CATCH_EXCEPTIONS ? 9 : 7))
    {
    case 0:
        r = ex.run(g, b, t + "?", {});
        want = "No function '" + t + "?' is registered";
        break;
    case 1:
        r = ex.run(g, b, t, {});
        want = "Wrong number of arguments to '" + t + "': expected 2, got 0";
        break;
    case 2:
        r = ex.run(g, b, "i", {{t}});
        if (bad.ok || bad.open)
            return;
        want = bad.err;
        break;
    case 3:
        r = ex.run(g, b, "v", {{"1", t, t}});
        if (bad.ok || bad.open)
            return;
        want = "Unable to convert '1 " + t + " " + t + "' to type 'vector<int>': Unable to convert '" + t + "' to type 'int'";
        break;
    case 4:
        r = ex.run(g, b, "n", {{t}});
        want = "Missing named argument '" + t + "'";
        break;
    case 5:
        r = ex.run(g, b, "t", {{t}}, {{t, {t, "%s"}}});
        want = "Unable to convert '" + t + " %s' to type 'bool': Expected 1 subvalues, got 2";
        break;
    case 6:
    {
        if (!ref::isQuotable(t, false))
            return;
        std::string text = "'" + t + "' =";
        ex.exact = std::make_unique<ref::Exact>(text);
        r = b.execute(cv(*ex.exact));
        ref::Parsed p = ref::parse(text);
        want = "Syntax error: " + p.error;
        break;
    }
    case 7:
        b["x"] = [t]() { throw std::runtime_error(t); };
        r = b.execute("x");
        want = "Exception caught during execution: " + t;
        break;
    default:
        b["x"] = [t](coil::Context ctx) -> int {
            ctx.reportError(cs(t));
            ctx.log(cs(t));
            throw model::OwnException(t);
        };
        r = b.execute("x");
        VH_CHECK(r.errors.size() == 2 && sv(r.errors[0]) == t && sv(r.errors[1]) == "Exception caught during execution: " + t && sv(r.output) == t && !r.returnValue, "message", "\"%s\": %s", vh::esc(t).c_str(), vh::esc(show(r)).c_str());
        return;
    }
    VH_CHECK(r.errors.size() == 1 && sv(r.errors[0]) == want && sv(r.output).empty() && !r.returnValue, "message", "%s, should report \"%s\"", vh::esc(show(r)).c_str(), vh::esc(want).c_str());
    vh::count("messages");
}

static void encodingError(vh::Gen& g)
{
    // printf reports an error here: only what was logged before and memory safety are judged
    coil::Bindings b;
    bool line = g.coin();
    b["f"] = [line](coil::Context ctx) {
        ctx.log("before");
        wchar_t w[] = {L'a', static_cast<wchar_t>(0xd800), 0};
        if (line)
            ctx.loglinef("%ls", w);
        else
            ctx.logf("%ls", w);
        ctx.log("after");
    };
    auto r = b.execute("f");
    auto out = sv(r.output);
    VH_CHECK(out.substr(0, 6) == "before" && out.size() >= 11 && out.substr(out.size() - 5) == "after" && r.errors.empty(), "encoding-error", "%s", vh::esc(show(r)).c_str());
    vh::count("encoding-errors");
}

void vh_case(vh::Gen& g)
{
    model::nextId = 1;
    formatting(g);
    messages(g);
    if (g.chance(1, 50))
        encodingError(g);

    model::Options o;
    o.maxText = g.chance(1, 8) ? 600 : 30;
    o.maxActions = g.chance(1, 20) ? 200 : 25;
    o.throws = COIL_CONFIG_CATCH_EXCEPTIONS && g.chance(1, 4);
    model::Model m;
    auto env = std::make_unique<model::Env>();
    std::vector<std::string> names = {"f", "g"};
    for (auto& n : names)
    {
        auto d = model::genDef(g, o);
        m.cmds[n] = d;
        env->bind(n, d);
    }
    for (int i = 0; i < 4; i++)
    {
        std::string const& n = g.pick(names);
        std::vector<ref::Fields> args;
        model::Named named;
        model::genArgs(g, m.cmds[n], args, named, 19, 20);
        env->calls.clear();
        m.calls.clear();
        ref::Exec ex;
        auto r = ex.run(g, env->b, n, args, named);
        auto w = m.execute(n, args, named);
        std::string what = vh::esc(ex.text);
        vh::st().note = what.c_str();
        model::compare(r, w, what, "logged");
        vh::observe(vh::hashStr(w.out + "/" + std::to_string(w.errors.size())), !w.out.empty() || w.errors.size() > 1);
        if (!w.out.empty())
            vh::count("outputs");
        vh::count("bytes-logged", w.out.size());
        if (w.out.find('\0') != std::string::npos)
            vh::count("outputs-with-NUL");
        if (w.errors.size() > 1)
            vh::count("several-errors");
        if (w.out.size() > 5000)
            vh::count("long-outputs");
        if (g.chance(1, 1000))
            vh::sample(what + " -> " + vh::esc(w.out));
    }
}
