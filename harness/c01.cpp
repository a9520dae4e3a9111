// C01: any byte sequence executes safely.  The oracle here is the instrumentation (ASan, UBSan, asserts, valgrind, ledger,
// watchdog) plus the shape of every result.
#include "world.h"

#include <ctype.h>

// The character functions are undefined for anything but EOF and the values of unsigned char; glibc lets some pass.
// (With __NO_CTYPE the headers don't inline them.)
#define VH_CTYPE(NAME, EXPR)                                                                                                    \
    extern "C" int NAME(int c) noexcept                                                                                        \
    {                                                                                                                          \
        if (c < -1 || c > 255)                                                                                                 \
            vh::violation("ctype", "%s(%d): neither EOF nor the value of an unsigned char", #NAME, c);                        \
        vh::count("ctype-calls");                                                                                             \
        return EXPR;                                                                                                           \
    }
#define VH_ISTYPE(NAME, BIT) VH_CTYPE(NAME, (*__ctype_b_loc())[c] & static_cast<unsigned short>(BIT))
VH_ISTYPE(isalnum, _ISalnum)
VH_ISTYPE(isalpha, _ISalpha)
VH_ISTYPE(iscntrl, _IScntrl)
VH_ISTYPE(isdigit, _ISdigit)
VH_ISTYPE(isgraph, _ISgraph)
VH_ISTYPE(islower, _ISlower)
VH_ISTYPE(isprint, _ISprint)
VH_ISTYPE(ispunct, _ISpunct)
VH_ISTYPE(isspace, _ISspace)
VH_ISTYPE(isupper, _ISupper)
VH_ISTYPE(isxdigit, _ISxdigit)
VH_ISTYPE(isblank, _ISblank)
VH_CTYPE(tolower, (*__ctype_tolower_loc())[c])
VH_CTYPE(toupper, (*__ctype_toupper_loc())[c])

void vh_warmup()
{
    world::World w;
    for (auto& n : world::names())
        for (char const* a : {"", " 1", " x", " 1 2", " (1,2)", " x=1", " '' key=1"})
            w.b.execute(cv(n + a));
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

// every byte of the result takes part in a decision, so that an uninitialised one is noticed
static uint64_t touch(coil::ExecutionResult const& r)
{
    uint64_t h = vh::hashBytes(r.output.cStr(), sv(r.output).size());
    for (auto const& e : r.errors)
        h ^= vh::hashBytes(e.cStr(), sv(e).size());
    if (r.returnValue)
        h ^= vh::hashBytes(r.returnValue->cStr(), sv(*r.returnValue).size());
    return h;
}
static volatile uint64_t sink;

static void run(world::World& w, vh::Gen& g, std::string const& text, bool throwing)
{
    (void)g;
    ref::Exact e(text);
    vh::st().note = vh::esc(text).c_str();
    coil::ExecutionResult r;
    bool threw = false;
    try
    {
        r = w.b.execute(cv(e));
    }
    catch (...)
    {
        threw = true;
    }
    vh::count("executed");
    vh::observe(vh::hashStr(text));
    if (threw)
    {
        VH_CHECK(throwing, "throws", "text \"%s\" makes execute() throw", vh::esc(text).c_str());
        vh::count("threw");
        return;
    }
    VH_CHECK(!(r.returnValue && !r.errors.empty()), "result", "text \"%s\": %s", vh::esc(text).c_str(), vh::esc(show(r)).c_str());
    auto inside = [&](coil::StringView v) { VH_CHECK(insideText(v, e.p, e.n), "view-outside", "text \"%s\": a view of the result lies outside of it", vh::esc(text).c_str()); };
    inside(r.input.name);
    for (auto const& a : r.input.arguments)
        for (auto const& s : a.subvalues)
            inside(s);
    for (auto const& a : r.input.namedArguments)
    {
        inside(a.key);
        for (auto const& s : a.value.subvalues)
            inside(s);
    }
    uint64_t h = touch(r);
    if (h & 1)
        sink = h;
    vh::count(r.errors.empty() ? "succeeded" : "reported-errors");
    if (r.errors.size() > 1)
        vh::count("several-errors");
    if (!r.output.empty())
        vh::count("with-output");
    if (sv(r.output).find("too deep") != std::string_view::npos)
        vh::count("deep-nesting");
    if (r.returnValue && r.errors.empty() && r.input.name.empty())
        vh::violation("result", "text \"%s\": a value without a command", vh::esc(text).c_str());
}

void vh_case(vh::Gen& g)
{
#if COIL_CONFIG_CATCH_EXCEPTIONS
    bool const canThrow = true;
#else
    bool const canThrow = g.chance(1, 6);
#endif
    world::World w(canThrow);
    if (g.chance(2, 3))
        w.extremes(g);
#if COIL_CONFIG_CATCH_EXCEPTIONS
    bool const mayEscape = false;
#else
    bool const mayEscape = canThrow;
#endif
    if (g.chance(1, 5))
    {
        ref::LexCfg cfg = ref::config(g);
        w.b.setLexer(coil::makeUnique<coil::DefaultLexer>(cv(cfg.group), cv(cfg.quotes), cv(cfg.seps), cv(cfg.spaces)));
        vh::count("custom-lexers");
        size_t n = g.fuzz ? 1 : 8;
        for (size_t i = 0; i < n; i++)
        {
            std::string t = ref::command(g, cfg, 40, true, g.pick(world::names()).c_str());
            run(w, g, t, mayEscape);
        }
        return;
    }
    size_t n = g.fuzz ? 1 + g.below(3) : 12;
    size_t max = !g.fuzz && g.chance(1, 40) ? 4000 : 50;
    for (size_t i = 0; i < n; i++)
    {
        std::string t = world::text(g, max);
        if (g.chance(1, 3000))
        {
            size_t rep = 1 + g.logsize(3000);
            std::string big;
            for (size_t k = 0; k < rep; k++)
                big += (k ? " " : "") + t;
            t = big;
        }
        if (g.chance(1, 30))
            t = w.longName + (g.coin() ? "" : t);
        if (g.chance(1, 60))
            vh::sample(vh::esc(t));
        run(w, g, t, mayEscape);
    }
}
