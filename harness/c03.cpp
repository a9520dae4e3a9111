// C03: parse results are views of the caller's text, and the rest of a result owns its bytes.
#include "world.h"

void vh_warmup() { world::World w; }
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

static std::vector<std::string> snapshot(coil::ExecutionResult const& r)
{
    std::vector<std::string> s;
    s.push_back(ss(r.output));
    s.push_back(r.returnValue ? "r" + ss(*r.returnValue) : "none");
    for (auto const& e : r.errors)
        s.push_back(ss(e));
    return s;
}

// a lexer which remembers where its views were
static void parseCase(vh::Gen& g)
{
    bool custom = g.coin();
    ref::LexCfg cfg = custom ? ref::config(g) : ref::LexCfg{};
    std::unique_ptr<coil::DefaultLexer> lexer;
    if (custom)
        lexer = std::make_unique<coil::DefaultLexer>(cv(cfg.group), cv(cfg.quotes), cv(cfg.seps), cv(cfg.spaces));
    else
        lexer = std::make_unique<coil::DefaultLexer>();
    std::string text = ref::command(g, cfg, g.chance(1, 50) ? 3000 : 40);
    vh::st().note = vh::esc(text).c_str();
    ref::Parsed p = ref::parse(text, cfg);
    ref::Exact e(text);
    vh::observe(vh::hashStr(text), p.tokens > 0);
    auto r = lexer->parse(cv(e));
    if (!p.ok)
    {
        if (!r)
        {
            std::string before = ss(r.error());
            e.release();
            lexer.reset();
            VH_CHECK(sv(r.error()) == before, "error-owned", "the error of \"%s\" changes with the text", vh::esc(text).c_str());
            vh::count("parse-errors");
        }
        return;
    }
    if (!r)
        return;
    // the views do not depend on the lexer, nor on copies and moves of the result
    lexer.reset();
    checkInput(text, e.p, *r, p, true, "view-position");
    auto copy = r;
    auto moved = coil::move(r);
    checkInput(text, e.p, *copy, p, true, "view-position");
    checkInput(text, e.p, *moved, p, true, "view-position");
    vh::count("views-checked", p.args.size() + p.named.size());
}

static void executeCase(vh::Gen& g)
{
    auto w = std::make_unique<world::World>();
    std::vector<coil::ExecutionResult> results;
    std::vector<std::vector<std::string>> shots;
    std::vector<std::unique_ptr<ref::Exact>> texts;
    size_t n = 1 + g.below(6);
    for (size_t i = 0; i < n; i++)
    {
        std::string text = g.chance(1, 2) ? world::text(g, 40) : ref::command(g, {}, 40, true, g.pick(world::names()).c_str());
        vh::st().note = vh::esc(text).c_str();
        texts.push_back(std::make_unique<ref::Exact>(text));
        auto& e = *texts.back();
        auto r = w->b.execute(cv(e));
        ref::Parsed p = ref::parse(text);
        if (p.ok)
        {
            checkInput(text, e.p, r.input, p, true, "result-input");
            vh::count("inputs-checked");
        }
        else
            VH_CHECK(r.input.name.empty() && r.input.arguments.empty() && r.input.namedArguments.empty(), "result-input", "text \"%s\" is rejected but the result reports an input", vh::esc(text).c_str());
        shots.push_back(snapshot(r));
        results.push_back(coil::move(r));
        vh::observe(vh::hashStr(text));
        if (g.chance(1, 40))
            vh::sample(vh::esc(text));
    }
    // texts, bindings and callables die in any order
    bool first = g.coin();
    if (first)
        w.reset();
    for (auto& t : texts)
        t->release();
    w.reset();
    for (size_t i = 0; i < n; i++)
    {
        VH_CHECK(snapshot(results[i]) == shots[i], "result-owned", "a result changed after its text and registry were released: %s", vh::esc(show(results[i])).c_str());
        auto copy = results[i];
        VH_CHECK(snapshot(copy) == shots[i], "result-owned", "a copy of a result differs");
        vh::count("results-outlived");
    }
}

#ifndef VH_NO_LEDGER
// the same token structure with tokens of very different lengths
static void allocationCase(vh::Gen& g)
{
    ref::LexCfg cfg;
    size_t tokens = 1 + g.below(6);
    size_t stretch = g.below(tokens);
    int kind = static_cast<int>(g.below(7));
    size_t const big = 200000 + g.below(400000);
    auto make = [&](size_t len, uint64_t seed) {
        vh::Gen h(seed);
        std::string s;
        for (size_t i = 0; i < tokens; i++)
        {
            // what lies between the fields of a compound value, and between tokens, is free as well
            std::string w = i == stretch && kind < 5 ? std::string(len, static_cast<char>('a' + h.below(26))) : "w" + std::to_string(i);
            std::string gap = i == stretch && kind >= 5 ? std::string(len, kind == 5 ? ' ' : " ,;|"[h.below(4)]) : kind == 5 ? " " : ",";
            if (i == 0)
            {
                s += kind == 1 ? "'" + w + "'" : w;
                continue;
            }
            switch (kind)
            {
            case 0:
                s += " " + w;
                break;
            case 1:
                s += " '" + w + "'";
                break;
            case 2:
                s += " (x, '" + w + "', " + w + ")";
                break;
            case 3:
                s += " " + w + "=" + w;
                break;
            case 5:
                s += gap + w + gap + "k=" + w;
                break;
            case 6:
                s += " (" + gap + w + gap + "x" + gap + ")";
                break;
            default:
                s += " k=\"" + w + "\" x," + w;
            }
        }
        return s;
    };
    uint64_t seed = g.u64();
    std::string a = make(8, seed), b = make(big, seed);
    coil::DefaultLexer lexer;
    auto cost = [&](std::string const& t) {
        ref::Exact e(t);
        long long before = vh::ledger().totalBytes;
        auto r = lexer.parse(cv(e));
        long long after = vh::ledger().totalBytes;
        VH_CHECK(r.hasValue(), "rejects", "well-formed text rejected");
        return after - before;
    };
    long long ca = cost(a), cb = cost(b);
    vh::observe(vh::mix(seed ^ tokens * 31 ^ static_cast<uint64_t>(kind)));
    vh::count("allocation-comparisons");
    VH_CHECK(cb <= ca + 4096 + static_cast<long long>(big) / 50, "allocates", "parsing a token of %zu characters allocates %lld bytes, %lld bytes when it has 8", big, cb, ca);
}
#endif

void vh_case(vh::Gen& g)
{
    for (int i = 0; i < 3; i++)
        parseCase(g);
    executeCase(g);
#ifndef VH_NO_LEDGER
    if (g.chance(1, 60))
        allocationCase(g);
#endif
}
