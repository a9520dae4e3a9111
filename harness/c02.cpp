// C02: the lexer implements the command grammar, for the default and for customised character sets.
#include "coilcmp.h"

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

static void check(std::string const& text, coil::Lexer const& lexer, ref::LexCfg const& cfg)
{
    ref::Exact e(text);
    auto got = lexer.parse(cv(e));
    auto want = ref::parse(text, cfg);
    if (!want.ok)
    {
        VH_CHECK(!got.hasValue(), "accepts", "text \"%s\" must be rejected with \"%s\" but was accepted as {%s}", vh::esc(text).c_str(), vh::esc(want.error).c_str(), vh::esc(show(*got)).c_str());
        VH_CHECK(sameError(sv(got.error()), want), "error-text", "text \"%s\": error \"%s\", expected \"%s\"", vh::esc(text).c_str(), vh::esc(sv(got.error())).c_str(), vh::esc(want.error).c_str());
        vh::count("rejected");
    }
    else
    {
        VH_CHECK(got.hasValue(), "rejects", "text \"%s\" must be accepted as {%s} but failed with \"%s\"", vh::esc(text).c_str(), vh::esc(show(text, want)).c_str(), vh::esc(sv(got.error())).c_str());
        checkInput(text, e.p, *got, want, false, "structure");
        vh::count("accepted");
        vh::count("positional", want.args.size());
        vh::count("named", want.named.size());
        vh::count("compound", want.compound);
    }
    vh::observe(vh::hashStr(text + "\1" + cfg.group + "\1" + cfg.quotes + "\1" + cfg.seps + "\1" + cfg.spaces), want.tokens > 1 || !want.ok);
}

void vh_case(vh::Gen& g)
{
    if (g.chance(3, 5))
    {
        ref::LexCfg cfg;
        coil::DefaultLexer lexer;
        size_t max = g.chance(1, 50) ? 3000 : 40;
        std::string text = ref::command(g, cfg, max);
        vh::sample(vh::esc(text));
        check(text, lexer, cfg);
    }
    else
    {
        ref::LexCfg cfg = ref::config(g);
        coil::DefaultLexer lexer(cv(cfg.group), cv(cfg.quotes), cv(cfg.seps), cv(cfg.spaces));
        vh::count("custom-configs");
        for (int i = 0; i < 4; i++)
            check(ref::command(g, cfg, 30), lexer, cfg);
    }
}
