// C25: executing a text is executing what the registry's lexer made of it.
#include "model.h"

namespace c25
{
    struct LexCall
    {
        int id;
        char const* p;
        size_t n;
        std::string text;
    };
    std::vector<LexCall>* calls = nullptr;
    std::map<int, int> live;

    // what a scripted lexer answers to a text which begins with '@'
    struct Answer
    {
        bool ok = true;
        std::string error;
        std::string name;
        std::vector<ref::Fields> args;
        model::Named named;
        ref::InputBuilder keep;
        // what it returned, view by view
        std::vector<coil::StringView> views;
        std::vector<size_t> shape;
        coil::ExecutionInput input()
        {
            coil::ExecutionInput in;
            views.clear();
            shape.clear();
            auto v = [&](std::string const& s) {
                views.push_back(keep.view(s));
                return views.back();
            };
            in.name = v(name);
            for (auto& f : args)
            {
                coil::Value val;
                for (auto& s : f)
                    val.subvalues.pushBack(v(s));
                shape.push_back(f.size());
                in.arguments.pushBack(coil::move(val));
            }
            for (auto& kv : named)
            {
                coil::NamedValue nv;
                nv.key = v(kv.first);
                for (auto& s : kv.second)
                    nv.value.subvalues.pushBack(v(s));
                shape.push_back(kv.second.size());
                in.namedArguments.pushBack(coil::move(nv));
            }
            return in;
        }
        // is `in` the very input returned above?
        char const* differs(coil::ExecutionInput const& in) const
        {
            size_t at = 0, sh = 0;
            auto same = [&](coil::StringView got) {
                auto const& w = views[at++];
                return got.length() == w.length() && (w.empty() || got.data() == w.data());
            };
            if (in.arguments.size() != args.size() || in.namedArguments.size() != named.size())
                return "number of arguments";
            if (!same(in.name))
                return "name";
            for (auto const& a : in.arguments)
            {
                if (a.subvalues.size() != shape[sh++])
                    return "number of subvalues";
                for (auto const& s : a.subvalues)
                    if (!same(s))
                        return "subvalue";
            }
            for (auto const& a : in.namedArguments)
            {
                if (!same(a.key))
                    return "key";
                if (a.value.subvalues.size() != shape[sh++])
                    return "number of subvalues of a named argument";
                for (auto const& s : a.value.subvalues)
                    if (!same(s))
                        return "subvalue of a named argument";
            }
            return nullptr;
        }
    };
    Answer* answer = nullptr;

    struct Recorder : coil::Lexer
    {
        int id;
        std::unique_ptr<coil::DefaultLexer> inner;
        Recorder(int i, ref::LexCfg const* c) : id(i)
        {
            inner = c ? std::make_unique<coil::DefaultLexer>(cv(c->group), cv(c->quotes), cv(c->seps), cv(c->spaces)) : std::make_unique<coil::DefaultLexer>();
            live[id]++;
        }
        ~Recorder() override { live[id]--; }
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            if (calls)
                calls->push_back({id, str.data(), str.length(), ss(str)});
            if (answer && str.length() && *str.data() == '@')
            {
                if (!answer->ok)
                    return coil::makeUnexpected(cs(answer->error));
                return answer->input();
            }
            return inner->parse(str);
        }
    };

    std::string anyFieldsText(vh::Gen& g)
    {
        std::string s = ref::anyText(g, 20);
        if (g.chance(1, 8))
            s += std::string(1, '\0') + "tail";
        return s;
    }
    void genAnswer(vh::Gen& g, Answer& a, model::Model const& m, std::vector<std::string> const& names)
    {
        a.name = g.chance(1, 10) ? anyFieldsText(g) : g.pick(names);
        auto it = m.cmds.find(a.name);
        model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, a.args, a.named);
        // what no text can express
        if (g.chance(1, 4))
            for (size_t n = 1 + g.below(4); n; n--)
            {
                ref::Fields f(g.below(4));
                for (auto& s : f)
                    s = anyFieldsText(g);
                a.named.emplace_back(g.chance(1, 3) ? "" : anyFieldsText(g), f);
            }
        if (g.chance(1, 6))
            for (size_t n = 1 + g.below(20); n; n--)
            {
                ref::Fields f(g.below(3));
                for (auto& s : f)
                    s = anyFieldsText(g);
                a.args.push_back(f);
            }
    }

    void history(vh::Gen& g)
    {
        model::nextId = 1;
        calls = nullptr;
        answer = nullptr;
        live.clear();
        std::vector<LexCall> log;
        calls = &log;
        std::vector<std::string> names = {"a", "b", "cmd", "other", "%s", "with space", "UPPER", "'", "x=y", ""};
        names.push_back(std::string("nul\0name", 8));
        model::Options o;
        o.names = &names;
        o.nest = g.coin();
        o.simple = o.nest && g.coin();
        o.throws = COIL_CONFIG_CATCH_EXCEPTIONS && g.chance(1, 3);
        o.maxActions = 4;
        model::Model m;
        auto env = std::make_unique<model::Env>();
        for (auto& n : names)
            if (!n.empty() && !g.chance(1, 5))
            {
                auto d = model::genDef(g, o);
                m.cmds[n] = d;
                env->bind(n, d);
            }
        int lexer = 0; // 0: the one the registry came with, which isn't recorded
        int nextLexer = 1;
        int swapTo = -1;
        ref::LexCfg swapCfg;
        env->b["swap lexer"] = [&](coil::Context ctx, coil::StringView text) {
            env->b.setLexer(coil::makeUnique<Recorder>(swapTo, &swapCfg));
            ctx.log(coil::String(text));
        };
        uint64_t hist = 1;
        auto newLexer = [&]() {
            lexer = nextLexer++;
            m.cfg = g.coin() ? ref::LexCfg{} : ref::config(g);
            if (g.chance(1, 6))
            {
                lexer = 0;
                env->b.setLexer(coil::makeUnique<coil::DefaultLexer>(cv(m.cfg.group), cv(m.cfg.quotes), cv(m.cfg.seps), cv(m.cfg.spaces)));
            }
            else
                env->b.setLexer(coil::makeUnique<Recorder>(lexer, &m.cfg));
            vh::count("lexers-installed");
        };
        auto audit = [&](char const* after) {
            for (auto& l : live)
                VH_CHECK(l.second == (l.first == lexer ? 1 : 0), "lexer-owned", "after %s: %d instances of lexer %d, the current one is %d", after, l.second, l.first, lexer);
        };
        if (g.chance(3, 4))
            newLexer();
        size_t steps = 4 + g.below(20);
        for (size_t s = 0; s < steps; s++)
        {
            unsigned op = static_cast<unsigned>(g.below(12));
            if (op == 0)
            {
                newLexer();
                audit("setLexer");
                continue;
            }
            if (op == 1)
            {
                coil::Bindings t(coil::move(env->b));
                if (g.coin())
                {
                    coil::Bindings u;
                    u.setLexer(coil::makeUnique<coil::DefaultLexer>("", "", "", "x"));
                    u = coil::move(t);
                    env->b = coil::move(u);
                }
                else
                    env->b = coil::move(t);
                vh::count("registry-moved");
                continue;
            }
            m.calls.clear();
            env->calls.clear();
            log.clear();
            Answer ans;
            if (op == 2 && g.chance(1, 2)) // the running command replaces the lexer
            {
                swapTo = nextLexer++;
                swapCfg = g.coin() ? ref::LexCfg{} : ref::config(g);
                coil::ExecutionInput in;
                ref::Exact name("swap lexer"), arg(anyFieldsText(g));
                std::string text;
                coil::ExecutionResult r;
                bool viaText = lexer != 0 && g.coin();
                ref::Exact at("@swap");
                if (viaText)
                {
                    ans.name = "swap lexer";
                    ans.args = {{std::string(arg.p, arg.n)}};
                    answer = &ans;
                    r = env->b.execute(cv(at));
                    answer = nullptr;
                    VH_CHECK(log.size() == 1 && log[0].id == lexer, "lexer-calls", "a text execution which replaced the lexer consulted %zu", log.size());
                    char const* d = ans.differs(r.input);
                    VH_CHECK(!d, "reported-input", "after replacing the lexer: %s", d);
                }
                else
                {
                    in.name = cv(name);
                    in.arguments.pushBack(coil::Value(cv(arg)));
                    r = env->b.execute(coil::move(in));
                    VH_CHECK(log.empty(), "lexer-calls", "a prepared input consulted a lexer");
                }
                VH_CHECK(r.errors.empty() && sv(r.output) == std::string_view(arg.p, arg.n), "result", "replacing the lexer inside: %s", show(r).c_str());
                lexer = swapTo;
                m.cfg = swapCfg;
                audit("replacement by a command");
                vh::count("replaced-by-command");
                continue;
            }
            if (op < 6 || (op < 9 && lexer == 0)) // a text
            {
                std::string t = ref::command(g, m.cfg, 40, true, g.pick(names).c_str());
                if (m.cfg.spaces == ref::LexCfg{}.spaces && !m.cmds.empty() && g.coin()) // a well-formed command
                {
                    auto it = m.cmds.begin();
                    std::advance(it, static_cast<long>(g.below(m.cmds.size())));
                    std::vector<ref::Fields> args;
                    model::Named named;
                    model::genArgs(g, it->second, args, named);
                    std::string w;
                    if (ref::writeArg(g, {it->first}, w) && w[0] != '(')
                    {
                        t = w;
                        for (auto& f : args)
                            if (ref::writeArg(g, f, w))
                                t += " " + w;
                    }
                }
                if (!t.empty() && t[0] == '@')
                    t[0] = 'a';
                ref::Exact e(t);
                coil::ExecutionResult r = env->b.execute(cv(e));
                std::vector<LexCall> seen = log;
                std::vector<model::Call> ran = env->calls;
                auto m2 = m; // scripts may change the registry: both predictions start from here
                m2.calls.clear();
                m2.texts.clear();
                model::Result want = m2.executeText(t);
                std::string what = vh::esc(t);
                vh::st().note = what.c_str();
                model::compare(r, want, what, "result");
                if (lexer)
                {
                    VH_CHECK(!seen.empty(), "lexer-calls", "\"%s\" was executed without asking the lexer", what.c_str());
                    VH_CHECK(seen[0].id == lexer, "lexer-calls", "\"%s\" was parsed by lexer %d, not by %d", what.c_str(), seen[0].id, lexer);
                    VH_CHECK(seen[0].n == t.size() && (t.empty() || seen[0].p == e.p), "lexer-text", "\"%s\": the lexer was given \"%s\"", what.c_str(), vh::esc(seen[0].text).c_str());
                    if (!o.nest)
                        VH_CHECK(seen.size() == 1, "lexer-calls", "\"%s\": the lexer was asked %zu times", what.c_str(), seen.size());
                    else if (!want.open)
                    {
                        VH_CHECK(seen.size() == m2.texts.size(), "lexer-calls", "\"%s\": %zu texts were executed (also by commands), the lexer was asked %zu times", what.c_str(), m2.texts.size(), seen.size());
                        for (size_t i = 0; i < seen.size(); i++)
                            VH_CHECK(seen[i].text == m2.texts[i], "lexer-text", "\"%s\", text number %zu: the lexer was given \"%s\" instead of \"%s\"", what.c_str(), i, vh::esc(seen[i].text).c_str(), vh::esc(m2.texts[i]).c_str());
                        vh::count("nested-texts", seen.size() - 1);
                    }
                    vh::count("recorded-texts");
                }
                VH_CHECK(want.open || ran == m2.calls, "calls", "\"%s\": %zu calls, expected %zu", what.c_str(), ran.size(), m2.calls.size());
                ref::Parsed p = ref::parse(t, m.cfg);
                if (p.ok)
                    checkInput(t, e.p, r.input, p, true, "reported-input");
                else
                    vh::count("syntax-errors");
                hist = vh::hashStr(t, hist);
                vh::observe(hist);
                if (want.open)
                    return; // what it did to the registry isn't known
                if (!o.nest && p.ok && g.coin())
                {
                    // the same, as the prepared input which an equal lexer makes of it
                    log.clear();
                    env->calls.clear();
                    coil::DefaultLexer l(cv(m.cfg.group), cv(m.cfg.quotes), cv(m.cfg.seps), cv(m.cfg.spaces));
                    auto in = l.parse(cv(e));
                    VH_CHECK(in.hasValue(), "parse", "\"%s\" isn't accepted by an equal lexer", what.c_str());
                    coil::ExecutionResult r2 = env->b.execute(*coil::move(in));
                    VH_CHECK(log.empty(), "lexer-calls", "a prepared input consulted the lexer");
                    VH_CHECK(show(r2) == show(r) && show(r2.input) == show(r.input), "text-vs-input", "\"%s\": as text {%s}, as input {%s}", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(show(r2)).c_str());
                    VH_CHECK(env->calls == ran, "text-vs-input", "\"%s\": other calls as input", what.c_str());
                    vh::count("text-vs-input");
                }
                m = std::move(m2);
                if (g.chance(1, 3000))
                    vh::sample("lexer " + std::to_string(lexer) + ": \"" + what + "\" -> " + vh::esc(show(r)));
                continue;
            }
            genAnswer(g, ans, m, names);
            std::string what = "name " + ans.name;
            for (auto& f : ans.args)
                what += " " + ref::showFields(f);
            for (auto& kv : ans.named)
                what += " " + kv.first + "=" + ref::showFields(kv.second);
            what = vh::esc(what);
            vh::st().note = what.c_str();
            if (op < 9) // the lexer's answer is scripted
            {
                ans.ok = !g.chance(1, 3);
                ans.error = g.chance(1, 10) ? "" : anyFieldsText(g);
                if (g.chance(1, 20))
                    ans.error += std::string(g.logsize(5000), 'e');
                answer = &ans;
                std::string t = "@" + anyFieldsText(g);
                ref::Exact e(t);
                coil::ExecutionResult r = env->b.execute(cv(e));
                answer = nullptr;
                VH_CHECK(!log.empty() && log[0].id == lexer && log[0].p == e.p && log[0].n == e.n && log[0].text == t, "lexer-text", "\"%s\": the lexer wasn't given exactly this text", vh::esc(t).c_str());
                if (!ans.ok)
                {
                    VH_CHECK(log.size() == 1, "lexer-calls", "asked %zu times", log.size());
                    VH_CHECK(env->calls.empty(), "calls", "a command ran although the lexer refused the text");
                    VH_CHECK(r.errors.size() == 1 && sv(r.errors[0]) == "Syntax error: " + ans.error && !r.returnValue && r.output.empty(), "lexer-error", "the lexer's error \"%s\" became {%s}", vh::esc(ans.error).c_str(), vh::esc(show(r)).c_str());
                    vh::count("lexer-errors");
                    hist = vh::hashStr(ans.error, hist);
                    vh::observe(hist);
                    continue;
                }
                model::Result want = m.execute(ans.name, ans.args, ans.named);
                model::compare(r, want, "lexer's input: " + what, "result");
                char const* d = ans.differs(r.input);
                VH_CHECK(!d, "reported-input", "the lexer's input: %s: another %s: {%s}", what.c_str(), d, vh::esc(show(r.input)).c_str());
                if (!want.open)
                    VH_CHECK(env->calls == m.calls, "calls", "lexer's input: %s: other calls", what.c_str());
                vh::count("scripted-inputs");
                if (want.open)
                    return;
            }
            else
            {
                coil::ExecutionInput in = ans.input();
                coil::ExecutionResult r;
                m.texts.clear();
                model::Result want = m.execute(ans.name, ans.args, ans.named);
                if (g.coin())
                    r = env->b.execute(coil::move(in));
                else
                {
                    r = env->b.execute(in); // a copy
                    char const* d = ans.differs(in);
                    VH_CHECK(!d, "input-changed", "executing a copy of %s changed the %s of the original", what.c_str(), d);
                }
                model::compare(r, want, "input: " + what, "result");
                char const* d = ans.differs(r.input);
                VH_CHECK(!d, "reported-input", "input: %s: another %s: {%s}", what.c_str(), d, vh::esc(show(r.input)).c_str());
                if (want.open)
                    return;
                VH_CHECK(env->calls == m.calls, "calls", "input: %s: other calls", what.c_str());
                if (lexer)
                    VH_CHECK(log.size() == m.texts.size(), "lexer-calls", "input: %s: the lexer was asked %zu times, %zu texts were executed by the command", what.c_str(), log.size(), m.texts.size());
                vh::count("prepared-inputs");
                if (want.threw || !want.errors.empty())
                    vh::count("prepared-inputs-with-errors");
            }
            hist = vh::hashStr(what, hist);
            vh::observe(hist);
        }
        audit("the history");
        env.reset();
        lexer = -1;
        audit("the registry's end");
        calls = nullptr;
    }

    // several registries, each with its own lexer and commands
    void several(vh::Gen& g)
    {
        calls = nullptr;
        answer = nullptr;
        live.clear();
        std::vector<LexCall> log;
        calls = &log;
        struct Slot
        {
            std::unique_ptr<coil::Bindings> b;
            int lexer = 0, tag = 0;
            ref::LexCfg cfg;
        };
        int next = 1;
        std::vector<Slot> slots(1 + g.below(4));
        auto fresh = [&](Slot& s) {
            s.b = std::make_unique<coil::Bindings>();
            s.lexer = 0;
            s.cfg = {};
            s.tag = next++;
            int tag = s.tag;
            (*s.b)["tag"] = [tag](coil::Context ctx) {
                for (auto const& n : ctx.namedArgs())
                    ctx.log(coil::String(n.key) + "=" + n.value.str() + ";");
                return tag;
            };
        };
        for (auto& s : slots)
            fresh(s);
        for (size_t n = 6 + g.below(30); n; n--)
        {
            Slot& s = slots[g.below(slots.size())];
            switch (g.below(6))
            {
            case 0:
                s.lexer = next++;
                s.cfg = g.chance(1, 3) ? ref::LexCfg{} : ref::config(g);
                s.b->setLexer(coil::makeUnique<Recorder>(s.lexer, &s.cfg));
                break;
            case 1:
                s.b = std::make_unique<coil::Bindings>(coil::move(*s.b));
                vh::count("registry-moved");
                break;
            case 2:
            {
                Slot& t = slots[g.below(slots.size())];
                if (&t == &s)
                    break;
                *t.b = coil::move(*s.b);
                t.lexer = s.lexer;
                t.cfg = s.cfg;
                t.tag = s.tag;
                fresh(s); // the source is destroyed
                vh::count("registry-move-assigned");
                break;
            }
            default:
            {
                ref::LexCfg const& c = s.cfg;
                char const sp = c.spaces.empty() ? 0 : c.spaces[g.below(c.spaces.size())];
                bool plain = true;
                for (char ch : std::string("tagkv"))
                    plain = plain && c.word(ch) && !c.in(c.seps, ch);
                std::string text = "tag", out;
                if (plain && sp && c.sp(sp) && g.coin())
                {
                    text = std::string(g.below(3), sp) + "tag" + sp + "k=v";
                    out = "k=v;";
                }
                if (!plain)
                    break;
                log.clear();
                ref::Exact e(text);
                auto r = s.b->execute(cv(e));
                VH_CHECK(r.errors.empty() && r.returnValue && sv(*r.returnValue) == std::to_string(s.tag) && sv(r.output) == out, "result", "registry %d with lexer %d: \"%s\": {%s}", s.tag, s.lexer, vh::esc(text).c_str(), vh::esc(show(r)).c_str());
                VH_CHECK(log.size() == (s.lexer ? 1u : 0u) && (!s.lexer || (log[0].id == s.lexer && log[0].p == e.p && log[0].n == e.n)), "lexer-calls", "registry %d with lexer %d: %zu calls, the first of lexer %d", s.tag, s.lexer, log.size(), log.empty() ? -1 : log[0].id);
                vh::observe(vh::hashStr(text, static_cast<uint64_t>(s.lexer * 100 + s.tag)));
                vh::count("several-registries");
            }
            }
            for (auto& l : live)
            {
                int want = 0;
                for (auto& t : slots)
                    want += t.lexer == l.first;
                VH_CHECK(l.second == want, "lexer-owned", "%d instances of lexer %d, which %d registries use", l.second, l.first, want);
            }
        }
        slots.clear();
        for (auto& l : live)
            VH_CHECK(l.second == 0, "lexer-owned", "lexer %d outlives its registry", l.first);
        calls = nullptr;
    }
}

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }
void vh_case(vh::Gen& g)
{
    if (g.chance(1, 4))
        c25::several(g);
    else
        c25::history(g);
    c25::live.clear();
}
