// C12: consistent results, independent executions.
#include "model.h"

struct Snapshot
{
    std::string text;
    explicit Snapshot(coil::ExecutionResult const& r)
    {
        text = show(r);
    }
};

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    model::nextId = 1;
    std::vector<std::string> names = {"a", "b", "cmd", "other", "%s", "with space", "UPPER", "abc"};
    for (int i = 0; i < 3; i++)
        names.push_back(ref::word(g, 8, true));
    if (g.chance(1, 4))
        for (int i = 0; i < 2; i++)
            names.push_back(std::string(1 + g.logsize(6000), static_cast<char>('n' + i)));
    model::Options o;
    o.names = &names;
    model::Model m;
    auto env = std::make_unique<model::Env>();
    for (auto& n : names)
        if (!n.empty() && !g.chance(1, 4))
        {
            auto d = model::genDef(g, o);
            m.cmds[n] = d;
            env->bind(n, d);
        }
    names.push_back("");
    names.push_back("missing");

    struct Kept
    {
        std::unique_ptr<ref::Exec> ex;
        coil::ExecutionResult r;
        model::Result want;
        std::string shown;
        std::string what;
        // to repeat it
        std::string name;
        std::vector<ref::Fields> args;
        model::Named named;
        std::string text;
        bool raw = false;
    };
    std::vector<std::unique_ptr<Kept>> kept;
    uint64_t history = 0;
    size_t steps = 4 + g.below(30);
    auto run = [&](Kept& k) {
        m.calls.clear();
        env->calls.clear();
        k.ex = std::make_unique<ref::Exec>();
        if (k.raw)
        {
            k.ex->exact = std::make_unique<ref::Exact>(k.text);
            k.r = env->b.execute(cv(*k.ex->exact));
            k.want = m.executeText(k.text);
            k.what = k.text;
        }
        else
        {
            k.r = k.ex->run(g, env->b, k.name, k.args, k.named);
            k.want = m.execute(k.name, k.args, k.named);
            k.what = k.ex->text;
        }
        k.what = vh::esc(k.what);
        vh::st().note = k.what.c_str();
        model::compare(k.r, k.want, k.what, "result");
        if (!k.want.open)
            VH_CHECK(env->calls == m.calls, "calls", "%s: %zu calls, expected %zu (or others)", k.what.c_str(), env->calls.size(), m.calls.size());
        else
            vh::count("open");
        VH_CHECK(!(k.r.returnValue && !k.r.errors.empty()), "return-and-errors", "%s: both a return value and errors", k.what.c_str());
        k.shown = show(k.r);
        history = vh::hashStr(k.what, history + 1);
        vh::observe(history);
    };
    struct Line
    {
        coil::ExecutionResult r;
        std::string shown;
    };
    std::vector<Line> lines;
    // lines typed into one buffer, of which only a character or two differ
    auto console = [&]() {
        std::string text;
        if (g.coin())
        {
            std::string const n = g.pick(names);
            auto it = m.cmds.find(n);
            std::vector<ref::Fields> args;
            model::Named named;
            model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, args, named);
            ref::LexCfg cfg;
            text = n;
            for (auto const& a : args)
                text += " " + (a.size() == 1 ? a[0] : std::string("1,2"));
        }
        else
            text = ref::command(g, m.cfg, 40, true, g.pick(names).c_str());
        if (text.size() > 400)
            text.resize(400);
        size_t const room = text.size() + g.below(4);
        text.resize(room, ' ');
        char* buffer = static_cast<char*>(malloc(room ? room : 1));
        size_t const n = 2 + g.below(8);
        for (size_t i = 0; i < n; i++)
        {
            size_t const length = g.chance(1, 6) ? g.below(room + 1) : room;
            if (room)
                memcpy(buffer, text.data(), room);
            m.calls.clear();
            env->calls.clear();
            std::string const now = text.substr(0, length);
            std::string const what = "line " + std::to_string(i) + " in one buffer: " + vh::esc(now);
            vh::st().note = what.c_str();
            auto r = env->b.execute(coil::StringView{buffer, length});
            auto w = m.executeText(now);
            model::compare(r, w, what, "result");
            if (!w.open)
                VH_CHECK(env->calls == m.calls, "calls", "%s: %zu calls, expected %zu (or others)", what.c_str(), env->calls.size(), m.calls.size());
            history = vh::hashStr(now, history + 1);
            vh::observe(history);
            vh::count("lines");
            r.input = coil::ExecutionInput(); // views of the buffer
            Line l;
            l.shown = show(r);
            l.r = coil::move(r);
            lines.push_back(std::move(l));
            for (size_t c = g.below(3); c && room; c--)
                text[g.below(room)] = g.chance(2, 3) ? "='\"(),; 019ax"[g.below(14)] : static_cast<char>(g.u64());
        }
        if (room)
            memset(buffer, 0xA5, room);
        free(buffer);
    };
    for (size_t s = 0; s < steps; s++)
    {
        if (g.chance(1, 8))
        {
            console();
            continue;
        }
        auto k = std::make_unique<Kept>();
        if (!kept.empty() && g.chance(1, 4)) // repeat an earlier one
        {
            auto const& e = *kept[g.below(kept.size())];
            k->name = e.name;
            k->args = e.args;
            k->named = e.named;
            k->text = e.text;
            k->raw = e.raw;
            run(*k);
            vh::count("repeated");
            if (!k->want.open)
                VH_CHECK(k->shown == e.shown, "repeat", "%s: {%s}, the first time it was {%s}", k->what.c_str(), vh::esc(k->shown).c_str(), vh::esc(e.shown).c_str());
        }
        else
        {
            if (g.chance(1, 4))
            {
                k->raw = true;
                k->text = ref::command(g, m.cfg, 40, true, g.pick(names).c_str());
            }
            else
            {
                k->name = g.pick(names);
                auto it = m.cmds.find(k->name);
                model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, k->args, k->named);
            }
            run(*k);
        }
        auto const& w = k->want;
        if (!w.errors.empty())
        {
            auto const& e = w.errors[0].text;
            if (e.rfind("Syntax", 0) == 0)
                vh::count("syntax-errors");
            else if (e.rfind("No function name", 0) == 0)
                vh::count("no-name");
            else if (e.rfind("No function '", 0) == 0)
                vh::count("unknown-name");
            else if (e.rfind("Wrong number", 0) == 0)
                vh::count("wrong-count");
            else if (e.rfind("Unable", 0) == 0)
                vh::count("conversion-errors");
            else
                vh::count("reported-errors");
        }
        else
            vh::count(w.hasRet ? "returned" : "completed");
        if (g.chance(1, 2000))
            vh::sample(k->what + " -> " + vh::esc(k->shown));
        kept.push_back(std::move(k));
        // results are values: copies and moves keep them
        if (g.chance(1, 10))
        {
            auto& e = *kept[g.below(kept.size())];
            coil::ExecutionResult copy = e.r;
            VH_CHECK(show(copy) == e.shown, "copy", "%s: its copy is {%s}", e.what.c_str(), vh::esc(show(copy)).c_str());
            coil::ExecutionResult moved = coil::move(copy);
            VH_CHECK(show(moved) == e.shown, "move", "%s: moved to {%s}", e.what.c_str(), vh::esc(show(moved)).c_str());
            e.r = coil::move(moved);
        }
    }
    if (g.coin())
        env.reset();
    for (auto const& k : kept)
    {
        VH_CHECK(show(k->r) == k->shown, "changed-later", "%s: was {%s}, later {%s}", k->what.c_str(), vh::esc(k->shown).c_str(), vh::esc(show(k->r)).c_str());
        vh::count("looked-at-again");
    }
    for (auto const& l : lines)
        VH_CHECK(show(l.r) == l.shown, "changed-later", "a line in a reused buffer: was {%s}, later {%s}", vh::esc(l.shown).c_str(), vh::esc(show(l.r)).c_str());
}
