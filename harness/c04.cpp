// C04: the registry is an exact map from names to the overloads of the last binding, under any history.
#include "refconv.h"
#include "regnames.h"

#include <memory>

struct Log
{
    std::vector<int> calls;
};

struct Obj
{
    Log* log;
    int id;
    int method(int)
    {
        log->calls.push_back(id);
        return id;
    }
};

struct ModelCmd
{
    std::vector<int> ids;     // one per overload
    std::vector<size_t> arity;
};
struct Reg
{
    coil::Bindings b;
    std::map<std::string, ModelCmd> m;
};

static int nextId;

struct World
{
    Log log;
    std::vector<std::unique_ptr<Obj>> objects;
    std::vector<std::unique_ptr<Reg>> regs;
    std::vector<std::unique_ptr<Reg>> dead; // moved-from, only to be destroyed or assigned to
};

template<typename F>
static void viaTemp(vh::Gen& g, Reg& r, std::string const& n, F&& f)
{
    if (g.chance(1, 6))
        if (auto* c = r.b.get(cv(n))) // the registry's own copy of the name
        {
            vh::count("own-names");
            f(c->name);
            return;
        }
    ref::Exact e(n); // the name dies right after the call
    f(cv(e));
}

static coil::AnyFunctor makeOne(World& w, size_t arity, int id)
{
    Log* l = &w.log;
    coil::Vector<coil::AnyFunctor> v = [&]() {
        switch (arity)
        {
        case 0:
            return coil::overloaded([l, id]() { l->calls.push_back(id); return id; });
        case 1:
            return coil::overloaded([l, id](coil::Context, coil::StringView) { l->calls.push_back(id); return id; });
        case 2:
            return coil::overloaded([l, id](coil::StringView, coil::StringView) { l->calls.push_back(id); return id; });
        default:
            return coil::overloaded([l, id](coil::StringView, coil::StringView, coil::Value const&) { l->calls.push_back(id); return id; });
        }
    }();
    return coil::AnyFunctor(coil::move(v[0]));
}

static void checkName(World& w, Reg& r, std::string const& n, bool execute, vh::Gen& g)
{
    ref::Exact e(n);
    auto it = r.m.find(n);
    auto const* c = static_cast<coil::Bindings const&>(r.b).get(cv(e));
    bool const want = it != r.m.end();
    VH_CHECK((c != nullptr) == want, want ? "lost" : "ghost", "name \"%s\" is %s", vh::esc(n).c_str(), want ? "bound but not found" : "not bound but found");
    vh::count(want ? "lookups-hit" : "lookups-miss");
    if (c)
    {
        VH_CHECK(sv(c->name) == n, "command-name", "command \"%s\" calls itself \"%s\"", vh::esc(n).c_str(), vh::esc(sv(c->name)).c_str());
        VH_CHECK(c->functors.size() == it->second.ids.size(), "overloads", "command \"%s\" has %zu overloads, bound with %zu", vh::esc(n).c_str(), c->functors.size(), it->second.ids.size());
        for (size_t i = 0; i < c->functors.size(); i++)
            VH_CHECK(c->functors[i].arity() == it->second.arity[i], "overloads", "command \"%s\": overload %zu has arity %zu, bound with %zu", vh::esc(n).c_str(), i, c->functors[i].arity(), it->second.arity[i]);
    }
    if (!execute)
        return;
    vh::count("executions");
    size_t arity = want && !it->second.arity.empty() && g.chance(4, 5) ? g.pick(it->second.arity) : g.below(4);
    w.log.calls.clear();
    coil::ExecutionResult res;
    ref::Exec ex;
    std::vector<ref::Fields> args(arity, ref::Fields{"7"});
    res = ex.run(g, r.b, n, args);
    std::vector<int> expected;
    if (want && !n.empty())
        for (size_t i = 0; i < it->second.ids.size(); i++)
            if (it->second.arity[i] == arity)
            {
                expected.push_back(it->second.ids[i]);
                break;
            }
    VH_CHECK(w.log.calls == expected, "dispatch", "executing \"%s\" with %zu arguments called %zu callables (first id %d), expected %zu (id %d)", vh::esc(n).c_str(), arity, w.log.calls.size(), w.log.calls.empty() ? -1 : w.log.calls[0], expected.size(), expected.empty() ? -1 : expected[0]);
    if (expected.empty())
    {
        VH_CHECK(res.errors.size() == 1 && !res.returnValue, "error", "executing \"%s\": %s", vh::esc(n).c_str(), vh::esc(show(res)).c_str());
        if (n.empty())
            VH_CHECK(sv(res.errors[0]) == "No function name is specified", "error", "executing an empty name: %s", vh::esc(show(res)).c_str());
        else if (!want && n.find('\0') == std::string::npos)
            VH_CHECK(sv(res.errors[0]) == "No function '" + n + "' is registered", "error", "executing \"%s\": %s", vh::esc(n).c_str(), vh::esc(show(res)).c_str());
    }
    else
        VH_CHECK(res.returnValue && sv(*res.returnValue) == std::to_string(expected[0]), "return", "executing \"%s\": %s", vh::esc(n).c_str(), vh::esc(show(res)).c_str());
}

static void bindSomething(World& w, Reg& r, std::string const& n, vh::Gen& g)
{
    ModelCmd c;
    Log* l = &w.log;
    auto simple = [&](size_t arity) {
        int id = nextId++;
        c.ids.push_back(id);
        c.arity.push_back(arity);
        return id;
    };
    auto checkRef = [&](coil::Bindings::Command const& k) {
        VH_CHECK(sv(k.name) == n && k.functors.size() == c.ids.size(), "add-result", "add(\"%s\") returns a command named \"%s\" with %zu overloads", vh::esc(n).c_str(), vh::esc(sv(k.name)).c_str(), k.functors.size());
    };
    switch (g.below(8))
    {
    case 0:
    {
        int id = simple(0);
        viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = [l, id]() { l->calls.push_back(id); return id; }; });
        break;
    }
    case 1:
    {
        int id = simple(1);
        viaTemp(g, r, n, [&](coil::StringView v) { checkRef(r.b.add(v, [l, id](int) { l->calls.push_back(id); return id; })); });
        break;
    }
    case 2:
    {
        int id = simple(1);
        w.objects.push_back(std::make_unique<Obj>(Obj{l, id}));
        Obj* o = w.objects.back().get();
        viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = coil::bind(&Obj::method, o); });
        break;
    }
    case 3:
    {
        size_t a = g.below(4);
        int id = simple(a);
        viaTemp(g, r, n, [&](coil::StringView v) { checkRef(r.b.add(v, makeOne(w, a, id))); });
        break;
    }
    case 4:
    case 5:
    {
        coil::Vector<coil::AnyFunctor> f;
        size_t k = g.below(5);
        for (size_t i = 0; i < k; i++)
        {
            size_t a = g.below(4);
            int id = simple(a);
            f.pushBack(makeOne(w, a, id));
        }
        if (g.coin())
            viaTemp(g, r, n, [&](coil::StringView v) { checkRef(r.b.add(v, coil::move(f))); });
        else
            viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = coil::move(f); });
        break;
    }
    case 6:
    {
        int a = simple(0), b = simple(2);
        viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = coil::overloaded([l, a]() { l->calls.push_back(a); return a; }, [l, b](int, int) { l->calls.push_back(b); return b; }); });
        break;
    }
    default:
    {
        int id = simple(2);
        // the name through the pointer constructor where possible
        if (n.find('\0') == std::string::npos)
            r.b[n.c_str()] = [l, id](coil::Context, int, int) { l->calls.push_back(id); return id; };
        else
            viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = [l, id](coil::Context, int, int) { l->calls.push_back(id); return id; }; });
    }
    }
    r.m[n] = std::move(c);
}

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

// many names at once
static void bulk(vh::Gen& g)
{
    World w;
    Reg r;
    size_t n = 1 + g.logsize(2000);
    auto nm = [&](size_t i) { return i % 3 ? "name" + std::to_string(i) : "Ez" + std::string(i % 7, 'x') + std::to_string(i) + (i % 2 ? "FY" : "Ez"); };
    for (int round = 0; round < 2; round++)
    {
        for (size_t i = 0; i < n; i++)
        {
            int id = nextId++;
            Log* l = &w.log;
            std::string s = nm(g.below(n));
            r.b[cv(s)] = [l, id]() { l->calls.push_back(id); return id; };
            r.m[s] = {{id}, {0}};
        }
        for (size_t i = 0; i < n / 2; i++)
        {
            std::string s = nm(g.below(n));
            r.b.remove(cv(s));
            r.m.erase(s);
        }
        for (size_t i = 0; i < n; i++)
            checkName(w, r, nm(i), i % 8 == 0, g);
    }
    vh::count("bulk-names", n);
    vh::observe(g.u64());
}

// very long names which differ in one byte only
static void huge(vh::Gen& g)
{
    World w;
    Reg r;
    size_t const len = (size_t(1) << (6 + g.below(15))) + g.below(5) * (1 + g.logsize(1000));
    std::string const base = g.coin() ? std::string(len, 'a') : [&]() { std::string t; while (t.size() < len) t.push_back(static_cast<char>('a' + g.below(26))); return t; }();
    std::vector<std::string> names{base, base.substr(0, len - 1), base + 'a'};
    size_t n = 3 + g.below(20);
    for (size_t i = 0; i < n; i++)
    {
        size_t at = g.below(4) == 0 ? g.below(len) : g.coin() ? len - 1 - g.below(3) : (size_t(1) << g.below(21)) - g.below(2);
        std::string s = g.pick(names);
        if (at < s.size())
            s[at] = static_cast<char>(s[at] + 1 + static_cast<char>(g.below(3)));
        names.push_back(s);
    }
    for (int round = 0; round < 2; round++)
    {
        for (size_t i = 0; i < names.size(); i++)
        {
            std::string const& s = g.pick(names);
            if (g.chance(1, 4))
            {
                r.b.remove(cv(s));
                r.m.erase(s);
                continue;
            }
            int id = nextId++;
            Log* l = &w.log;
            r.b[cv(s)] = [l, id]() { l->calls.push_back(id); return id; };
            r.m[s] = {{id}, {0}};
        }
        for (auto const& s : names)
            checkName(w, r, s, g.chance(1, 8), g);
    }
    vh::count("huge-names", names.size());
    vh::observe(g.u64());
}

void vh_case(vh::Gen& g)
{
    if (g.chance(1, 200))
        return bulk(g);
    if (g.chance(1, 300))
        return huge(g);
    World w;
    w.regs.push_back(std::make_unique<Reg>());
    auto pool = ref::namePool(g, 2 + g.below(g.chance(1, 4) ? 60 : 14));
    size_t const steps = 5 + (g.chance(1, 10) ? g.logsize(400) : g.below(60));
    unsigned const removeWeight = static_cast<unsigned>(2 + g.below(6));
    uint64_t trace = 0;
    std::string history;
    for (size_t i = 0; i < steps; i++)
    {
        Reg& r = *w.regs[g.below(w.regs.size())];
        std::string const& n = g.pick(pool);
        unsigned op = static_cast<unsigned>(g.below(24));
        std::string did;
        if (op < 10)
        {
            vh::count(r.m.count(n) ? "rebinds" : "binds");
            did = "bind ";
            bindSomething(w, r, n, g);
        }
        else if (op < 10 + removeWeight)
        {
            vh::count(r.m.count(n) ? "unbinds" : "unbinds-missing");
            did = "unbind ";
            if (g.coin())
                viaTemp(g, r, n, [&](coil::StringView v) { r.b.remove(v); });
            else
                viaTemp(g, r, n, [&](coil::StringView v) { r.b[v] = nullptr; });
            r.m.erase(n);
        }
        else if (op == 17 && g.chance(1, 4))
        {
            vh::count("clears");
            did = "clear ";
            r.b.clear();
            r.m.clear();
        }
        else if (op == 18 && w.regs.size() < 3)
        {
            did = "new-registry ";
            w.regs.push_back(std::make_unique<Reg>());
        }
        else if (op == 19)
        {
            vh::count("move-constructions");
            did = "move-construct ";
            size_t k = g.below(w.regs.size());
            auto fresh = std::make_unique<Reg>(Reg{coil::Bindings(coil::move(w.regs[k]->b)), std::move(w.regs[k]->m)});
            w.dead.push_back(std::move(w.regs[k]));
            w.regs[k] = std::move(fresh);
            if (g.coin())
                w.dead.clear();
        }
        else if (op == 20 && w.regs.size() > 1)
        {
            vh::count("move-assignments");
            did = "move-assign ";
            size_t from = g.below(w.regs.size()), to = (from + 1 + g.below(w.regs.size() - 1)) % w.regs.size();
            w.regs[to]->b = coil::move(w.regs[from]->b);
            w.regs[to]->m = std::move(w.regs[from]->m);
            if (g.coin()) // a moved-from registry can be given a new value
            {
                w.regs[from]->b = coil::Bindings();
                w.regs[from]->m.clear();
            }
            else
            {
                w.dead.push_back(std::move(w.regs[from]));
                w.regs.erase(w.regs.begin() + static_cast<long>(from));
            }
        }
        else
        {
            did = "execute ";
            checkName(w, r, n, true, g);
        }
        trace = vh::hashStr(did + n, trace + 1);
        if (history.size() < 1500)
            history += did + "<" + vh::esc(n).substr(0, 30) + "> ";
        vh::st().note = history.c_str();
        vh::observe(trace);
        // the touched name right away, all names from time to time
        for (auto& reg : w.regs)
            checkName(w, *reg, n, false, g);
        if (i + 1 == steps || g.chance(1, 6))
            for (auto& reg : w.regs)
                for (auto const& p : pool)
                    checkName(w, *reg, p, i + 1 == steps || g.chance(1, 4), g);
    }
    if (g.chance(1, 30))
        vh::sample(history);
}
