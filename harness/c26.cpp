// C26: command metadata describes what is bound.
#include "c26.h"

#include <thread>

namespace c26
{
    int lastCalled = 0;
    std::vector<Proto>& protos()
    {
        static std::vector<Proto> p;
        return p;
    }

    void check(coil::AnyFunctor const& f, Meta const& m, std::string const& what)
    {
        VH_CHECK(f.arity() == m.params.size(), "arity", "%s: %zu parameters, should be %zu", what.c_str(), f.arity(), m.params.size());
        auto const& t = f.parameterTypes();
        VH_CHECK(t.size() == m.params.size(), "arity", "%s: %zu parameter types, should be %zu", what.c_str(), t.size(), m.params.size());
        for (size_t i = 0; i < t.size(); i++)
            VH_CHECK(sv(t[i]) == m.params[i].type, "parameter-type", "%s: parameter %zu is called '%s', should be '%s'", what.c_str(), i, vh::esc(sv(t[i])).c_str(), m.params[i].type.c_str());
        VH_CHECK(sv(f.returnType()) == m.ret, "return-type", "%s: the return type is called '%s', should be '%s'", what.c_str(), vh::esc(sv(f.returnType())).c_str(), m.ret.c_str());
    }

    struct Bound
    {
        std::vector<Meta> meta;
        std::string what;
    };
    struct Registry
    {
        coil::Bindings b;
        std::map<std::string, Bound> model;
    };

    void check(coil::Bindings::Command const& c, std::string const& name, Bound const& m, char const* when)
    {
        std::string what = std::string(when) + ", '" + vh::esc(name) + "' (" + m.what + ")";
        VH_CHECK(sv(c.name) == name, "name", "%s: its name is '%s'", what.c_str(), vh::esc(sv(c.name)).c_str());
        VH_CHECK(c.functors.size() == m.meta.size(), "overloads", "%s: %zu overloads, should be %zu", what.c_str(), c.functors.size(), m.meta.size());
        for (size_t i = 0; i < m.meta.size(); i++)
            check(c.functors[i], m.meta[i], what + " overload " + std::to_string(i));
        vh::count("commands-checked");
    }
    void audit(Registry& r, std::vector<std::string> const& names, char const* when)
    {
        for (auto const& n : names)
        {
            ref::Exact e(n);
            coil::Bindings const& cb = r.b;
            auto* c = cb.get(cv(e));
            auto it = r.model.find(n);
            VH_CHECK((c != nullptr) == (it != r.model.end()), "lookup", "%s: '%s' is %s", when, vh::esc(n).c_str(), c ? "found" : "not found");
            if (c)
                check(*c, n, it->second, when);
        }
    }

    void bindHere(vh::Gen& g, Registry& r, std::string const& name, int& nextId)
    {
        Bound m;
        ref::Exact e(name); // freed afterwards
        coil::Bindings::Command const* added = nullptr;
        if (g.chance(1, 3))
        {
            coil::Vector<coil::AnyFunctor> all;
            size_t n = g.chance(1, 10) ? 0 : g.below(g.chance(1, 5) ? 12 : 4) + 1;
            for (size_t i = 0; i < n; i++)
            {
                auto const& p = g.pick(protos());
                if (p.meta.size() > 1)
                    continue;
                Meta meta = p.meta[0];
                meta.id = nextId++;
                meta.own = strncmp(p.kind, "lambda", 6) == 0 || strncmp(p.kind, "mutable", 7) == 0 || strncmp(p.kind, "std::", 5) == 0;
                auto v = p.make(meta.id);
                m.what += std::string(p.kind) + "; ";
                VH_CHECK(v.size() == 1, "overloads", "%zu functors", v.size());
                check(v[0], meta, m.what);
                all.pushBack(coil::move(v[0]));
                m.meta.push_back(meta);
            }
            if (g.coin())
                r.b[cv(e)] = coil::move(all);
            else
                added = &r.b.add(cv(e), coil::move(all));
            vh::count("overload-sets");
        }
        else
        {
            auto const& p = g.pick(protos());
            m.meta = p.meta;
            m.what = p.kind;
            for (auto& x : m.meta)
            {
                x.id = m.meta.size() == 1 ? nextId++ : 0;
                x.own = x.id && (strncmp(p.kind, "lambda", 6) == 0 || strncmp(p.kind, "mutable", 7) == 0 || strncmp(p.kind, "std::", 5) == 0);
            }
            auto v = p.make(m.meta[0].id);
            VH_CHECK(v.size() == m.meta.size(), "overloads", "%s: %zu functors", p.kind, v.size());
            for (size_t i = 0; i < v.size(); i++)
                check(v[i], m.meta[i], m.what + " before it is bound");
            if (v.size() == 1 && g.coin())
            {
                coil::AnyFunctor moved(coil::move(v[0]));
                check(moved, m.meta[0], m.what + " moved");
                if (g.coin())
                    r.b[cv(e)] = coil::move(moved);
                else
                    added = &r.b.add(cv(e), coil::move(moved));
            }
            else
                r.b[cv(e)] = coil::move(v);
        }
        e.release();
        r.model[name] = m;
        if (added)
            check(*added, name, m, "returned by add");
        vh::count("bound");
    }

    // the thread which binds may end before anybody asks
    void bindOne(vh::Gen& g, Registry& r, std::string const& name, int& nextId)
    {
        if (!g.chance(1, 25))
            return bindHere(g, r, name, nextId);
        std::thread([&] { bindHere(g, r, name, nextId); }).join();
        vh::count("bound-in-another-thread");
    }

    // the metadata tells how the command is dispatched
    void run(vh::Gen& g, Registry& r, std::string const& name)
    {
        auto const* c = r.b.get(cv(name));
        if (!c)
            return;
        auto const& m = r.model[name];
        size_t n = !m.meta.empty() && g.chance(4, 5) ? g.pick(m.meta).params.size() : g.below(10);
        size_t chosen = 0;
        while (chosen < c->functors.size() && c->functors[chosen].arity() != n)
            chosen++;
        std::vector<ref::Fields> args;
        std::vector<ref::CR> conv;
        std::vector<size_t> badAt;
        bool open = false;
        if (chosen < c->functors.size())
        {
            bool valid = g.coin();
            for (auto const& p : m.meta[chosen].params)
            {
                args.push_back(p.fields(g, valid || g.coin()));
                conv.push_back(p.conv(args.back()));
                open = open || conv.back().open;
                if (!conv.back().ok)
                    badAt.push_back(args.size() - 1);
            }
        }
        else
            args.resize(n, {"1"});
        lastCalled = -1;
        ref::Exec ex;
        auto res = ex.run(g, r.b, name, args);
        std::string what = vh::esc(ex.text) + " (" + m.what + ")";
        vh::st().note = what.c_str();
        vh::observe(vh::hashStr(what));
        if (open)
            return;
        if (g.chance(1, 3000))
            vh::sample(what.substr(0, 300));
        if (chosen == c->functors.size())
        {
            std::string list;
            for (size_t i = 0; i < c->functors.size(); i++)
                list += (i == 0 ? "" : i + 1 == c->functors.size() ? " or " : ", ") + std::to_string(c->functors[i].arity());
            std::string want = "Wrong number of arguments to '" + name + "': expected " + list + ", got " + std::to_string(n);
            if (name.empty())
                want = "No function name is specified";
            VH_CHECK(res.errors.size() == 1 && (name.find('\0') != std::string::npos || sv(res.errors[0]) == want), "wrong-count", "%s: %s, should be '%s'", what.c_str(), vh::esc(show(res)).c_str(), vh::esc(want).c_str());
            vh::count("wrong-count");
            return;
        }
        if (name.empty())
            return;
        if (!badAt.empty())
        {
            VH_CHECK(lastCalled == -1 && res.errors.size() == badAt.size(), "errors", "%s: %s", what.c_str(), vh::esc(show(res)).c_str());
            for (size_t i = 0; i < badAt.size(); i++)
            {
                auto const& cr = conv[badAt[i]];
                std::string to = "' to type '" + ss(c->functors[chosen].parameterTypes()[badAt[i]]) + "'";
                std::string start = "Unable to convert '" + ref::join(args[badAt[i]]) + to;
                bool nul = cr.hasNul;
                VH_CHECK(nul || (ref::errMatches(sv(res.errors[i]), cr) && sv(res.errors[i]).substr(0, start.size()) == start), "type-in-error", "%s: the error for parameter %zu is '%s', the metadata says '%s'", what.c_str(), badAt[i], vh::esc(sv(res.errors[i])).c_str(), vh::esc(to).c_str());
            }
            vh::count("types-in-errors");
            return;
        }
        if (m.meta[chosen].id)
            VH_CHECK(m.meta[chosen].own ? lastCalled == m.meta[chosen].id : lastCalled > 0, "dispatch", "%s: overload %d ran instead of %d", what.c_str(), lastCalled, m.meta[chosen].id);
        if (!(res.errors.size() == 1 && sv(res.errors[0]).find("is read-only") != std::string_view::npos))
        {
            VH_CHECK(res.errors.empty(), "dispatch", "%s: %s", what.c_str(), vh::esc(show(res)).c_str());
            VH_CHECK(res.returnValue.hasValue() == (sv(c->functors[chosen].returnType()) != "void"), "return-type", "%s: the return type is called '%s' but the result is %s", what.c_str(), ss(c->functors[chosen].returnType()).c_str(), vh::esc(show(res)).c_str());
        }
        vh::count("dispatched");
    }
}

void vh_warmup()
{
    c26::part1();
    c26::part2();
    c26::part3();
    c26::part4();
    for (auto& p : c26::protos()) // names which are made when first asked for, objects
        for (int id = 0; id < 200; id++)
            p.make(id);
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    using namespace c26;
    auto names = ref::namePool(g, 2 + g.below(g.chance(1, 10) ? 60 : 12));
    auto r = std::make_unique<Registry>();
    int nextId = 1;
    size_t steps = 10 + g.below(30);
    for (size_t s = 0; s < steps; s++)
    {
        std::string name = g.pick(names);
        switch (g.below(10))
        {
        case 0:
            if (g.coin())
                r->b.remove(cv(name));
            else
                r->b[cv(name)] = nullptr;
            r->model.erase(name);
            vh::count("unbound");
            break;
        case 1:
        {
            auto n = std::make_unique<Registry>();
            if (g.coin())
                n->b["other"] = [](int, int, int) {};
            if (g.chance(1, 10))
                r->b.clear();
            else
            {
                n->b = coil::move(r->b);
                n->model = std::move(r->model);
                r = std::move(n);
                vh::count("moved");
                break;
            }
            r->model.clear();
            break;
        }
        case 2:
        case 3:
        case 4:
        case 5:
            run(g, *r, name);
            break;
        default:
            bindOne(g, *r, name, nextId);
        }
        if (g.chance(1, 3) || s + 1 == steps)
            audit(*r, names, "after a step");
    }
}
