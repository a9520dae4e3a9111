// C19: commands which use the registry they run in.
#include "model.h"

namespace c19
{
    // work done on the registry by whatever runs at the moment: argument conversions, bodies, getters, setters,
    // return value conversions
    struct Hooks
    {
        coil::Bindings b;
        std::map<std::string, int> fillers; // name -> number it returns
        std::set<std::string> busy;
        vh::Gen* g = nullptr;
        int depth = 0, next = 1, work = 0;
        int inner = 0;

        void bindFiller(std::string const& name)
        {
            int n = next++;
            std::string capture(static_cast<size_t>(n % 60), 'c');
            ref::Exact e(name);
            if (n % 3 == 0)
                b[cv(e)] = [n, capture]() { return n + static_cast<int>(capture.size()) - n % 60; };
            else if (n % 3 == 1)
                b.add(cv(e), [this, n](coil::Context ctx) {
                    ctx.log("filler");
                    if (depth < 4 && n % 2)
                        doWork();
                    ctx.log(coil::toString(n));
                });
            else
                b[cv(e)] = [this, n](int x) {
                    if (depth < 4 && n % 2)
                        doWork();
                    return x + n;
                };
            fillers[name] = n;
        }
        void unbindFiller(std::string const& name)
        {
            if (g->coin())
                b.remove(cv(name));
            else
                b[cv(name)] = nullptr;
            fillers.erase(name);
        }
        std::string pick()
        {
            if (fillers.empty() || g->chance(1, 3))
                return "filler" + std::to_string(g->below(200));
            auto it = fillers.begin();
            std::advance(it, static_cast<long>(g->below(fillers.size())));
            return it->first;
        }
        void runFiller(std::string const& name)
        {
            auto it = fillers.find(name);
            ref::Exact text(name + (it != fillers.end() && it->second % 3 == 2 ? " 1000" : ""));
            int n = it == fillers.end() ? 0 : it->second;
            bool was = busy.count(name) != 0;
            busy.insert(name);
            auto r = b.execute(cv(text));
            if (!was)
                busy.erase(name);
            inner++;
            std::string ret, out;
            if (n == 0)
            {
                VH_CHECK(!r.returnValue && r.errors.size() == 1 && sv(r.errors[0]) == "No function '" + name + "' is registered" && sv(r.output).empty(), "inner", "%s, which is not bound: %s", name.c_str(), show(r).c_str());
                return;
            }
            if (n % 3 == 0)
                ret = std::to_string(n);
            else if (n % 3 == 1)
                out = "filler" + std::to_string(n);
            else
                ret = std::to_string(1000 + n);
            VH_CHECK(r.errors.empty() && sv(r.output) == out && r.returnValue.hasValue() == !ret.empty() && (ret.empty() || sv(*r.returnValue) == ret), "inner", "%s (number %d): %s", name.c_str(), n, show(r).c_str());
            VH_CHECK(sv(r.input.name) == name, "inner", "%s: reported input is %s", name.c_str(), show(r.input).c_str());
        }
        void doWork()
        {
            depth++;
            for (size_t n = 1 + g->below(depth == 1 ? 8 : 3); n && work < 300; n--)
            {
                work++;
                std::string name = pick();
                switch (g->below(6))
                {
                case 0:
                case 1:
                    if (busy.count(name))
                        break;
                    vh::count(fillers.count(name) ? "rebound-inside" : "bound-inside");
                    bindFiller(name);
                    break;
                case 2: // growth
                    for (size_t k = g->below(20); k; k--)
                    {
                        std::string m = "filler" + std::to_string(g->below(400));
                        if (!busy.count(m))
                            bindFiller(m);
                    }
                    vh::count("grown-inside");
                    break;
                case 3:
                    if (busy.count(name))
                        break;
                    vh::count("unbound-inside");
                    unbindFiller(name);
                    break;
                default:
                    vh::count("executed-inside");
                    runFiller(name);
                }
            }
            depth--;
        }
    };
    Hooks* current = nullptr;

    struct Hook
    {
        int v = 0;
    };
    struct Host
    {
        int value = 5;
        int get() const
        {
            current->doWork();
            return value;
        }
        void set(int v)
        {
            current->doWork();
            value = v;
            current->doWork();
        }
        int method(Hook h, int x)
        {
            current->doWork();
            return h.v + x + value;
        }
    };
}
COIL_CREATE_TYPE_NAME(c19::Hook, "Hook");
namespace coil
{
    template<>
    struct TypeSerializer<c19::Hook>
    {
        static Expected<c19::Hook, String> fromString(Value const& input)
        {
            c19::current->doWork();
            c19::Hook h;
            if (input.subvalues.size() != 1 || !coil::fromString(input.subvalues[0], h.v))
                return errors::createGenericError<c19::Hook>(input);
            return h;
        }
        static String toString(c19::Hook const& h)
        {
            c19::current->doWork();
            return coil::toString(h.v);
        }
    };
}
namespace c19
{
    void hooks(vh::Gen& g)
    {
        Hooks h;
        h.g = &g;
        current = &h;
        Host host;
        h.b["arg"] = [](Hook a, Hook b) { return a.v + b.v; };
        h.b["ret"] = [](int x) {
            Hook r;
            r.v = x;
            return r;
        };
        h.b["body"] = [&](coil::Context ctx, coil::StringView text, int x) {
            ctx.log("<");
            h.doWork();
            ctx.log(coil::String(text));
            h.doWork();
            for (int i = 0; i < x; i++)
                ctx.reportError("err");
            h.doWork();
            ctx.log(">");
        };
        h.b["named"] = [&](coil::Context ctx) {
            int total = 0;
            for (auto const& arg : ctx.namedArgs())
            {
                h.doWork();
                if (auto v = arg.value.get<Hook>())
                    total += v->v;
            }
            if (auto v = ctx.namedArgs().getOrReport<Hook>("k", coil::NamedArgs::ArgType::Optional))
                total += v->v;
            return total;
        };
        h.b["method"] = coil::bind(&Host::method, &host);
        h.b["property"] = coil::bindProperty(&Host::get, &Host::set, &host);
        h.b["overloaded"] = coil::overloaded([](Hook a) { return a.v; }, [](Hook a, int b) { return a.v - b; });
        for (size_t n = g.below(10); n; n--)
            h.bindFiller("filler" + std::to_string(g.below(40)));

        uint64_t hist = 19;
        size_t steps = 2 + g.below(8);
        for (size_t i = 0; i < steps; i++)
        {
            h.work = 0;
            h.busy.clear();
            int a = static_cast<int>(g.below(1000)), b = static_cast<int>(g.below(4));
            std::string text, ret, out;
            std::vector<std::string> errors;
            bool bad = g.chance(1, 4);
            std::string A = bad ? "x" : std::to_string(a);
            std::string noA = "Unable to convert '" + A + "' to type 'Hook'";
            int before = h.inner;
            int value = host.value;
            switch (g.below(10))
            {
            case 0:
                text = "arg " + A + " " + std::to_string(b);
                ret = std::to_string(a + b);
                break;
            case 1:
                text = "ret " + std::to_string(a);
                bad = false;
                ret = std::to_string(a);
                break;
            case 2:
            case 3:
                text = "body 'some text' " + std::to_string(b);
                bad = false;
                out = "<some text>";
                errors.assign(static_cast<size_t>(b), "err");
                break;
            case 4:
                text = "named x=" + std::to_string(a) + " k=" + std::to_string(b) + " y=no";
                bad = false;
                ret = std::to_string(a + 2 * b);
                break;
            case 5:
                text = "method " + A + " " + std::to_string(b);
                ret = std::to_string(a + b + host.value);
                break;
            case 6:
                text = "property";
                bad = false;
                ret = std::to_string(host.value);
                break;
            case 7:
                text = "property " + std::to_string(a);
                bad = false;
                ret = std::to_string(a);
                value = a;
                break;
            case 8:
                text = "overloaded " + A;
                ret = std::to_string(a);
                break;
            default:
                text = "overloaded " + A + " " + std::to_string(b);
                ret = std::to_string(a - b);
            }
            if (bad)
            {
                ret.clear();
                errors.push_back(noA);
            }
            ref::Exact exact(text);
            auto r = h.b.execute(cv(exact));
            bool ok = sv(r.output) == out && r.errors.size() == errors.size() && r.returnValue.hasValue() == (!ret.empty() && errors.empty()) && (!r.returnValue || sv(*r.returnValue) == ret);
            for (size_t k = 0; ok && k < errors.size(); k++)
                ok = sv(r.errors[k]) == errors[k];
            VH_CHECK(ok, "outer", "%s (%d executions inside): %s", text.c_str(), h.inner - before, vh::esc(show(r)).c_str());
            VH_CHECK(host.value == value, "outer", "%s: the property's object is %d instead of %d", text.c_str(), host.value, value);
            // the registry: as if all changes had been made one after the other
            for (int k = 0; k < 400; k++)
            {
                std::string name = "filler" + std::to_string(k);
                auto const* c = h.b.get(cv(name));
                VH_CHECK((c != nullptr) == (h.fillers.count(name) != 0), "registry", "after %s: %s is %s", text.c_str(), name.c_str(), c ? "bound" : "not bound");
                if (c)
                    VH_CHECK(sv(c->name) == name && c->functors.size() == 1 && c->functors[0].arity() == (h.fillers[name] % 3 == 2 ? 1u : 0u), "registry", "after %s: metadata of %s", text.c_str(), name.c_str());
            }
            hist = vh::hashStr(text, hist + h.fillers.size() * 1000 + static_cast<size_t>(h.inner));
            vh::observe(hist, h.work > 0);
            vh::count("hooked-executions");
        }
        h.work = 300; // nothing inside from now on
        auto all = h.fillers;
        for (auto& f : all)
            h.runFiller(f.first);
        current = nullptr;
    }

    void scripts(vh::Gen& g)
    {
        model::nextId = 1;
        std::vector<std::string> names = {"a", "b", "aR", "b1", "with space", "x%sy"};
        size_t pool = g.chance(1, 3) ? 3 : g.logsize(60);
        for (size_t i = 0; i < pool; i++)
            names.push_back("n" + std::to_string(i));
        model::Options o;
        o.names = &names;
        o.nest = true;
        o.simple = !g.chance(1, 5);
        o.nuls = false;
        o.maxActions = g.chance(1, 3) ? 16 : 8;
        o.maxText = 20;
    #if COIL_CONFIG_CATCH_EXCEPTIONS
        o.throws = g.chance(1, 4);
    #endif
        model::Model m;
        auto env = std::make_unique<model::Env>();
        env->maxDepth = m.maxDepth = static_cast<int>(2 + g.below(6));
        env->maxCalls = m.maxCalls = g.chance(1, 20) ? 500 : 40;
        for (auto& n : names)
            if (g.chance(9, 10))
            {
                auto d = model::genDef(g, o);
                m.cmds[n] = d;
                env->bind(n, d);
            }
        std::vector<std::unique_ptr<ref::Exec>> texts;
        std::vector<std::pair<coil::ExecutionResult, std::string>> kept;
        for (int i = 0; i < 8; i++)
        {
            std::string n = g.pick(names);
            for (int t = 0; t < 3 && !m.cmds.count(n); t++)
                n = g.pick(names);
            auto it = m.cmds.find(n);
            std::vector<ref::Fields> args;
            model::Named named;
            model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, args, named, 7, 8);
            env->calls.clear();
            m.calls.clear();
            texts.push_back(std::make_unique<ref::Exec>());
            auto& ex = *texts.back();
            auto w = m.execute(n, args, named);
            auto r = ex.run(g, env->b, n, args, named);
            std::string what = vh::esc(ex.text);
            vh::st().note = what.c_str();
            if (w.open)
            {
                vh::count("open");
                return;
            }
            vh::count("scripts");
            if (m.calls.size() > 1)
                vh::count("nested");
            if (m.calls.size() >= 20)
                vh::count("nested-20-or-more");
            VH_CHECK(env->running.empty(), "unbalanced", "%s", what.c_str());
            VH_CHECK(env->calls == m.calls, "calls", "%s: %zu calls, expected %zu (or others)", what.c_str(), env->calls.size(), m.calls.size());
            model::compare(r, w, what, "nested-result");
            VH_CHECK(sv(r.input.name) == n && r.input.arguments.size() == args.size() && r.input.namedArguments.size() == named.size(), "nested-input", "%s: reported input is %s", what.c_str(), vh::esc(show(r.input)).c_str());
            vh::observe(vh::hashStr(what + model::render(w)), m.calls.size() > 1);
            for (auto& name : names)
            {
                auto const* c = env->b.get(cv(name));
                auto mit = m.cmds.find(name);
                VH_CHECK((c != nullptr) == (mit != m.cmds.end()), "registry", "after %s: %s is %s", what.c_str(), name.c_str(), c ? "bound" : "not bound");
                if (!c)
                    continue;
                VH_CHECK(sv(c->name) == name && c->functors.size() == mit->second->overloads.size(), "registry", "after %s: %s has %zu overloads", what.c_str(), name.c_str(), c->functors.size());
                for (size_t k = 0; k < c->functors.size(); k++)
                    VH_CHECK(c->functors[k].arity() == mit->second->overloads[k]->arity(), "registry", "after %s: overload %zu of %s", what.c_str(), k, name.c_str());
            }
            if (g.chance(1, 1500))
                vh::sample(what + " -> " + vh::esc(model::render(w)));
        }
    }
}
using namespace c19;

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }
void vh_case(vh::Gen& g)
{
    if (g.coin())
        scripts(g);
    else
        hooks(g);
}
