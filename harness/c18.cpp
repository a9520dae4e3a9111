// C18: threads.  The race detector watches; every result is also compared with what a single thread would get.
#include "model.h"
#include "regnames.h"
#include "world.h"

#include <atomic>
#include <sched.h>
#include <thread>

namespace c18
{
    std::atomic<int> waiting{0};
    std::atomic<uint32_t> tickets{0};

    struct Worker
    {
        int index = 0;
        vh::Gen g{0};
        std::vector<uint32_t> seen; // the tickets this thread drew: how the threads interleaved
        std::map<std::string, uint64_t> counts;
        std::string sample;
        void tick(char const* what)
        {
            seen.push_back(tickets.fetch_add(1, std::memory_order_relaxed));
            counts[what]++;
            // relaxed operations only: nothing here may order the threads for the race detector
            if (g.chance(1, 6))
                sched_yield();
            else if (g.chance(1, 8))
                for (size_t n = g.below(3000); n; n--)
                    asm volatile("" ::: "memory");
        }
    };

    template<typename F>
    void inThreads(vh::Gen& g, size_t n, F f)
    {
        std::vector<Worker> w(n);
        std::vector<std::thread> t;
        waiting.store(static_cast<int>(n), std::memory_order_relaxed);
        tickets.store(0, std::memory_order_relaxed);
        for (size_t i = 0; i < n; i++)
        {
            w[i].index = static_cast<int>(i);
            w[i].g = vh::Gen(g.u64());
        }
        for (size_t i = 0; i < n; i++)
            t.emplace_back([&, i] {
                waiting.fetch_sub(1, std::memory_order_relaxed);
                while (waiting.load(std::memory_order_relaxed) > 0)
                    sched_yield();
                f(w[i]);
            });
        for (auto& x : t)
            x.join();
        std::vector<std::pair<uint32_t, int>> order;
        for (auto& x : w)
        {
            for (uint32_t s : x.seen)
                order.push_back({s, x.index});
            for (auto& c : x.counts)
            {
                static std::set<std::string> names;
                vh::count(names.insert(c.first).first->c_str(), c.second);
            }
            if (!x.sample.empty() && g.chance(1, 40))
                vh::sample(x.sample);
        }
        std::sort(order.begin(), order.end());
        uint64_t h = n;
        size_t switches = 0;
        for (size_t i = 0; i < order.size(); i++)
        {
            h = vh::mix(h ^ static_cast<uint64_t>(order[i].second));
            switches += i && order[i].second != order[i - 1].second;
        }
        vh::count("thread-switches", switches);
        vh::count("threads", n);
        vh::observe(h, switches > 0);
    }

    model::Options options(vh::Gen& g, std::vector<std::string> const& names)
    {
        model::Options o;
        o.names = &names;
        o.nest = g.coin();
        o.simple = o.nest;
        o.throws = COIL_CONFIG_CATCH_EXCEPTIONS && g.coin();
        o.maxActions = 5;
        return o;
    }
    std::vector<std::string> const allNames = {"a", "b", "cmd", "other", "%s", "with space", "UPPER", "EzEz", "EzFY", "FYEz", "FYFY"};

    void execute(Worker& w, model::Env& env, model::Model& m, char const* kind)
    {
        model::Result want;
        std::string what;
        m.calls.clear();
        m.texts.clear();
        env.callLog().clear();
        if (w.g.chance(1, 3))
        {
            std::string t = ref::command(w.g, m.cfg, 40, true, w.g.pick(allNames).c_str());
            ref::Exact e(t);
            want = m.executeText(t);
            coil::ExecutionResult r = env.b.execute(cv(e));
            what = vh::esc(t);
            model::compare(r, want, std::string(kind) + ": " + what, "result");
        }
        else
        {
            std::string name = w.g.pick(allNames);
            auto it = m.cmds.find(name);
            std::vector<ref::Fields> args;
            model::Named named;
            model::genArgs(w.g, it == m.cmds.end() ? nullptr : it->second, args, named);
            want = m.execute(name, args, named);
            ref::Exec ex;
            coil::ExecutionResult r = ex.run(w.g, env.b, name, args, named, !env.customLexer);
            what = vh::esc(ex.text);
            model::compare(r, want, std::string(kind) + ": " + what, "result");
            if (w.sample.empty() && w.g.chance(1, 50))
                w.sample = std::string(kind) + ": " + what + " -> " + vh::esc(show(r));
        }
        if (!want.open)
            VH_CHECK(env.callLog() == m.calls, "calls", "%s: %s: %zu calls, expected %zu (or others)", kind, what.c_str(), env.callLog().size(), m.calls.size());
        w.tick(kind);
    }

    // every thread has a registry of its own; some were made by the main thread
    void own(vh::Gen& g)
    {
        size_t n = 2 + g.below(7);
        struct Made
        {
            std::unique_ptr<model::Env> env;
            model::Model m;
        };
        std::vector<Made> made(n);
        std::vector<std::string> names = allNames;
        for (auto& x : made)
            if (g.coin())
            {
                x.env = std::make_unique<model::Env>();
                for (auto& name : names)
                    if (g.coin())
                    {
                        auto d = model::genDef(g, options(g, names));
                        x.m.cmds[name] = d;
                        x.env->bind(name, d);
                    }
            }
        inThreads(g, n, [&](Worker& w) {
            auto env = std::move(made[static_cast<size_t>(w.index)].env);
            model::Model m = made[static_cast<size_t>(w.index)].m;
            for (int life = 0; life < 2; life++)
            {
                if (!env)
                {
                    env = std::make_unique<model::Env>();
                    m = model::Model{};
                }
                env->spin = static_cast<unsigned>(w.g.below(400));
                for (size_t steps = 8 + w.g.below(25); steps; steps--)
                {
                    std::string const& name = w.g.pick(allNames);
                    switch (w.g.below(8))
                    {
                    case 0:
                    case 1:
                    {
                        auto d = model::genDef(w.g, options(w.g, allNames));
                        m.cmds[name] = d;
                        env->bind(name, d);
                        w.tick("own-bind");
                        break;
                    }
                    case 2:
                        m.cmds.erase(name);
                        env->unbind(name);
                        w.tick("own-unbind");
                        break;
                    default:
                        execute(w, *env, m, "own-execute");
                    }
                }
                env.reset();
            }
        });
    }

    struct Forward : coil::Lexer
    {
        coil::Lexer const* to;
        explicit Forward(coil::Lexer const* t) : to(t) {}
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override { return to->parse(str); }
    };

    // one lexer, used by all
    void lexer(vh::Gen& g)
    {
        ref::LexCfg cfg = g.coin() ? ref::LexCfg{} : ref::config(g);
        coil::DefaultLexer l(cv(cfg.group), cv(cfg.quotes), cv(cfg.seps), cv(cfg.spaces));
        coil::Lexer const& shared = l;
        inThreads(g, 2 + g.below(7), [&](Worker& w) {
            model::Env env;
            model::Model m;
            m.cfg = cfg;
            env.b.setLexer(coil::makeUnique<Forward>(&shared));
            env.customLexer = true;
            model::Options o = options(w.g, allNames);
            for (auto& name : allNames)
                if (w.g.coin())
                {
                    auto d = model::genDef(w.g, o);
                    m.cmds[name] = d;
                    env.bind(name, d);
                }
            for (size_t steps = 10 + w.g.below(30); steps; steps--)
            {
                if (w.g.coin())
                {
                    execute(w, env, m, "shared-lexer-execute");
                    continue;
                }
                std::string t = ref::command(w.g, cfg, 60);
                ref::Exact e(t);
                ref::Parsed p = ref::parse(t, cfg);
                auto in = shared.parse(cv(e));
                VH_CHECK(in.hasValue() == p.ok, "parse", "\"%s\": accepted: %d", vh::esc(t).c_str(), in.hasValue());
                if (in)
                    checkInput(t, e.p, *in, p, true, "parse");
                else
                    VH_CHECK(sameError(sv(in.error()), p), "parse", "\"%s\": error %s", vh::esc(t).c_str(), vh::esc(sv(in.error())).c_str());
                w.tick("shared-lexer-parse");
            }
        });
    }

    // one registry which doesn't change
    void registry(vh::Gen& g)
    {
        model::Env env;
        model::Model m;
        env.shared = true;
        env.spin = static_cast<unsigned>(g.below(400));
        std::vector<std::string> names = allNames;
        model::Options o = options(g, names);
        o.readOnly = true;
        for (auto& name : names)
            if (g.chance(4, 5))
            {
                auto d = model::genDef(g, o);
                m.cmds[name] = d;
                env.bind(name, d);
            }
        coil::Bindings const& view = env.b;
        inThreads(g, 2 + g.below(7), [&](Worker& w) {
            model::Model mine = m;
            for (size_t steps = 10 + w.g.below(30); steps; steps--)
            {
                if (!w.g.chance(1, 4))
                {
                    execute(w, env, mine, "shared-registry-execute");
                    continue;
                }
                std::string const& name = w.g.pick(allNames);
                auto* c = view.get(cv(name));
                auto it = mine.cmds.find(name);
                VH_CHECK((c != nullptr) == (it != mine.cmds.end()), "lookup", "'%s' is %s", name.c_str(), c ? "found" : "not found");
                if (c)
                {
                    VH_CHECK(sv(c->name) == name && c->functors.size() == it->second->overloads.size(), "metadata", "'%s'", name.c_str());
                    for (size_t i = 0; i < c->functors.size(); i++)
                        VH_CHECK(c->functors[i].arity() == it->second->overloads[i]->arity() && c->functors[i].parameterTypes().size() == c->functors[i].arity() && !c->functors[i].returnType().empty(), "metadata", "'%s'", name.c_str());
                }
                w.tick("shared-registry-lookup");
            }
        });
    }

    // values which all threads read and copy
    void values(vh::Gen& g)
    {
        ref::InputBuilder keep;
        coil::Bindings source;
        source["f"] = [](coil::Context ctx, coil::Value const& v, std::string const& s) {
            ctx.log(v.str());
            ctx.reportError(cs(s));
            ctx.reportError("second");
        };
        std::string text = ref::anyText(g, 60);
        coil::ExecutionInput in;
        in.name = keep.view("f");
        in.arguments.pushBack(keep.value(ref::Conv<coil::Value>::fields(g, true)));
        in.arguments.pushBack(keep.value({text}));
        coil::ExecutionResult const result = source.execute(in);
        std::string const shown = show(result) + show(result.input);
        coil::String const str = cs(text);
        std::string number = std::to_string(g.range(-100000, 100000));
        coil::Value const value = keep.value({number});
        coil::Vector<coil::String> many;
        for (size_t i = 0; i < 1 + g.below(8); i++)
            many.pushBack(cs(ref::anyText(g, 30)));
        coil::Vector<coil::String> const& manyC = many;
        std::string manyShown;
        for (auto const& s : manyC)
            manyShown += ss(s) + "|";
        inThreads(g, 2 + g.below(7), [&](Worker& w) {
            for (size_t steps = 10 + w.g.below(30); steps; steps--)
            {
                switch (w.g.below(6))
                {
                case 0:
                {
                    coil::ExecutionResult copy = result;
                    VH_CHECK(show(copy) + show(copy.input) == shown, "copy", "a copied result differs");
                    break;
                }
                case 1:
                {
                    coil::String copy = str;
                    copy += 'x';
                    VH_CHECK(sv(copy) == text + "x" && sv(str) == text, "copy", "a copied string differs");
                    break;
                }
                case 2:
                {
                    coil::Vector<coil::String> copy = manyC;
                    std::string s;
                    for (auto const& e : copy)
                        s += ss(e) + "|";
                    VH_CHECK(s == manyShown, "copy", "a copied vector differs");
                    break;
                }
                case 3:
                {
                    auto v = value.get<int>();
                    VH_CHECK(v && std::to_string(*v) == number, "convert", "%s", number.c_str());
                    auto d = value.get<double>();
                    VH_CHECK(d && static_cast<double>(*d) == std::stod(number), "convert", "%s", number.c_str());
                    auto b = value.get<unsigned char>();
                    ref::CR want = ref::Conv<unsigned char>::conv({number});
                    VH_CHECK(b.hasValue() == want.ok && (b || sv(b.error()) == want.err), "convert", "%s", number.c_str());
                    break;
                }
                case 4: // formatting and conversions of its own values
                {
                    long long x = static_cast<long long>(w.g.u64() >> w.g.below(64));
                    coil::String s = coil::toString(x);
                    VH_CHECK(sv(s) == std::to_string(x), "convert", "%lld became %s", x, s.cStr());
                    long long back = 0;
                    VH_CHECK(coil::fromString(s, back) && back == x, "convert", "%lld", x);
                    coil::String f = coil::sprintf("%d-%s-%lld", w.index, "text", x);
                    VH_CHECK(sv(f) == std::to_string(w.index) + "-text-" + std::to_string(x), "format", "%s", f.cStr());
                    double d = static_cast<double>(w.g.range(-1000000, 1000000)) / 64;
                    VH_CHECK(sv(coil::toString(d)) == ref::floatText(d), "convert", "%g", d);
                    VH_CHECK(sv(coil::TypeSerializer<bool>::toString(x & 1)) == (x & 1 ? "true" : "false"), "convert", "bool");
                    break;
                }
                default:
                {
                    coil::Bindings own;
                    own["f"] = [](coil::Value const& v, std::string const& s) { return coil::toStdString(v.str()) + s; };
                    auto r = own.execute(in);
                    VH_CHECK(r.errors.empty() && show(r.input) == show(in), "shared-input", "%s", vh::esc(show(r)).c_str());
                }
                }
                w.tick("shared-values");
            }
        });
    }

    // registries of their own with everything the library offers; what the results should be was seen before, in the main
    // thread alone
    // (or will be seen, so that nothing is used for the first time by the main thread)
    void worlds(vh::Gen& g, size_t n, bool after)
    {
        bool const same = g.coin();
        std::vector<std::vector<std::string>> texts(n);
        std::vector<std::vector<std::string>> got(n);
        std::vector<uint64_t> seed(n);
        for (size_t i = 0; i < n; i++)
        {
            if (same && i > 0)
            {
                texts[i] = texts[0];
                seed[i] = seed[0];
                continue;
            }
            for (size_t k = 6 + g.below(30); k; k--)
                texts[i].push_back(world::text(g, 40));
            seed[i] = g.u64();
        }
        auto run = [&](size_t i, Worker* t) {
            std::vector<std::string> r;
            world::World w(COIL_CONFIG_CATCH_EXCEPTIONS);
            vh::Gen own(seed[i]);
            w.extremes(own);
            for (auto const& text : texts[i])
            {
                ref::Exact e(text);
                coil::ExecutionResult x = w.b.execute(cv(e));
                r.push_back(show(x) + show(x.input));
                if (t)
                    t->tick("own-world");
            }
            return r;
        };
        std::vector<std::vector<std::string>> want;
        auto alone = [&] {
            for (size_t i = 0; i < (same ? 1 : n); i++)
                want.push_back(run(i, nullptr));
        };
        if (!after)
            alone();
        inThreads(g, n, [&](Worker& t) { got[static_cast<size_t>(t.index)] = run(static_cast<size_t>(t.index), &t); });
        if (after)
            alone();
        for (size_t i = 0; i < n; i++)
            for (size_t k = 0; k < texts[i].size(); k++)
                VH_CHECK(got[i][k] == want[same ? 0 : i][k], "result", "own-world: %s: {%s}, alone it is {%s}", vh::esc(texts[i][k]).c_str(), vh::esc(got[i][k]).c_str(), vh::esc(want[same ? 0 : i][k]).c_str());
    }

    // the names of composed types, made when first asked for; once per process
    template<typename T>
    void nameOf(Worker& w)
    {
        std::string got = ss(coil::TypeName<T>::name());
        VH_CHECK(got == ref::Conv<T>::name(), "type-name", "'%s', should be '%s'", got.c_str(), ref::Conv<T>::name().c_str());
        coil::Bindings b;
        b["f"] = [](T const&) {};
        VH_CHECK(sv(b.get("f")->functors[0].parameterTypes()[0]) == ref::Conv<T>::name(), "type-name", "metadata: %s", ref::Conv<T>::name().c_str());
        coil::ExecutionInput in;
        in.name = "f";
        coil::Vector<coil::StringView> fields;
        for (char const* f : {"1", "x", "2"})
            fields.pushBack(f);
        in.arguments.pushBack(coil::Value(std::move(fields)));
        auto r = b.execute(in);
        ref::CR want = ref::Conv<T>::conv({"1", "x", "2"});
        VH_CHECK(want.ok ? r.errors.empty() : r.errors.size() == 1 && sv(r.errors[0]) == want.err, "type-name", "%s: %s", want.err.c_str(), vh::esc(show(r)).c_str());
        w.tick("first-uses");
    }
    template<typename... Ts>
    void names(Worker& w)
    {
        static void (*const f[])(Worker&) = {&nameOf<std::vector<Ts>>..., &nameOf<std::optional<Ts>>..., &nameOf<std::vector<std::optional<Ts>>>..., &nameOf<std::optional<std::vector<Ts>>>...};
        size_t const n = sizeof f / sizeof *f;
        // nearly the same order in all threads, so that they meet at each name
        size_t start = 0;
        for (size_t i = 0; i < n; i++)
        {
            size_t at = (start + i + (w.g.chance(1, 6) ? w.g.below(3) : 0)) % n;
            f[at](w);
        }
        for (size_t i = 0; i < n; i++)
            f[i](w);
    }
}

void vh_warmup() {}
bool vh_mode(std::string const& mode, uint64_t from, uint64_t)
{
    if (mode != "first")
        return false;
    vh::Gen g(vh::mix(vh::st().seed * 31 + from));
    vh::st().evaluations++;
    if (from % 2)
        c18::worlds(g, 8, true);
    c18::inThreads(g, 8, [](c18::Worker& w) { c18::names<int, short, long, unsigned char, double, bool, std::string, coil::String>(w); });
    return true;
}
void vh_case(vh::Gen& g)
{
    model::nextId = 1;
    switch (g.below(7))
    {
    case 0:
    case 1:
        c18::own(g);
        break;
    case 5:
    case 6:
        c18::worlds(g, 2 + g.below(7), g.coin());
        break;
    case 2:
        c18::lexer(g);
        break;
    case 3:
        c18::registry(g);
        break;
    default:
        c18::values(g);
    }
}
