// C14: every allocation of every operation fails once, in turn.
#include "model.h"
#include "regnames.h"
#include "tracked.h"

#include <memory>

static constexpr bool catches = COIL_CONFIG_CATCH_EXCEPTIONS;

namespace
{
    struct Fn
    {
        vh::Tracked t;
        explicit Fn(long id) : t(id) {}
        long operator()(coil::Context ctx)
        {
            ctx.log("called");
            return t.check();
        }
    };
    struct FnMoveOnly
    {
        vh::Tracked t;
        std::unique_ptr<int> p;
        explicit FnMoveOnly(long id) : t(id), p(new int(1)) {}
        FnMoveOnly(FnMoveOnly&&) = default;
        long operator()() const { return t.check() * (p ? 1 : -1); }
    };
    struct Object
    {
        vh::Tracked t{-5};
        long id = 0;
        long getId() const { return id; }
    };

    enum class Kind
    {
        Lambda,
        Functor,
        MoveOnly,
        Overloads,
        Prepared, // an AnyFunctor made before
        Variable,
        Property,
        Method,
        Add,
        Kinds
    };

    struct Bound
    {
        long id = 0;
        bool tracked = true;
        long copies = 1; // instances which the registry holds
    };

    struct Reg
    {
        coil::Bindings b;
        std::map<std::string, Bound, std::less<std::string>> m;
        std::vector<std::unique_ptr<Object>> objects;
        std::vector<std::unique_ptr<long>> variables;
        long nextId = 1000;
    };

    // the identity which the command bound to a name returns; 0: not bound
    long identity(coil::Bindings& b, std::string const& n)
    {
        ref::Exact e(n);
        auto const* c = b.get(cv(e));
        if (!c)
            return 0;
        VH_CHECK(sv(c->name) == n, "name", "the command found as \"%s\" is named \"%s\"", vh::esc(n).c_str(), vh::esc(ss(c->name)).c_str());
        if (n.empty())
            return -1; // can't be executed
        coil::ExecutionInput in;
        in.name = cv(e);
        auto r = b.execute(coil::move(in));
        VH_CHECK(r.errors.empty() && r.returnValue, "identity", "\"%s\": %s", vh::esc(n).c_str(), vh::esc(show(r)).c_str());
        return std::strtol(r.returnValue->cStr(), nullptr, 10);
    }

    void audit(Reg& r, std::vector<std::string> const& names, std::string const* except, std::string const& what)
    {
        std::map<long, long> want;
        for (auto& kv : r.m)
            if (kv.second.tracked)
                want[kv.second.id] += kv.second.copies;
        for (auto const& n : names)
        {
            if (except && n == *except)
                continue;
            auto it = r.m.find(n);
            long id = identity(r.b, n);
            long expect = it == r.m.end() ? 0 : n.empty() ? -1 : it->second.id;
            VH_CHECK(id == expect, "other-binding", "after %s: \"%s\" is bound to %ld, should be %ld", what.c_str(), vh::esc(n).c_str(), id, expect);
        }
        vh::count("audits");
    }
    void holders(Reg& r, std::string const& what)
    {
        std::map<long, long> want;
        for (auto& kv : r.m)
            if (kv.second.tracked)
                want[kv.second.id] += kv.second.copies;
        size_t total = 0;
        for (auto& h : vh::inst().holders)
            if (h.first >= 1000)
            {
                total++;
                auto it = want.find(h.first);
                VH_CHECK(it != want.end() && it->second == h.second, "callable-count", "after %s: %ld instances of callable %ld, should be %ld", what.c_str(), h.second, h.first, it == want.end() ? 0 : it->second);
            }
        VH_CHECK(total == want.size(), "callable-lost", "after %s: %zu callables exist, should be %zu", what.c_str(), total, want.size());
    }

    template<typename F>
    bool attempt(long n, F&& f, bool& fired, bool& errorResult) // false: bad_alloc came out
    {
        vh::FailScope fs(n);
        errorResult = false;
        bool ok = true;
        try
        {
            errorResult = f();
        }
        catch (std::bad_alloc const&)
        {
            ok = false;
        }
        vh::ledger().failArmed = false;
        fired = fs.fired();
        return ok;
    }

    void bindOnce(vh::Gen& g, Reg& r, std::vector<std::string> const& names, std::string const& name)
    {
        Kind kind = static_cast<Kind>(g.below(static_cast<uint64_t>(Kind::Kinds)));
        std::string what = "binding \"" + vh::esc(name) + "\" (kind " + std::to_string(static_cast<int>(kind)) + ", " + (r.m.count(name) ? "bound" : "new") + ", " + std::to_string(r.m.size()) + " commands)";
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 200, "endless", "%s needs more than 200 allocations", what.c_str());
            vh::st().note = (what + ", allocation " + std::to_string(n)).c_str();
            Bound nb;
            nb.id = r.nextId++;
            ref::Exact e(name);
            // prepared outside of the fault
            auto obj = std::make_unique<Object>();
            obj->id = nb.id;
            auto var = std::make_unique<long>(nb.id);
            std::unique_ptr<coil::AnyFunctor> any;
            coil::Vector<coil::AnyFunctor> vec;
            if (kind == Kind::Prepared)
            {
                coil::Vector<coil::AnyFunctor> one = coil::overloaded(Fn(nb.id));
                any = std::make_unique<coil::AnyFunctor>(coil::move(one[0]));
            }
            if (kind == Kind::Variable || kind == Kind::Property || kind == Kind::Method)
                nb.tracked = false;
            Object* o = obj.get();
            long* v = var.get();
            long id = nb.id;
            bool fired, err;
            bool ok = attempt(n, [&]() {
                switch (kind)
                {
                case Kind::Lambda:
                    r.b[cv(e)] = [t = vh::Tracked(id)]() { return t.check(); };
                    break;
                case Kind::Functor:
                    r.b[cv(e)] = Fn(id);
                    break;
                case Kind::MoveOnly:
                    r.b[cv(e)] = FnMoveOnly(id);
                    break;
                case Kind::Overloads:
                    r.b[cv(e)] = coil::overloaded([t = vh::Tracked(id)](int) { return t.check(); }, Fn(id), FnMoveOnly(id));
                    break;
                case Kind::Prepared:
                    r.b.add(cv(e), coil::move(*any));
                    break;
                case Kind::Variable:
                    r.b[cv(e)] = coil::variable(v);
                    break;
                case Kind::Property:
                    r.b[cv(e)] = coil::property([v]() { return *v; });
                    break;
                case Kind::Method:
                    r.b[cv(e)] = coil::bind(&Object::getId, o);
                    break;
                default:
                    r.b.add(cv(e), Fn(id));
                }
                return false;
            }, fired, err);
            any.reset();
            nb.copies = kind == Kind::Overloads ? 3 : 1;
            vh::observe(vh::hashStr(what + std::to_string(n)));
            vh::count(fired ? "faults-bind" : "binds");
            if (fired)
                VH_CHECK(!ok, "no-error", "%s: allocation %ld failed but the call returned", what.c_str(), n);
            else
                VH_CHECK(ok, "spurious", "%s: bad_alloc although no allocation failed", what.c_str());
            long now = name.empty() ? -2 : identity(r.b, name);
            bool isNew;
            if (name.empty())
            {
                // told apart by the instances or not at all
                bool bound = r.b.get(cv(e)) != nullptr;
                if (!bound)
                    VH_CHECK(fired && !r.m.count(name), "lost-binding", "after %s, allocation %ld: the name is not bound any more", what.c_str(), n);
                isNew = bound && (!fired || !r.m.count(name) || (nb.tracked && vh::inst().holdersOf(nb.id) > 0) || (!nb.tracked && r.m[name].tracked && vh::inst().holdersOf(r.m[name].id) == 0));
            }
            else
            {
                isNew = now == nb.id;
                if (!isNew)
                    VH_CHECK(fired && now == (r.m.count(name) ? r.m[name].id : 0), "old-or-new", "after %s, allocation %ld: bound to %ld", what.c_str(), n, now);
            }
            if (isNew)
            {
                r.m[name] = nb;
                r.objects.push_back(std::move(obj));
                r.variables.push_back(std::move(var));
            }
            holders(r, what);
            if (fired)
                audit(r, names, &name, what);
            if (!fired)
                break;
        }
    }

    void unbind(vh::Gen& g, Reg& r, std::vector<std::string> const& names, std::string const& name)
    {
        std::string what = "unbinding \"" + vh::esc(name) + "\"";
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 50, "endless", "%s", what.c_str());
            ref::Exact e(name);
            bool fired, err;
            bool viaProxy = g.coin();
            bool ok = attempt(n, [&]() {
                if (viaProxy)
                    r.b[cv(e)] = nullptr;
                else
                    r.b.remove(cv(e));
                return false;
            }, fired, err);
            vh::count(fired ? "faults-unbind" : "unbinds");
            VH_CHECK(ok == !fired, "no-error", "%s: allocation %ld", what.c_str(), n);
            if (!r.b.get(cv(e)))
                r.m.erase(name);
            else
                VH_CHECK(fired && r.m.count(name), "still-bound", "after %s", what.c_str());
            holders(r, what);
            if (fired)
                audit(r, names, nullptr, what);
            if (!fired)
                break;
        }
        audit(r, names, nullptr, what);
    }

    // parsing
    void parse(vh::Gen& g)
    {
        ref::LexCfg cfg;
        std::string text = ref::command(g, cfg, g.chance(1, 10) ? 400 : 60, true);
        if (g.chance(1, 6)) // many arguments: several growths
            for (size_t n = g.below(40); n; n--)
                text += g.coin() ? " a" : " (1 2 3 4 5 6 7 8 9)";
        ref::Exact e(text);
        ref::Parsed p = ref::parse(text, cfg);
        coil::DefaultLexer lexer;
        std::string what = "parsing \"" + vh::esc(text) + "\"";
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 2000, "endless", "%s", what.c_str());
            vh::st().note = (what + ", allocation " + std::to_string(n)).c_str();
            bool fired, err;
            bool accepted = false;
            bool ok = attempt(n, [&]() {
                auto r = lexer.parse(cv(e));
                vh::ledger().failArmed = false;
                accepted = r.hasValue();
                if (vh::ledger().failed)
                    return !accepted;
                VH_CHECK(accepted == p.ok, "parse", "%s: %s", what.c_str(), accepted ? "accepted" : "rejected");
                if (accepted)
                    checkInput(text, e.p, *r, p, true, "parse");
                return !accepted;
            }, fired, err);
            vh::count(fired ? "faults-parse" : "parses");
            vh::observe(vh::hashStr(what + std::to_string(n)), fired);
            VH_CHECK(fired ? (!ok || err) : ok, fired ? "no-error" : "spurious", "%s: allocation %ld", what.c_str(), n);
            if (!fired)
                break;
        }
    }

    // executing
    void execute(vh::Gen& g)
    {
        model::nextId = 1;
        std::vector<std::string> names = {"cmd", "other", "third"};
        model::Options o;
        o.names = &names;
        o.maxText = g.chance(1, 6) ? 200 : 30;
        model::Model m;
        auto env = std::make_unique<model::Env>();
        env->calls.reserve(64);
        for (auto& n : names)
        {
            auto d = model::genDef(g, o);
            m.cmds[n] = d;
            env->bind(n, d);
        }
        for (int i = 0; i < 2; i++)
        {
            std::string name = g.chance(1, 8) ? "missing" : g.pick(names);
            auto it = m.cmds.find(name);
            std::vector<ref::Fields> args;
            model::Named named;
            model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, args, named);
            ref::Exec ex;
            // find the text (or input) once, without a fault
            vh::Gen copy = g;
            auto r0 = ex.run(copy, env->b, name, args, named);
            auto w = m.execute(name, args, named);
            std::string what = "executing \"" + vh::esc(ex.text) + "\"";
            model::compare(r0, w, what, "result");
            std::string shown = show(r0);
            for (long n = 0;; n++)
            {
                VH_CHECK(n < 3000, "endless", "%s", what.c_str());
                vh::st().note = (what + ", allocation " + std::to_string(n)).c_str();
                bool fired = false, err = false, ok;
                if (ex.asText)
                {
                    std::string got;
                    {
                        // result objects are inspected after the fault is disarmed
                        std::optional<coil::ExecutionResult> r;
                        ok = attempt(n, [&]() {
                            r.emplace(env->b.execute(cv(*ex.exact)));
                            return !r->errors.empty();
                        }, fired, err);
                        if (ok)
                            got = show(*r);
                        if (ok && fired)
                        {
                            VH_CHECK(!r->errors.empty() && !r->returnValue, "no-error", "%s: allocation %ld failed, the result is %s", what.c_str(), n, vh::esc(got).c_str());
                            if (catches)
                                vh::count("error-results");
                        }
                    }
                    if (!fired)
                        VH_CHECK(ok && got == shown, "spurious", "%s: %s, before: %s", what.c_str(), vh::esc(got).c_str(), vh::esc(shown).c_str());
                }
                else
                {
                    // a prepared input: built without faults, then executed
                    coil::ExecutionInput input;
                    ref::InputBuilder in;
                    input.name = in.view(name);
                    for (auto& f : args)
                        input.arguments.pushBack(in.value(f));
                    for (auto& kv : named)
                        input.namedArguments.pushBack(coil::NamedValue{in.view(kv.first), in.value(kv.second)});
                    std::string got;
                    std::optional<coil::ExecutionResult> r;
                    ok = attempt(n, [&]() {
                        r.emplace(env->b.execute(coil::move(input)));
                        return !r->errors.empty();
                    }, fired, err);
                    if (ok)
                        got = show(*r);
                    if (ok && fired)
                        VH_CHECK(!r->errors.empty() && !r->returnValue, "no-error", "%s: allocation %ld failed, the result is %s", what.c_str(), n, vh::esc(got).c_str());
                    if (!fired)
                        VH_CHECK(ok && got == shown, "spurious", "%s: %s, before: %s", what.c_str(), vh::esc(got).c_str(), vh::esc(shown).c_str());
                }
                vh::count(fired ? "faults-execute" : "executions");
                if (fired && !ok)
                    vh::count("bad-allocs");
                vh::observe(vh::hashStr(what + std::to_string(n)), fired);
                env->calls.clear();
                VH_CHECK(env->running.empty(), "unbalanced", "%s", what.c_str());
                if (!fired)
                    break;
            }
            for (auto& nm : names)
                VH_CHECK(env->b.get(cv(nm)) != nullptr, "other-binding", "after %s: %s is gone", what.c_str(), nm.c_str());
        }
    }

    template<typename T>
    void convert(vh::Gen& g)
    {
        using C = ref::Conv<T>;
        ref::Fields f = C::fields(g, g.chance(2, 3));
        ref::CR want = C::conv(f);
        if (want.open)
            return;
        ref::InputBuilder in;
        coil::Value v = in.value(f);
        std::string what = "converting " + vh::esc(ref::showFields(f)) + " to " + C::name();
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 2000, "endless", "%s", what.c_str());
            vh::st().note = (what + ", allocation " + std::to_string(n)).c_str();
            bool fired, err;
            bool ok = attempt(n, [&]() {
                auto r = coil::TypeSerializer<T>::fromString(v);
                vh::ledger().failArmed = false;
                if (!vh::ledger().failed)
                {
                    VH_CHECK(r.hasValue() == want.ok && (!r || C::canon(*r) == want.canon), "value", "%s", what.c_str());
                    return false;
                }
                return !r;
            }, fired, err);
            vh::count(fired ? "faults-convert" : "conversions");
            vh::observe(vh::hashStr(what + std::to_string(n)), fired);
            VH_CHECK(fired ? (!ok || err) : ok, fired ? "no-error" : "spurious", "%s: allocation %ld", what.c_str(), n);
            if (!fired)
                break;
        }
        if (!want.ok)
            return;
        T const value = C::value(g);
        std::string text = C::text(value);
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 2000, "endless", "textual form of %s", C::name().c_str());
            bool fired, err;
            bool ok = attempt(n, [&]() {
                auto s = coil::TypeSerializer<T>::toString(value);
                vh::ledger().failArmed = false;
                VH_CHECK(vh::ledger().failed || sv(s) == text, "text", "%s", text.c_str());
                return false;
            }, fired, err);
            vh::count(fired ? "faults-to-text" : "to-text");
            VH_CHECK(ok == !fired, fired ? "no-error" : "spurious", "textual form of %s \"%s\": allocation %ld", C::name().c_str(), vh::esc(text).c_str(), n);
            if (!fired)
                break;
        }
    }

    // registries themselves
    void registries(vh::Gen& g)
    {
        for (long n = 0;; n++)
        {
            VH_CHECK(n < 50, "endless", "constructing a registry");
            bool fired, err;
            bool ok = attempt(n, [&]() {
                coil::Bindings b;
                return false;
            }, fired, err);
            VH_CHECK(ok == !fired, "no-error", "constructing a registry: allocation %ld", n);
            vh::count(fired ? "faults-construct" : "constructions");
            if (!fired)
                break;
        }
        Reg r;
        std::vector<std::string> names = {"a", "b", "c", ""};
        for (auto& n : names)
            if (g.coin())
                bindOnce(g, r, names, n);
        for (long n = 0;; n++)
        {
            bool fired, err;
            bool assign = g.coin();
            coil::Bindings other;
            bool ok = attempt(n, [&]() {
                if (assign)
                    other = coil::move(r.b);
                else
                {
                    coil::Bindings tmp(coil::move(r.b));
                    r.b = coil::move(tmp);
                }
                return false;
            }, fired, err);
            VH_CHECK(n < 50 && ok == !fired, "no-error", "moving a registry: allocation %ld", n);
            if (assign)
            {
                // where did they go?
                bool moved = false;
                for (auto& kv : r.m)
                    if (other.get(cv(kv.first)))
                        moved = true;
                if (moved)
                    r.b = coil::move(other);
            }
            audit(r, names, nullptr, "moving");
            if (!fired)
                break;
        }
        holders(r, "moving");
    }
}

void vh_warmup()
{
    vh::Gen g(1);
    for (int i = 0; i < 50; i++)
    {
        convert<std::vector<int>>(g);
        convert<std::vector<std::string>>(g);
        convert<std::optional<std::string>>(g);
    }
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    vh::inst().reset();
    switch (g.below(6))
    {
    case 0:
    case 1:
    {
        Reg r;
        auto names = ref::namePool(g, 3 + g.below(g.chance(1, 5) ? 40 : 12));
        size_t steps = 3 + g.below(12);
        for (size_t i = 0; i < steps; i++)
        {
            std::string const n = g.pick(names);
            if (g.chance(3, 4))
                bindOnce(g, r, names, n);
            else
                unbind(g, r, names, n);
        }
        if (g.coin())
        {
            bool fired, err;
            bool ok = attempt(0, [&]() {
                r.b.clear();
                return false;
            }, fired, err);
            if (ok)
                r.m.clear();
            audit(r, names, nullptr, "clearing");
            holders(r, "clearing");
            vh::count("clears");
        }
        break;
    }
    case 2:
        for (int i = 0; i < 4; i++)
            parse(g);
        break;
    case 3:
        execute(g);
        break;
    case 4:
        for (int i = 0; i < 4; i++)
            switch (g.below(9))
            {
            case 0:
                convert<std::vector<int>>(g);
                break;
            case 1:
                convert<std::vector<std::string>>(g);
                break;
            case 2:
                convert<std::optional<std::string>>(g);
                break;
            case 3:
                convert<coil::String>(g);
                break;
            case 4:
                convert<int>(g);
                break;
            case 5:
                convert<double>(g);
                break;
            case 6:
                convert<std::string>(g);
                break;
            case 7:
                convert<bool>(g);
                break;
            default:
                convert<coil::StringView>(g);
            }
        break;
    default:
        registries(g);
    }
}
