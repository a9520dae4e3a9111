// C05: lifetime ledger of callables, bound objects and lexers.
#include "refconv.h"
#include "regnames.h"
#include "tracked.h"

#include <algorithm>
#include <memory>

using vh::inst;
using vh::Tracked;

static std::map<long, int> state;  // id -> invocations so far
static std::vector<long> calls;    // ids invoked by the current execution

static int invoked(Tracked const& t, int& n)
{
    long id = t.check();
    calls.push_back(id);
    n++;
    VH_CHECK(n == ++state[id], "state", "callable %ld has run %d times, but its state says %d", id, state[id], n);
    return n;
}

struct Fn // copyable, stateful
{
    Tracked t;
    int n = 0;
    explicit Fn(long id) : t(id) {}
    int operator()() { return invoked(t, n); }
};
struct ConstFn
{
    Tracked t;
    mutable int n = 0;
    explicit ConstFn(long id) : t(id) {}
    int operator()(coil::Context) const noexcept { return invoked(t, n); }
};
struct MoveOnly
{
    Tracked t;
    std::unique_ptr<int> n = std::make_unique<int>(0);
    explicit MoveOnly(long id) : t(id) {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly(MoveOnly const&) = delete;
    int operator()(coil::StringView) { return invoked(t, *n); }
};
struct NoAssign // neither copy nor move assignable
{
    Tracked const t;
    mutable int n = 0;
    explicit NoAssign(long id) : t(id) {}
    int operator()(coil::StringView, coil::StringView) const { return invoked(t, n); }
};
struct Big
{
    Tracked t;
    int n = 0;
    std::string text = "some text which needs a heap block of its own";
    char pad[300] = {};
    explicit Big(long id) : t(id) {}
    int operator()(coil::Context ctx, coil::StringView)
    {
        ctx.log(text.c_str());
        return invoked(t, n);
    }
};

struct Plain // copyable byte by byte, with state: its count must survive from call to call
{
    long id;
    int n = 0;
    double pad[3] = {};
    int operator()(coil::StringView) { return run(); }
    int run()
    {
        calls.push_back(id);
        n++;
        VH_CHECK(n == ++state[id], "state", "plain callable %ld has run %d times, but its state says %d", id, state[id], n);
        return n;
    }
};

struct Obj
{
    Tracked t;
    int n = 0;
    explicit Obj(long id) : t(id) {}
    int method(int) { return invoked(t, n); }
    int cmethod() const { return t.check() > 0; }
};

struct Item // a user type held by a variable
{
    Tracked t;
    explicit Item(long id) : t(id) {}
};
static std::vector<long> converted;
COIL_CREATE_TYPE_NAME(Item, "Item");
template<>
struct coil::TypeSerializer<Item>
{
    static Expected<Item, String> fromString(Value const& v)
    {
        if (v.subvalues.size() != 1 || v.subvalues[0] == "bad")
            return errors::createGenericError<Item>(v);
        long id = inst().nextId++;
        converted.push_back(id);
        return Item(id);
    }
    static String toString(Item const& i) { return coil::toString(static_cast<long long>(i.t.check())); }
};

struct TLexer : coil::Lexer
{
    Tracked t;
    coil::DefaultLexer d;
    explicit TLexer(long id) : t(id) {}
    coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView s) const override
    {
        t.check();
        return d.parse(s);
    }
};

struct Reg
{
    std::unique_ptr<coil::Bindings> b = std::make_unique<coil::Bindings>();
    std::map<std::string, std::vector<long>> ids;   // exactly one holder each
    std::map<std::string, std::vector<long>> loose; // at least one holder each (captured by several lambdas)
    std::map<std::string, long> plain;              // not in the ledger: only called and remembered
    std::vector<long> old;                          // of an assigned-over registry
    long lexer = 0;
};
struct World
{
    std::vector<Reg> regs;
    std::vector<Reg> dead;
    std::vector<std::unique_ptr<Obj>> objects;
    std::vector<std::unique_ptr<Item>> items;
};

static void audit(World& w, char const* when)
{
    std::map<long, int> want; // 1 exactly one, 2 at least one, 3 at most one
    auto add = [&](Reg& r, bool) {
        for (auto& [n, v] : r.ids)
            for (long i : v)
                want[i] = 1;
        for (auto& [n, v] : r.loose)
            for (long i : v)
                want[i] = 2;
        for (long i : r.old)
            want[i] = 3;
        if (r.lexer)
            want[r.lexer] = 1;
    };
    for (auto& r : w.regs)
        add(r, true);
    for (auto& r : w.dead)
        for (long i : r.old)
            want[i] = 3;
    for (auto& o : w.objects)
        want[o->t.check()] = 1;
    for (auto& o : w.items)
        want[o->t.check()] = 1;
    for (auto& [id, k] : want)
    {
        long h = inst().holdersOf(id);
        if (k == 1)
            VH_CHECK(h == 1, h ? "kept-twice" : "destroyed-early", "%s: bound object %ld exists %ld times", when, id, h);
        else if (k == 2)
            VH_CHECK(h >= 1, "destroyed-early", "%s: bound object %ld does not exist any more", when, id);
        else
            VH_CHECK(h <= 1, "kept-twice", "%s: object %ld exists %ld times", when, id, h);
    }
    for (auto& [id, h] : inst().holders)
        VH_CHECK(want.count(id), "destroyed-late", "%s: object %ld still exists although it is not bound any more", when, id);
    for (auto& [p, id] : inst().live)
        VH_CHECK(id != vh::husk, "leftover", "%s: a moved-from object is kept", when);
    vh::count("audits");
}

void vh_warmup()
{
    inst().reset();
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

static coil::Vector<coil::AnyFunctor> makeSet(vh::Gen& g, std::vector<long>& ids)
{
    coil::Vector<coil::AnyFunctor> v;
    auto id = [&]() {
        ids.push_back(inst().nextId++);
        return ids.back();
    };
    auto some = [&]() {
        switch (g.below(6))
        {
        case 0:
            return coil::overloaded(Fn(id()));
        case 1:
            return coil::overloaded(ConstFn(id()));
        case 2:
            return coil::overloaded(MoveOnly(id()));
        case 3:
            return coil::overloaded(NoAssign(id()));
        case 4:
        {
            long a = id(), b = id(), c = id();
            return coil::overloaded(Big(a), Fn(b), MoveOnly(c));
        }
        default:
            return coil::overloaded();
        }
    };
    size_t n = 1 + g.below(3);
    for (size_t i = 0; i < n; i++)
    {
        auto part = some();
        for (auto& f : part)
            v.pushBack(coil::move(f));
    }
    if (g.chance(1, 3)) // overloads given as AnyFunctor
    {
        long a = id();
        auto part = coil::overloaded(Fn(a));
        auto all = coil::overloaded(coil::AnyFunctor(coil::move(part[0])), NoAssign(id()));
        for (auto& f : all)
            v.pushBack(coil::move(f));
    }
    return v;
}

static void bindSomething(World& w, Reg& r, std::string const& n, vh::Gen& g)
{
    std::vector<long> ids, loose;
    auto id = [&]() {
        ids.push_back(inst().nextId++);
        return ids.back();
    };
    auto& b = *r.b;
    coil::StringView v = cv(n);
    long plain = 0;
    switch (g.below(15))
    {
    case 13:
        plain = inst().nextId++;
        b[v] = Plain{plain};
        break;
    case 14:
    {
        plain = inst().nextId++;
        auto f = [id = plain, n = 0, step = 1]() mutable {
            calls.push_back(id);
            n += step;
            VH_CHECK(n == ++state[id], "state", "plain callable %ld has run %d times, but its state says %d", id, state[id], n);
            return n;
        };
        if (g.coin())
            b.add(v, f);
        else
            b[v] = coil::overloaded(f);
        break;
    }
    case 0:
        b[v] = Fn(id());
        break;
    case 1:
        b.add(v, ConstFn(id()));
        break;
    case 2:
        b[v] = MoveOnly(id());
        break;
    case 3:
        b.add(v, NoAssign(id()));
        break;
    case 4:
        b[v] = Big(id());
        break;
    case 5:
    {
        Fn f(id()); // a copy is bound, the original dies at the end of this block
        b[v] = f;
        long keep = f.t.check();
        VH_CHECK(inst().holdersOf(keep) == 2, "kept-twice", "after binding a copy, callable %ld exists %ld times", keep, inst().holdersOf(keep));
        f.n = 1000;
        break;
    }
    case 6:
        b[v] = [t = Tracked(id()), k = 0]() mutable { return invoked(t, k); };
        break;
    case 7:
    {
        auto s = makeSet(g, ids);
        if (g.chance(1, 5)) // created and thrown away
        {
            ids.clear();
            return;
        }
        if (g.coin())
            b[v] = coil::move(s);
        else
            b.add(v, coil::move(s));
        break;
    }
    case 8:
    {
        auto s = coil::overloaded(Fn(id()));
        coil::AnyFunctor f(coil::move(s[0]));
        coil::AnyFunctor f2(coil::move(f));
        if (g.coin())
            b[v] = coil::move(f2);
        else
            b.add(v, coil::move(f2));
        break;
    }
    case 9:
    {
        w.objects.push_back(std::make_unique<Obj>(inst().nextId++));
        if (g.coin())
            b[v] = coil::bind(&Obj::method, w.objects.back().get());
        else
            b[v] = coil::bind(&Obj::cmethod, static_cast<Obj const*>(w.objects.back().get()));
        break;
    }
    case 10:
    {
        w.items.push_back(std::make_unique<Item>(inst().nextId++));
        if (g.coin())
            b[v] = coil::variable(w.items.back().get());
        else
            b[v] = coil::variable(static_cast<Item const*>(w.items.back().get()));
        break;
    }
    case 11:
    {
        long a = inst().nextId++, c = inst().nextId++;
        loose = {a, c};
        b[v] = coil::property([t = Tracked(a)]() { return static_cast<int>(t.check()); }, [t = Tracked(c)](int) { t.check(); });
        break;
    }
    default:
    {
        w.objects.push_back(std::make_unique<Obj>(inst().nextId++));
        Obj* o = w.objects.back().get();
        struct G
        {
            static int get(Obj const* o) { return static_cast<int>(o->t.check()); }
        };
        b[v] = coil::bindProperty(&Obj::cmethod, o);
        (void)&G::get;
    }
    }
    r.ids.erase(n);
    r.loose.erase(n);
    r.plain.erase(n);
    if (plain)
        r.plain[n] = plain;
    if (!ids.empty())
        r.ids[n] = ids;
    if (!loose.empty())
        r.loose[n] = loose;
}

void vh_case(vh::Gen& g)
{
    inst().reset();
    state.clear();
    {
        World w;
        w.regs.resize(1);
        auto pool = ref::namePool(g, 2 + g.below(10));
        size_t steps = 4 + g.below(40);
        std::string history;
        uint64_t trace = 0;
        for (size_t i = 0; i < steps; i++)
        {
            size_t ri = g.below(w.regs.size());
            Reg& r = w.regs[ri];
            std::string const& n = g.pick(pool);
            std::string did;
            switch (g.below(16))
            {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
                did = "bind";
                vh::count(r.b->get(cv(n)) ? "rebinds" : "binds");
                bindSomething(w, r, n, g);
                break;
            case 5:
            case 6:
                did = "unbind";
                vh::count("unbinds");
                if (g.coin())
                    r.b->remove(cv(n));
                else
                    (*r.b)[cv(n)] = nullptr;
                r.ids.erase(n);
                r.loose.erase(n);
                r.plain.erase(n);
                break;
            case 7:
                if (g.chance(1, 3))
                {
                    did = "clear";
                    vh::count("clears");
                    r.b->clear();
                    r.ids.clear();
                    r.loose.clear();
                    r.plain.clear();
                }
                break;
            case 8:
            {
                did = "lexer";
                vh::count("lexers-replaced");
                long id = inst().nextId++;
                r.b->setLexer(coil::UniquePtr<coil::Lexer>(new TLexer(id)));
                r.lexer = id;
                break;
            }
            case 9:
                did = "new";
                if (w.regs.size() < 3)
                    w.regs.emplace_back();
                break;
            case 10:
            {
                did = "move-construct";
                vh::count("move-constructions");
                long copies = inst().copies, destroyed = inst().destroyed;
                Reg fresh;
                fresh.b = std::make_unique<coil::Bindings>(coil::move(*r.b));
                VH_CHECK(inst().copies == copies && inst().destroyed == destroyed, "move-copies", "moving a registry copied or destroyed a callable");
                fresh.ids = std::move(r.ids);
                fresh.loose = std::move(r.loose);
                fresh.plain = std::move(r.plain);
                fresh.lexer = r.lexer;
                fresh.old = std::move(r.old);
                Reg husk;
                husk.b = std::move(r.b);
                w.regs[ri] = std::move(fresh);
                if (g.coin())
                    w.dead.push_back(std::move(husk));
                break;
            }
            case 11:
                if (w.regs.size() > 1)
                {
                    did = "move-assign";
                    vh::count("move-assignments");
                    size_t to = (ri + 1 + g.below(w.regs.size() - 1)) % w.regs.size();
                    Reg& t = w.regs[to];
                    long copies = inst().copies;
                    *t.b = coil::move(*r.b);
                    VH_CHECK(inst().copies == copies, "move-copies", "moving a registry copied a callable");
                    Reg husk;
                    husk.b = std::move(r.b);
                    husk.old = std::move(r.old);
                    for (auto& [k, v] : t.ids)
                        husk.old.insert(husk.old.end(), v.begin(), v.end());
                    for (auto& [k, v] : t.loose)
                        husk.old.insert(husk.old.end(), v.begin(), v.end());
                    if (t.lexer)
                        husk.old.push_back(t.lexer);
                    // captured several times: only that they go is judged
                    std::vector<long> multi;
                    for (auto& [k, v] : t.loose)
                        multi.insert(multi.end(), v.begin(), v.end());
                    t.ids = std::move(r.ids);
                    t.loose = std::move(r.loose);
                    t.plain = std::move(r.plain);
                    t.lexer = r.lexer;
                    w.regs.erase(w.regs.begin() + static_cast<long>(ri));
                    if (g.chance(2, 3) || !multi.empty())
                        husk = Reg(); // dies now: so do they
                    else
                        w.dead.push_back(std::move(husk));
                }
                break;
            case 12:
                if (g.chance(1, 3) && w.regs.size() > 1)
                {
                    did = "destroy";
                    vh::count("registries-destroyed");
                    w.regs.erase(w.regs.begin() + static_cast<long>(ri));
                }
                else if (g.coin() && !w.dead.empty())
                    w.dead.erase(w.dead.begin() + static_cast<long>(g.below(w.dead.size())));
                break;
            default:
            {
                did = "execute";
                auto const* c = r.b->get(cv(n));
                size_t arity = c && c->functors.size() && g.chance(5, 6) ? c->functors[g.below(c->functors.size())].arity() : g.below(3);
                calls.clear();
                converted.clear();
                long copies = inst().copies;
                ref::Exec ex;
                std::vector<ref::Fields> args(arity, ref::Fields{g.chance(1, 8) ? "bad" : "5"});
                auto res = ex.run(g, *r.b, n, args, {}, true);
                vh::count("executions");
                if (args.empty()) // nothing is converted or assigned: reads must not copy what is bound
                {
                    vh::count("reads");
                    VH_CHECK(inst().copies == copies, "copied", "executing \"%s\" without arguments copied a bound object", vh::esc(n).c_str());
                }
                VH_CHECK(calls.size() <= 1, "called-twice", "one execution called %zu callables", calls.size());
                if (!calls.empty())
                {
                    vh::count(r.plain.count(n) ? "plain-calls" : "tracked-calls");
                    auto it = r.ids.find(n);
                    bool mine = it != r.ids.end() && std::find(it->second.begin(), it->second.end(), calls[0]) != it->second.end();
                    mine = mine || (r.plain.count(n) && r.plain[n] == calls[0]);
                    for (auto& o : w.objects)
                        mine = mine || o->t.check() == calls[0];
                    VH_CHECK(mine, "called-unbound", "executing \"%s\" called %ld, which is not bound to it", vh::esc(n).c_str(), calls[0]);
                    VH_CHECK(inst().copies == copies, "copied", "executing a callable copied it");
                }
                break;
            }
            }
            trace = vh::hashStr(did + n, trace + 1);
            vh::observe(trace);
            if (history.size() < 1200)
                history += did + "<" + vh::esc(n).substr(0, 12) + "> ";
            vh::st().note = history.c_str();
            audit(w, did.c_str());
        }
        if (g.chance(1, 30))
            vh::sample(history);
        // everything bound goes with its registry
        if (g.coin())
            w.dead.clear();
        while (!w.regs.empty())
        {
            w.regs.erase(w.regs.begin() + static_cast<long>(g.below(w.regs.size())));
            audit(w, "registry destroyed");
        }
        w.dead.clear();
        audit(w, "moved-from registries destroyed");
    }
    VH_CHECK(inst().live.empty(), "leftover", "%zu tracked objects still exist at the end", inst().live.size());
    inst().reset();
    state.clear();
    calls.clear();
    calls.shrink_to_fit();
    converted.clear();
    converted.shrink_to_fit();
}
