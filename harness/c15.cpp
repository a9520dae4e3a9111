// C15: variables and properties.
#include "convcheck.h"

#include <functional>

namespace c15
{
    struct Slot
    {
        std::string name;
        char const* kind = "";
        virtual ~Slot() = default;
        virtual void bind(coil::Bindings& b) = 0;
        virtual void direct(vh::Gen& g) = 0;                // the program changes the object
        virtual void command(vh::Gen& g, coil::Bindings& b) = 0;
        virtual void check(char const* when) = 0;           // object == model
        virtual std::string state() = 0;
    };

    enum class K
    {
        Variable,
        ConstVariable,
        Property,        // lambdas, by reference
        PropertyByValue, // lambdas, by value
        PropertyFunctions,
        PropertyRead,
        PropertyReadValue,
        BindMethods,
        BindMethodsByValue,
        BindLambdas,
        BindRead,
        BindReadConst,
        Kinds
    };

    template<typename T>
    struct Impl : Slot
    {
        using C = ref::Conv<T>;
        K k;
        // the object, with neighbours which must not change
        struct Object
        {
            T before;
            T value;
            T after;
            int sets = 0, gets = 0;
            bool frozen = false; // the setter refuses to change it
            T const& get() const
            {
                const_cast<Object*>(this)->gets++;
                return value;
            }
            T getCopy()
            {
                gets++;
                return value;
            }
            void set(T const& v)
            {
                sets++;
                if (!frozen)
                    value = v;
            }
            int setMove(T v)
            {
                sets++;
                if (!frozen)
                    value = std::move(v);
                return 12345; // ignored
            }
        };
        std::unique_ptr<Object> o = std::make_unique<Object>();
        std::string want, wantBefore, wantAfter;
        int wantSets = 0;
        static Impl* current; // for plain functions

        Impl(vh::Gen& g, K kk) : k(kk)
        {
            o->before = C::value(g);
            o->value = C::value(g);
            o->after = C::value(g);
            want = C::canon(o->value);
            wantBefore = C::canon(o->before);
            wantAfter = C::canon(o->after);
        }
        bool readOnly() const { return k == K::ConstVariable || k == K::PropertyRead || k == K::PropertyReadValue || k == K::BindRead || k == K::BindReadConst; }
        bool anyArgument() const { return k == K::PropertyRead || k == K::PropertyReadValue; }
        bool hasSetter() const { return !readOnly() && k != K::Variable; }

        static T functionGet() { return current->o->getCopy(); }
        static void functionSet(T const& v) { current->o->set(v); }

        void bind(coil::Bindings& b) override
        {
            Object* p = o.get();
            auto at = b[cv(name)];
            switch (k)
            {
            case K::Variable:
                kind = "variable";
                at = coil::variable(&p->value);
                break;
            case K::ConstVariable:
                kind = "const variable";
                at = coil::variable(static_cast<T const*>(&p->value));
                break;
            case K::Property:
                kind = "property";
                at = coil::property([p]() -> T const& { return p->get(); }, [p](T const& v) { p->set(v); });
                break;
            case K::PropertyByValue:
                kind = "property by value";
                at = coil::property([p]() { return p->getCopy(); }, [p](T v) { return p->setMove(std::move(v)); });
                break;
            case K::PropertyFunctions:
                kind = "property of functions";
                current = this;
                at = coil::property(&functionGet, &functionSet);
                break;
            case K::PropertyRead:
                kind = "read-only property";
                at = coil::property([p]() -> T const& { return p->get(); });
                break;
            case K::PropertyReadValue:
                kind = "read-only property by value";
                at = coil::property([p]() { return p->getCopy(); });
                break;
            case K::BindMethods:
                kind = "bound property";
                at = coil::bindProperty(&Object::get, &Object::set, p);
                break;
            case K::BindMethodsByValue:
                kind = "bound property by value";
                at = coil::bindProperty(&Object::getCopy, &Object::setMove, p);
                break;
            case K::BindLambdas:
                kind = "bound property of lambdas";
                at = coil::bindProperty([](Object* x) -> T const& { return x->get(); }, [](Object* x, T const& v) { x->set(v); }, p);
                break;
            case K::BindRead:
                kind = "read-only bound property";
                at = coil::bindProperty(&Object::get, p);
                break;
            default:
                kind = "read-only bound property of a const object";
                at = coil::bindProperty(&Object::get, static_cast<Object const*>(p));
            }
        }
        void direct(vh::Gen& g) override
        {
            if (k == K::PropertyFunctions)
                current = this;
            if (g.chance(1, 3))
                o->frozen = !o->frozen;
            o->value = C::value(g);
            want = C::canon(o->value);
            vh::count("direct-changes");
        }
        void check(char const* when) override
        {
            VH_CHECK(C::canon(o->value) == want, "object", "%s: %s %s of type %s is %s, should be %s", when, kind, name.c_str(), C::name().c_str(), vh::esc(C::canon(o->value)).c_str(), vh::esc(want).c_str());
            VH_CHECK(C::canon(o->before) == wantBefore && C::canon(o->after) == wantAfter, "neighbour", "%s: a neighbour of %s %s changed", when, kind, name.c_str());
            VH_CHECK(o->sets == wantSets, "setter-calls", "%s: %s %s of type %s: the setter was called %d times, should be %d", when, kind, name.c_str(), C::name().c_str(), o->sets, wantSets);
        }
        std::string state() override { return name + kind + want; }

        void command(vh::Gen& g, coil::Bindings& b) override
        {
            if (k == K::PropertyFunctions)
                current = this;
            std::vector<ref::Fields> args;
            size_t n = g.chance(1, 3) ? 0 : g.chance(1, 12) ? 2 + g.below(3) : 1;
            for (size_t i = 0; i < n; i++)
                args.push_back(C::fields(g, g.chance(2, 3)));
            std::vector<std::pair<std::string, ref::Fields>> named;
            if (g.chance(1, 10))
                named.push_back({"value", {"1"}});
            ref::CR conv = n == 1 ? C::conv(args[0]) : ref::CR();
            ref::Exec ex;
            auto r = ex.run(g, b, name, args, named);
            std::string what = std::string(kind) + " of type " + C::name() + " (" + vh::esc(want) + "), \"" + vh::esc(ex.text) + "\"" + (o->frozen ? " frozen" : "");
            vh::st().note = what.c_str();
            vh::observe(vh::hashStr(what));
            if (g.chance(1, 1500))
                vh::sample(what);
            std::string err;
            bool lenient = false;
            if (n > 1)
            {
                err = "Wrong number of arguments to '" + name + "': expected 0 or 1, got " + std::to_string(n);
                vh::count("wrong-count");
            }
            else if (n == 1)
            {
                if (conv.open && !anyArgument())
                {
                    want = C::canon(o->value);
                    wantSets = o->sets;
                    return;
                }
                if (!conv.ok && !anyArgument())
                {
                    err = conv.err;
                    lenient = conv.hasNul;
                    vh::count("not-convertible");
                }
                else if (readOnly())
                {
                    err = k == K::ConstVariable ? "This variable is read-only" : "This property is read-only";
                    vh::count("read-only");
                }
                else
                {
                    if (hasSetter())
                        wantSets++;
                    if (!hasSetter() || !o->frozen)
                        want = conv.canon;
                    vh::count("sets");
                }
            }
            else
                vh::count("gets");
            check(what.c_str());
            if (err.empty())
                VH_CHECK(r.errors.empty() && r.returnValue && sv(*r.returnValue) == C::text(o->value), "returned", "%s: %s, should return \"%s\"", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(C::text(o->value)).c_str());
            else
                VH_CHECK(!r.returnValue && r.errors.size() == 1 && (sv(r.errors[0]) == err || (lenient && sv(r.errors[0]).substr(0, 19) == "Unable to convert '")), "error", "%s: %s, should report \"%s\"", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(err).c_str());
            VH_CHECK(sv(r.output).empty(), "output", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
        }
    };
    template<typename T>
    Impl<T>* Impl<T>::current = nullptr;
}
using namespace c15;

template<typename T>
static std::unique_ptr<Slot> make(vh::Gen& g)
{
    return std::make_unique<Impl<T>>(g, static_cast<K>(g.below(static_cast<uint64_t>(K::Kinds))));
}
using Maker = std::unique_ptr<Slot> (*)(vh::Gen&);
#ifdef VH_C15_PART2
Maker const c15more[] = {&make<std::string>, &make<std::vector<int>>, &make<std::optional<short>>, &make<std::vector<std::string>>, &make<std::optional<std::vector<double>>>};
Maker c15pick(vh::Gen& g) { return g.pick(c15more); }
#else
Maker c15pick(vh::Gen& g);
static Maker const makers[] = {&make<int>, &make<unsigned char>, &make<long long>, &make<bool>, &make<double>, &make<coil::String>};

void vh_warmup()
{
    vh::Gen g(7);
    for (int i = 0; i < 400; i++)
    {
        auto s = c15pick(g)(g);
        s->name = "x";
        coil::Bindings b;
        s->bind(b);
        s->command(g, b);
    }
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    coil::Bindings b;
    std::vector<std::unique_ptr<Slot>> slots;
    size_t n = 1 + g.below(6);
    for (size_t i = 0; i < n; i++)
    {
        auto s = g.coin() ? g.pick(makers)(g) : c15pick(g)(g);
        s->name = std::string(g.coin() ? "object." : "") + "v" + std::to_string(i);
        s->bind(b);
        slots.push_back(std::move(s));
    }
    size_t steps = 3 + g.below(20);
    for (size_t i = 0; i < steps; i++)
    {
        auto& s = *slots[g.below(n)];
        switch (g.below(8))
        {
        case 0:
            s.direct(g);
            break;
        case 1:
            if (g.coin())
                s.bind(b); // once more
            else
            {
                coil::Bindings other(coil::move(b));
                b = coil::move(other);
            }
            break;
        default:
            s.command(g, b);
        }
        for (auto& t : slots)
            t->check("afterwards");
        vh::count("steps");
    }
}
#endif
