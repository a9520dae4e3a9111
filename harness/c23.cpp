// C23: Optional, Expected and UniquePtr against their abstract states.
#include "elem.h"

namespace c23
{
    using elem::Elem;
    using vh::Tracked;

    struct Base
    {
        Tracked t;
        explicit Base(long v) : t(v) {}
        virtual ~Base() = default;
    };
    struct Derived : Base
    {
        Tracked more;
        explicit Derived(long v) : Base(v), more(v) {}
    };

    // the next copy (or move) throws, now and then
    template<typename F>
    bool guarded(vh::Gen& g, bool allowed, bool moves, F f)
    {
        if (allowed && g.chance(1, 3))
        {
            vh::inst().throwIn = static_cast<long>(g.below(2));
            vh::inst().throwOnMove = moves;
        }
        bool ok = true;
        try
        {
            f();
        }
        catch (vh::Boom const&)
        {
            ok = false;
            vh::count("thrown");
        }
        vh::inst().throwIn = -1;
        vh::inst().throwOnMove = false;
        return ok;
    }

    using Expectation = std::map<long, long>;
    void audit(Expectation const& expected, char const* what)
    {
        for (auto& [id, n] : expected)
            VH_CHECK(vh::inst().holdersOf(id) == n, "instances", "after %s: %ld objects hold %ld instead of %ld", what, vh::inst().holdersOf(id), id, n);
        for (auto& [id, n] : vh::inst().holders)
            VH_CHECK(expected.count(id), "instances", "after %s: %ld objects still hold %ld", what, n, id);
        vh::count("instance-audits");
    }

    template<typename T>
    long multiplicity(long v) { return std::is_same_v<T, coil::Vector<Tracked>> ? v % 4 + 1 : 1; }

    // --- Optional -----------------------------------------------------------------------------
    template<typename T>
    struct RunOptional
    {
        using E = Elem<T>;
        using O = coil::Optional<T>;
        static constexpr bool throwing = std::is_same_v<T, Tracked>;
        struct Slot
        {
            std::unique_ptr<O> o;
            bool has = false;
            long v = 0;
            bool hollow = false; // moved from
            bool dead = false;   // holds a moved-from string, which can only be assigned and destroyed
        };
        vh::Gen& g;
        std::vector<Slot> slots;
        long next = 1;
        char const* what = "";
        uint64_t hist = vh::hashStr(E::name, 5);
        explicit RunOptional(vh::Gen& gen) : g(gen) {}

        void check(Slot& s)
        {
            O& o = *s.o;
            O const& c = o;
            if (s.hollow)
            {
                // it holds its husk, or nothing
                if (c.hasValue())
                {
                    s.has = true;
                    s.dead = std::is_same_v<T, coil::String>;
                    s.v = s.dead ? 0 : E::read(*c);
                }
                else
                    s.has = false;
                s.hollow = false;
            }
            VH_CHECK(c.hasValue() == s.has && static_cast<bool>(c) == s.has, "state", "Optional<%s> after %s: hasValue is %d", E::name, what, !s.has);
            if (s.has && !s.dead)
            {
                VH_CHECK(E::read(*c) == s.v && E::read(*o) == s.v, "value", "Optional<%s> after %s: %ld instead of %ld", E::name, what, E::read(*c), s.v);
                VH_CHECK(&*c == &*o && c.operator->() == &*c && o.operator->() == &*o, "value-address", "operator-> and operator* disagree");
            }
        }
        void add()
        {
            Slot s;
            long v = E::norm(next++);
            switch (g.below(5))
            {
            case 0:
                what = "default construction";
                s.o = std::make_unique<O>();
                break;
            case 1:
                what = "construction from an rvalue";
                s.has = true;
                s.v = v;
                s.o = std::make_unique<O>(E::make(v));
                break;
            case 2:
                if constexpr (E::copyable)
                {
                    what = "construction from an lvalue";
                    s.has = true;
                    s.v = v;
                    T const t = E::make(v);
                    if (!guarded(g, throwing, false, [&] { s.o = std::make_unique<O>(t); }))
                        return;
                    break;
                }
                [[fallthrough]];
            case 3:
                if constexpr (E::copyable)
                    if (!slots.empty())
                    {
                        what = "copy construction";
                        auto& o = slots[g.below(slots.size())];
                        if (o.dead)
                            return;
                        s.has = o.has;
                        s.v = o.v;
                        if (!guarded(g, throwing, false, [&] { s.o = std::make_unique<O>(static_cast<O const&>(*o.o)); }))
                            return;
                        break;
                    }
                [[fallthrough]];
            default:
                if (slots.empty())
                    return add();
                what = "move construction";
                auto& o = slots[g.below(slots.size())];
                if (o.dead)
                    return;
                s.has = o.has;
                s.v = o.v;
                if (!guarded(g, throwing, true, [&] { s.o = std::make_unique<O>(coil::move(*o.o)); }))
                    return;
                o.hollow = true;
            }
            slots.push_back(std::move(s));
        }
        void step()
        {
            if (slots.size() < 2 || (slots.size() < 6 && g.chance(1, 4)))
                return add();
            auto& s = slots[g.below(slots.size())];
            auto& o = slots[g.below(slots.size())];
            if (s.dead)
            {
                what = "assignment to a moved-from one";
                s.dead = false;
                s.has = g.coin();
                s.v = E::norm(next++);
                if (s.has)
                    *s.o = E::make(s.v);
                else
                    *s.o = O();
                return;
            }
            if (o.dead)
                return;
            switch (g.below(9))
            {
            case 0:
            case 1:
                if constexpr (E::copyable)
                {
                    what = &s == &o ? "self-assignment" : "copy assignment";
                    vh::count(&s == &o ? "self-assignments" : "copy-assignments");
                    bool ok = guarded(g, throwing, false, [&] {
                        O& r = (*s.o = static_cast<O const&>(*o.o));
                        VH_CHECK(&r == s.o.get(), "result", "assignment returns something else");
                    });
                    if (ok)
                    {
                        s.has = o.has;
                        s.v = o.v;
                    }
                    break;
                }
                [[fallthrough]];
            case 2:
            case 3:
                if (&s == &o)
                {
                    if (!std::is_same_v<T, Tracked>)
                        break; // what becomes of it depends on the type
                    what = "self-move";
                    O& alias = *s.o;
                    *s.o = coil::move(alias);
                    s.hollow = true;
                    break;
                }
                what = "move assignment";
                if (guarded(g, throwing, true, [&] {
                        O& r = (*s.o = coil::move(*o.o));
                        VH_CHECK(&r == s.o.get(), "result", "assignment returns something else");
                    }))
                {
                    s.has = o.has;
                    s.v = o.v;
                    o.hollow = true;
                }
                vh::count("moves");
                break;
            case 4:
            {
                what = "assignment of a value";
                long v = E::norm(next++);
                *s.o = E::make(v);
                s.has = true;
                s.v = v;
                break;
            }
            case 5:
                what = "emptying";
                *s.o = O();
                s.has = false;
                vh::count("emptied");
                break;
            case 6:
                if (s.has)
                {
                    what = "change of the value";
                    long v = E::norm(next++);
                    **s.o = E::make(v);
                    s.v = v;
                }
                break;
            case 7:
                what = "destruction";
                if (slots.size() > 2)
                    slots.erase(slots.begin() + (&s - slots.data()));
                break;
            default:
                if constexpr (E::comparable)
                {
                    what = "comparison";
                    auto compare = [&](O const& a, O const& b, bool eq) {
                        VH_CHECK((a == b) == eq && (b == a) == eq, "comparison", "Optional<%s>: == is %d", E::name, !eq);
                        VH_CHECK((a != b) == !eq && (b != a) == !eq, "comparison", "Optional<%s>: != is %d", E::name, eq);
                        vh::count(eq ? "equal" : "different");
                    };
                    bool eq = s.has == o.has && (!s.has || s.v == o.v);
                    compare(*s.o, *o.o, eq);
                    if (o.has)
                    {
                        bool same = s.has && s.v == o.v;
                        VH_CHECK((*s.o == **o.o) == same && (*s.o != **o.o) == !same, "comparison", "Optional<%s> with a value: == is %d", E::name, !same);
                    }
                    if constexpr (E::copyable)
                    {
                        O copy = *s.o;
                        compare(copy, *s.o, true);
                    }
                }
            }
        }
        void run()
        {
            size_t n = 10 + g.below(50);
            for (size_t i = 0; i < n; i++)
            {
                step();
                Expectation e;
                for (auto& s : slots)
                {
                    check(s);
                    if (E::tracked && s.has && s.v != -3 && s.v != vh::husk)
                        e[s.v] += multiplicity<T>(s.v);
                    hist = vh::mix(hist ^ static_cast<uint64_t>(s.has ? s.v + 10 : 0));
                }
                audit(e, what);
                vh::observe(hist);
                vh::count("optional-steps");
            }
            slots.clear();
            VH_CHECK(vh::inst().live.empty(), "instances", "Optional<%s>: %zu objects live on", E::name, vh::inst().live.size());
        }
    };

    // --- Expected -----------------------------------------------------------------------------
    template<typename T, typename Err>
    struct RunExpected
    {
        using ET = Elem<T>;
        using EE = Elem<Err>;
        using X = coil::Expected<T, Err>;
        static constexpr bool throwing = std::is_same_v<T, Tracked> || std::is_same_v<Err, Tracked>;
        static constexpr bool copyable = ET::copyable && EE::copyable;
        struct Slot
        {
            std::unique_ptr<X> x;
            bool has = true;
            long v = 0;
            bool hollow = false;
            bool dead = false;
        };
        vh::Gen& g;
        std::vector<Slot> slots;
        long next = 1;
        char const* what = "";
        uint64_t hist = vh::hashStr(ET::name, vh::hashStr(EE::name, 6));
        explicit RunExpected(vh::Gen& gen) : g(gen) {}

        void check(Slot& s)
        {
            X& x = *s.x;
            X const& c = x;
            VH_CHECK(c.hasValue() == s.has && static_cast<bool>(c) == s.has, "state", "Expected<%s, %s> after %s: hasValue is %d", ET::name, EE::name, what, !s.has);
            if (s.hollow)
            {
                s.dead = s.has ? std::is_same_v<T, coil::String> : std::is_same_v<Err, coil::String>;
                s.v = s.dead ? 0 : s.has ? ET::read(c.value()) : EE::read(c.error());
                s.hollow = false;
            }
            if (s.dead)
                return;
            if (s.has)
            {
                VH_CHECK(ET::read(c.value()) == s.v, "value", "Expected<%s, %s> after %s: %ld instead of %ld", ET::name, EE::name, what, ET::read(c.value()), s.v);
                VH_CHECK(&c.value() == &x.value() && &*c == &c.value() && &*x == &x.value() && c.operator->() == &c.value() && x.operator->() == &x.value(), "value-address", "the accessors disagree");
            }
            else
            {
                VH_CHECK(EE::read(c.error()) == s.v, "error", "Expected<%s, %s> after %s: error %ld instead of %ld", ET::name, EE::name, what, EE::read(c.error()), s.v);
                VH_CHECK(&c.error() == &x.error(), "value-address", "the accessors disagree");
            }
        }
        std::unique_ptr<X> make(bool has, long v)
        {
            if (has)
                return std::make_unique<X>(ET::make(v));
            if (g.coin())
                return std::make_unique<X>(coil::Unexpected<Err>(EE::make(v)));
            return std::make_unique<X>(coil::makeUnexpected(EE::make(v)));
        }
        void add()
        {
            Slot s;
            switch (g.below(4))
            {
            case 0:
            case 1:
                s.has = g.coin();
                s.v = next++;
                s.v = s.has ? ET::norm(s.v) : EE::norm(s.v);
                what = s.has ? "construction from a value" : "construction from an error";
                s.x = make(s.has, s.v);
                break;
            case 2:
                if constexpr (copyable)
                    if (!slots.empty())
                    {
                        what = "copy construction";
                        auto& o = slots[g.below(slots.size())];
                        if (o.dead)
                            return;
                        s.has = o.has;
                        s.v = o.v;
                        if (!guarded(g, throwing, false, [&] { s.x = std::make_unique<X>(static_cast<X const&>(*o.x)); }))
                            return;
                        break;
                    }
                [[fallthrough]];
            default:
                if (slots.empty())
                    return add();
                what = "move construction";
                auto& o = slots[g.below(slots.size())];
                if (o.dead)
                    return;
                s.has = o.has;
                s.v = o.v;
                s.x = std::make_unique<X>(coil::move(*o.x));
                o.hollow = true;
            }
            slots.push_back(std::move(s));
        }
        void step()
        {
            if (slots.size() < 2 || (slots.size() < 6 && g.chance(1, 4)))
                return add();
            auto& s = slots[g.below(slots.size())];
            auto& o = slots[g.below(slots.size())];
            if (s.dead)
            {
                what = "assignment to a moved-from one";
                s.dead = false;
                s.has = g.coin();
                s.v = next++;
                s.v = s.has ? ET::norm(s.v) : EE::norm(s.v);
                *s.x = coil::move(*make(s.has, s.v));
                return;
            }
            if (o.dead)
                return;
            switch (g.below(9))
            {
            case 0:
            case 1:
                if constexpr (copyable)
                {
                    what = &s == &o ? "self-assignment" : "copy assignment";
                    vh::count(&s == &o ? "self-assignments" : s.has == o.has ? "copy-assignments" : "copy-assignments-across");
                    // a copy which throws between a value and an error is a known finding, probed separately
                    bool ok = guarded(g, throwing && s.has == o.has, false, [&] {
                        X& r = (*s.x = static_cast<X const&>(*o.x));
                        VH_CHECK(&r == s.x.get(), "result", "assignment returns something else");
                    });
                    if (ok)
                    {
                        s.has = o.has;
                        s.v = o.v;
                    }
                    break;
                }
                [[fallthrough]];
            case 2:
            case 3:
                if (&s == &o)
                    break;
                what = "move assignment";
                vh::count(s.has == o.has ? "moves" : "moves-across");
                {
                    X& r = (*s.x = coil::move(*o.x));
                    VH_CHECK(&r == s.x.get(), "result", "assignment returns something else");
                }
                s.has = o.has;
                s.v = o.v;
                o.hollow = true;
                break;
            case 4:
            {
                s.has = g.coin();
                long v = next++;
                what = s.has ? "assignment of a value" : "assignment of an error";
                s.v = s.has ? ET::norm(v) : EE::norm(v);
                if (s.has)
                    *s.x = ET::make(v);
                else
                    *s.x = coil::makeUnexpected(EE::make(v));
                break;
            }
            case 5:
            {
                what = "change of what it holds";
                long v = next++;
                if (s.has)
                {
                    s.v = ET::norm(v);
                    if (g.coin())
                        s.x->value() = ET::make(v);
                    else
                        **s.x = ET::make(v);
                }
                else
                {
                    s.v = EE::norm(v);
                    s.x->error() = EE::make(v);
                }
                break;
            }
            case 6:
            {
                what = "taking the value out";
                if (s.has)
                {
                    T t = g.coin() ? T(coil::move(*s.x).value()) : T(*coil::move(*s.x));
                    VH_CHECK(ET::read(t) == s.v, "value", "the value taken out is %ld instead of %ld", ET::read(t), s.v);
                }
                else
                {
                    Err t(coil::move(*s.x).error());
                    VH_CHECK(EE::read(t) == s.v, "error", "the error taken out is %ld instead of %ld", EE::read(t), s.v);
                }
                s.hollow = true;
                vh::count("taken-out");
                break;
            }
            case 7:
                what = "destruction";
                if (slots.size() > 2)
                    slots.erase(slots.begin() + (&s - slots.data()));
                break;
            default:
                if constexpr (ET::comparable && EE::comparable)
                {
                    what = "comparison";
                    bool eq = s.has == o.has && s.v == o.v;
                    VH_CHECK((*s.x == *o.x) == eq && (*o.x == *s.x) == eq, "comparison", "Expected<%s, %s>: == is %d", ET::name, EE::name, !eq);
                    vh::count(eq ? "equal" : "different");
                    if (o.has)
                        VH_CHECK((*s.x == o.x->value()) == (s.has && eq), "comparison", "Expected == value is %d", !(s.has && eq));
                    else
                        VH_CHECK((*s.x == coil::Unexpected<Err>(o.x->error())) == (!s.has && eq), "comparison", "Expected == Unexpected is %d", !(!s.has && eq));
                    if constexpr (copyable)
                    {
                        X copy = *s.x;
                        VH_CHECK(copy == *s.x, "comparison", "a copy differs");
                    }
                }
            }
        }
        void run()
        {
            size_t n = 10 + g.below(50);
            for (size_t i = 0; i < n; i++)
            {
                step();
                Expectation e;
                for (auto& s : slots)
                {
                    check(s);
                    if ((s.has ? ET::tracked : EE::tracked) && s.v != -3 && s.v != vh::husk)
                        e[s.v] += s.has ? multiplicity<T>(s.v) : multiplicity<Err>(s.v);
                    hist = vh::mix(hist ^ static_cast<uint64_t>(s.v * 2 + s.has));
                }
                audit(e, what);
                vh::observe(hist);
                vh::count("expected-steps");
            }
            slots.clear();
            VH_CHECK(vh::inst().live.empty(), "instances", "Expected<%s, %s>: %zu objects live on", ET::name, EE::name, vh::inst().live.size());
        }
    };

    struct Said
    {
        std::string text;
        Said(std::string const& s) : text(s) {}
        Said(std::string&& s) : text(std::move(s)) {}
        Said(std::string const&& s) : text(s) {}
    };

    // --- Unexpected ---------------------------------------------------------------------------
    using LX = coil::Expected<long, coil::StringView>;
    void runUnexpected(vh::Gen& g)
    {
        long a = static_cast<long>(1 + g.below(1000));
        std::string text = elem::text(a);
        if (text.find('\0') != std::string::npos)
            text.resize(text.find('\0'));
        // a conversion of the error
        coil::Unexpected<char const*> raw(text.c_str());
        coil::Expected<int, coil::String> x = raw;
        VH_CHECK(!x && sv(x.error()) == text, "unexpected", "an error converted from a C string is <%s>", vh::esc(sv(x.error())).c_str());
        coil::Unexpected<coil::String> str(cs(text));
        coil::Unexpected<coil::String> conv = static_cast<coil::Unexpected<coil::String>>(coil::Unexpected<char const*>(text.c_str()));
        VH_CHECK(str.value() == conv.value(), "unexpected", "a converted Unexpected has another value");
        coil::Unexpected<coil::String> const& cref = str;
        VH_CHECK(sv(cref.value()) == text && &cref.value() == &str.value(), "unexpected", "value()");
        coil::Expected<coil::String, coil::String> y = str; // copied
        VH_CHECK(!y && sv(y.error()) == text && sv(str.value()) == text, "unexpected", "an lvalue Unexpected was not copied");
        VH_CHECK(y == str && y == coil::Unexpected<char const*>(text.c_str()) == true, "unexpected", "comparison with Unexpected");
        coil::Expected<long, coil::StringView> z = coil::makeUnexpected(coil::StringView(text.data(), text.size()));
        VH_CHECK(!z && !(x == LX(5L)) && x == z, "unexpected", "comparison of Expected of different types");
        coil::Expected<int, coil::String> v = static_cast<int>(a);
        VH_CHECK(v && *v == a && v == LX(a) && !(v == x), "unexpected", "comparison of Expected of different types");
        {
            coil::Unexpected<Tracked> t{Tracked(a)};
            coil::Expected<int, Tracked> e = coil::move(t);
            VH_CHECK(!e && e.error().check() == a, "unexpected", "a moved error has another value");
            coil::Unexpected<Tracked> t2{Tracked(a + 1)};
            coil::Unexpected<Tracked> t3 = t2;
            VH_CHECK(t2.value().check() == a + 1 && t3.value().check() == a + 1, "unexpected", "a copied error has another value");
            Tracked out(coil::move(t2).value());
            VH_CHECK(out.check() == a + 1, "unexpected", "an error taken out has another value");
        }
        {
            // conversions to another type, from every kind of expression
            std::string longText = text + "-" + std::string(40 + g.below(60), 'e');
            coil::Unexpected<std::string> src(longText);
            coil::Unexpected<std::string> const& csrc = src;
            auto same = [&](char const* how, std::string_view got) {
                VH_CHECK(got == longText, "unexpected", "an Unexpected converted from %s is <%s>", how, vh::esc(got).c_str());
                VH_CHECK(src.value() == longText, "unexpected", "an Unexpected converted from %s lost its value", how);
            };
            for (int i = 0; i < 4; i++)
            {
                switch (g.below(6))
                {
                case 0:
                {
                    coil::Unexpected<Said> u = src;
                    same("an lvalue", u.value().text);
                    break;
                }
                case 1:
                {
                    coil::Unexpected<Said> u = csrc;
                    same("a const lvalue", u.value().text);
                    break;
                }
                case 2:
                {
                    coil::Expected<int, Said> e = static_cast<coil::Unexpected<Said>>(src);
                    VH_CHECK(!e, "unexpected", "an error is a value");
                    same("an lvalue", e.error().text);
                    break;
                }
                case 3:
                {
                    coil::Expected<Tracked, std::string> e = src;
                    VH_CHECK(!e, "unexpected", "an error is a value");
                    same("an lvalue", e.error());
                    break;
                }
                case 4:
                {
                    coil::Unexpected<std::string> copy = csrc;
                    coil::Unexpected<Said> u = coil::move(copy);
                    same("an rvalue", u.value().text);
                    break;
                }
                default:
                {
                    coil::Unexpected<std::string> const copy = src;
                    coil::Unexpected<Said> u = static_cast<coil::Unexpected<std::string> const&&>(copy);
                    same("a const rvalue", u.value().text);
                    VH_CHECK(copy.value() == longText, "unexpected", "a const Unexpected lost its value");
                }
                }
            }
        }
        VH_CHECK(vh::inst().live.empty(), "instances", "Unexpected: %zu objects live on", vh::inst().live.size());
        vh::count("unexpected");
        vh::observe(vh::hashStr(text, 31));
    }

    // --- UniquePtr ----------------------------------------------------------------------------
    void runPtr(vh::Gen& g)
    {
        using P = coil::UniquePtr<Base>;
        using D = coil::UniquePtr<Derived>;
        std::vector<std::unique_ptr<P>> ps;
        std::vector<std::unique_ptr<D>> ds;
        std::map<Base*, long> alive; // what must not have been destroyed: owned by somebody
        long next = 1;
        uint64_t hist = 8;
        auto owned = [&](char const* what) {
            // each object which is still owned has exactly one owner and is alive; nothing else is
            std::map<Base*, int> owners;
            Expectation e;
            auto see = [&](Base* p, bool viaBool) {
                VH_CHECK((p != nullptr) == viaBool, "pointer-bool", "after %s: operator bool and get() disagree", what);
                if (!p)
                    return;
                VH_CHECK(++owners[p] == 1, "shared", "after %s: two owners share an object", what);
                auto it = alive.find(p);
                VH_CHECK(it != alive.end(), "unknown-object", "after %s: an owner has an object which nobody gave it", what);
                VH_CHECK(p->t.check() == it->second, "value", "after %s: the object is another one", what);
                e[it->second] += dynamic_cast<Derived*>(p) ? 2 : 1;
            };
            for (auto& p : ps)
            {
                see(p->get(), static_cast<bool>(*p));
                P const& c = *p;
                VH_CHECK(c.get() == p->get(), "pointer-get", "the const get() differs");
                if (*p)
                    VH_CHECK(&**p == p->get() && p->operator->() == p->get() && &*c == p->get() && c.operator->() == p->get(), "pointer-get", "the accessors disagree");
            }
            for (auto& d : ds)
                see(d->get(), static_cast<bool>(*d));
            audit(e, what);
            for (auto it = alive.begin(); it != alive.end();)
                it = owners.count(it->first) ? std::next(it) : alive.erase(it);
        };
        size_t n = 10 + g.below(50);
        for (size_t i = 0; i < n; i++)
        {
            char const* what = "";
            switch (ps.size() < 2 || ds.size() < 1 ? g.below(3) : g.below(11))
            {
            case 0:
                what = "construction";
                if (g.coin())
                {
                    auto* raw = g.coin() ? new Base(next) : new Derived(next);
                    ps.push_back(std::make_unique<P>(raw));
                    VH_CHECK(ps.back()->get() == raw, "pointer-get", "the pointer is another one");
                }
                else
                    ps.push_back(std::make_unique<P>(coil::makeUnique<Base>(next)));
                alive[ps.back()->get()] = next++;
                break;
            case 1:
                what = "construction of a derived object";
                ds.push_back(std::make_unique<D>(coil::makeUnique<Derived>(next)));
                alive[ds.back()->get()] = next++;
                break;
            case 2:
                what = "construction of an empty one";
                ps.push_back(g.coin() ? std::make_unique<P>() : std::make_unique<P>(nullptr));
                VH_CHECK(!ps.back()->get(), "pointer-get", "an empty pointer has an object");
                break;
            case 3:
            {
                what = "conversion";
                auto& d = *ds[g.below(ds.size())];
                Base* raw = d.get();
                ps.push_back(std::make_unique<P>(coil::move(d)));
                VH_CHECK(ps.back()->get() == raw && !d.get(), "conversion", "the converted pointer owns %p instead of %p, the old one %p", static_cast<void*>(ps.back()->get()), static_cast<void*>(raw), static_cast<void*>(d.get()));
                vh::count("conversions");
                break;
            }
            case 4:
            {
                what = "move construction";
                auto& p = *ps[g.below(ps.size())];
                Base* raw = p.get();
                ps.push_back(std::make_unique<P>(coil::move(p)));
                VH_CHECK(ps.back()->get() == raw && !p.get(), "move", "the new pointer owns %p instead of %p, the old one %p", static_cast<void*>(ps.back()->get()), static_cast<void*>(raw), static_cast<void*>(p.get()));
                vh::count("pointer-moves");
                break;
            }
            case 5:
            case 6:
            case 7:
            {
                auto& a = *ps[g.below(ps.size())];
                auto& b = *ps[g.below(ps.size())];
                what = &a == &b ? "self-move" : "move assignment";
                Base* raw = b.get();
                P& r = (a = coil::move(b));
                VH_CHECK(&r == &a, "result", "assignment returns something else");
                if (&a != &b)
                    VH_CHECK(a.get() == raw, "move", "after an assignment it owns %p instead of %p", static_cast<void*>(a.get()), static_cast<void*>(raw));
                vh::count("pointer-moves");
                break;
            }
            case 8:
                what = "destruction";
                ps.erase(ps.begin() + static_cast<long>(g.below(ps.size())));
                vh::count("pointers-destroyed");
                break;
            case 9:
                what = "destruction of a derived one";
                ds.erase(ds.begin() + static_cast<long>(g.below(ds.size())));
                break;
            default:
                what = "assignment of an empty one";
                {
                    auto& p = *ps[g.below(ps.size())];
                    p = P();
                    VH_CHECK(!p.get(), "move", "after assigning nothing it owns something");
                }
            }
            owned(what);
            for (auto& p : ps)
                hist = vh::mix(hist ^ static_cast<uint64_t>(p->get() ? alive[p->get()] : 0));
            vh::observe(hist);
            vh::count("pointer-steps");
        }
        ps.clear();
        ds.clear();
        VH_CHECK(vh::inst().live.empty(), "instances", "UniquePtr: %zu objects live on", vh::inst().live.size());
    }

    // every pair of states, every way to copy and move between them, every copy throwing
    template<typename T, typename Err>
    void expectedPairs()
    {
        using X = coil::Expected<T, Err>;
        using ET = Elem<T>;
        using EE = Elem<Err>;
        for (int from = 0; from < 2; from++)
            for (int to = 0; to < 2; to++)
                for (int how = 0; how < 2; how++)
                    for (int fault = -1; fault < 2; fault++)
                    {
                        if (fault >= 0 && (how == 1 || from != to))
                            continue;
                        {
                            X a = from ? X(ET::make(1)) : X(coil::makeUnexpected(EE::make(1)));
                            X b = to ? X(ET::make(2)) : X(coil::makeUnexpected(EE::make(2)));
                            bool thrown = false;
                            vh::inst().throwIn = fault;
                            try
                            {
                                if (how == 0)
                                    a = static_cast<X const&>(b);
                                else
                                    a = coil::move(b);
                            }
                            catch (vh::Boom const&)
                            {
                                thrown = true;
                            }
                            vh::inst().throwIn = -1;
                            bool has = thrown ? from : to;
                            long v = thrown ? 1 : 2;
                            VH_CHECK(a.hasValue() == has && (has ? ET::read(*a) : EE::read(a.error())) == v, "pairs", "Expected %d <- %d (%s, fault %d): wrong state", from, to, how ? "move" : "copy", fault);
                            VH_CHECK(b.hasValue() == static_cast<bool>(to), "pairs", "Expected: the source changed its state");
                            if (how == 0)
                                VH_CHECK((to ? ET::read(*b) : EE::read(b.error())) == 2, "pairs", "Expected: the source changed");
                        }
                        VH_CHECK(vh::inst().live.empty(), "instances", "Expected %d <- %d (%s, fault %d): %zu objects live on", from, to, how ? "move" : "copy", fault, vh::inst().live.size());
                        vh::count("pairs");
                        vh::st().evaluations++;
                        vh::observe(vh::hashStr(std::string(ET::name) + EE::name + char(from * 2 + to) + char(how) + char(fault + 1)));
                    }
    }

    // the known finding, in storage which is not destroyed
    void probe(int from)
    {
        using X = coil::Expected<Tracked, Tracked>;
        {
            vh::inst().reset();
            alignas(X) static unsigned char storage[sizeof(X)];
            X* a = from ? new (storage) X(Tracked(1)) : new (storage) X(coil::makeUnexpected(Tracked(1)));
            X b = from ? X(coil::makeUnexpected(Tracked(2))) : X(Tracked(2));
            bool thrown = false;
            vh::inst().throwIn = 0;
            try
            {
                *a = static_cast<X const&>(b);
            }
            catch (vh::Boom const&)
            {
                thrown = true;
            }
            vh::inst().throwIn = -1;
            vh::st().evaluations++;
            VH_CHECK(thrown, "probe-not-thrown", "the copy did not throw");
            VH_CHECK(b.hasValue() == !from && (from ? b.error() : *b).check() == 2, "expected-copy-throw-source", "the source changed");
            Tracked* held = a->hasValue() ? &a->value() : &a->error();
            bool live = vh::inst().live.count(held) != 0;
            long old = vh::inst().holdersOf(1);
            if (!live && old == 0)
                vh::violation("expected-copy-throw", "Expected: a copy assignment %s, which throws, leaves a holder claiming an object that does not exist", from ? "value <- error" : "error <- value");
            VH_CHECK(live && old <= 1, "expected-copy-throw-other", "Expected: after a copy assignment which threw: held object %s, %ld old ones", live ? "lives" : "is dead", old);
            a->~X();
            VH_CHECK(vh::inst().holdersOf(1) == 0 && vh::inst().holdersOf(2) == 1, "expected-copy-throw-other", "Expected: after a copy assignment which threw, objects leak");
        }
    }
}
using namespace c23;

void vh_warmup() {}
bool vh_mode(std::string const& mode, uint64_t begin, uint64_t)
{
    if (mode == "pairs")
    {
        expectedPairs<Tracked, Tracked>();
        expectedPairs<Tracked, coil::String>();
        expectedPairs<coil::String, Tracked>();
        expectedPairs<coil::String, coil::String>();
        expectedPairs<int, Tracked>();
        expectedPairs<Tracked, int>();
        return true;
    }
    if (mode == "probe")
    {
        probe(static_cast<int>(begin & 1));
        return true;
    }
    return false;
}
void vh_case(vh::Gen& g)
{
    vh::inst().reset();
    switch (g.below(20))
    {
    case 16:
        return RunOptional<elem::Pinned>(g).run();
    case 17:
        return RunOptional<elem::CopyOnly>(g).run();
    case 18:
        return RunExpected<elem::Pinned, elem::CopyOnly>(g).run();
    case 19:
        return RunExpected<elem::CopyOnly, elem::Odd>(g).run();
    case 0:
    case 1:
        return RunOptional<Tracked>(g).run();
    case 2:
        return RunOptional<coil::String>(g).run();
    case 3:
        return RunOptional<coil::UniquePtr<Tracked>>(g).run();
    case 4:
        return RunOptional<int>(g).run();
    case 5:
        return RunOptional<coil::Vector<Tracked>>(g).run();
    case 6:
    case 7:
        return RunExpected<Tracked, Tracked>(g).run();
    case 8:
        return RunExpected<coil::String, coil::String>(g).run();
    case 9:
        return RunExpected<Tracked, coil::String>(g).run();
    case 10:
        return RunExpected<int, Tracked>(g).run();
    case 11:
        return RunExpected<coil::UniquePtr<Tracked>, coil::String>(g).run();
    case 12:
        return RunExpected<coil::Vector<Tracked>, int>(g).run();
    case 13:
        return runUnexpected(g);
    default:
        return runPtr(g);
    }
}
