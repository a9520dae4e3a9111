// C20: Vector and Buffer against abstract sequences.
#include "elem.h"

namespace c20
{
    using namespace elem;

    template<typename T>
    struct Run
    {
        using E = Elem<T>;
        using V = coil::Vector<T>;
        using Model = std::vector<long>;

        struct Slot
        {
            std::unique_ptr<V> v;
            Model m;
            bool hollow = false; // moved from: any elements, in a valid state
        };

        vh::Gen& g;
        std::vector<Slot> slots;
        long next = 1;
        std::string what;
        uint64_t hist = vh::hashStr(E::name);

        explicit Run(vh::Gen& gen) : g(gen) {}

        long fresh() { return E::norm(next++); }

        void check(Slot& s)
        {
            V& v = *s.v;
            V const& c = v;
            if (s.hollow)
            {
                // whatever it holds, it is consistent: read it
                s.m.clear();
                for (size_t i = 0; i < c.size(); i++)
                    s.m.push_back(E::read(c[i]));
                s.hollow = false;
            }
            auto const& m = s.m;
            VH_CHECK(v.size() == m.size() && c.size() == m.size(), "size", "after %s: %zu elements instead of %zu", what.c_str(), v.size(), m.size());
            VH_CHECK(v.empty() == m.empty(), "empty", "after %s: empty() is %d with %zu elements", what.c_str(), v.empty(), m.size());
            VH_CHECK(v.capacity() >= m.size(), "capacity", "after %s: capacity %zu with %zu elements", what.c_str(), v.capacity(), m.size());
            if (std::is_empty_v<T>)
                return;
            for (size_t i = 0; i < m.size(); i++)
            {
                VH_CHECK(E::read(c[i]) == m[i], "element", "%s after %s: element %zu of %zu is %ld instead of %ld", E::name, what.c_str(), i, m.size(), E::read(c[i]), m[i]);
                VH_CHECK(&v[i] == &c[i] && v.data() + i == &c[i] && c.data() + i == &c[i], "address", "after %s: data() and operator[] disagree", what.c_str());
            }
            size_t n = 0;
            for (auto it = v.begin(); it != v.end(); ++it, n++)
                VH_CHECK(n < m.size() && E::read(*it) == m[n], "iteration", "after %s: iteration differs at %zu", what.c_str(), n);
            VH_CHECK(n == m.size(), "iteration", "after %s: iteration ends after %zu of %zu", what.c_str(), n, m.size());
            VH_CHECK(static_cast<size_t>(c.end() - c.begin()) == m.size(), "iteration", "after %s: the const range has another length", what.c_str());
            if (!m.empty())
            {
                VH_CHECK(E::read(c.front()) == m.front() && &v.front() == &c.front(), "front", "after %s: wrong first element", what.c_str());
                VH_CHECK(E::read(c.back()) == m.back() && &v.back() == &c.back(), "back", "after %s: wrong last element", what.c_str());
            }
            vh::count("elements-compared", m.size());
        }
        void checkAll()
        {
            for (auto& s : slots)
                check(s);
            if (E::tracked)
                audit();
        }
        // exactly the elements of the vectors live
        void audit()
        {
            std::map<long, long> expected;
            for (auto& s : slots)
                for (long id : s.m)
                    if (id != -3 && id != vh::husk)
                        expected[id] += multiplicity(id);
            for (auto& [id, n] : expected)
                VH_CHECK(vh::inst().holdersOf(id) == n, "instances", "%s after %s: %ld objects hold value %ld instead of %ld", E::name, what.c_str(), vh::inst().holdersOf(id), id, n);
            for (auto& [id, n] : vh::inst().holders)
                VH_CHECK(expected.count(id), "instances", "%s after %s: %ld objects still hold value %ld, which no vector contains", E::name, what.c_str(), n, id);
            vh::count("instance-audits");
        }
        static long multiplicity(long id) { return mult(static_cast<T*>(nullptr), id); }
        template<typename U>
        static long mult(coil::Vector<U>*, long id) { return id % 4 + 1; }
        template<typename U>
        static long mult(U*, long) { return 1; }

        size_t amount() { return g.chance(1, 12) ? g.logsize(400) : g.logsize(20); }

        void addSlot()
        {
            Slot s;
            switch (g.below(3))
            {
            case 0:
                what = "construction";
                s.v = std::make_unique<V>();
                break;
            case 1:
            {
                size_t n = amount();
                what = "construction with a capacity";
                s.v = std::make_unique<V>(n);
                VH_CHECK(s.v->capacity() >= n, "capacity", "constructed with capacity %zu, got %zu", n, s.v->capacity());
                break;
            }
            default:
                if constexpr (E::copyable)
                {
                    if (!slots.empty() && g.coin())
                    {
                        auto& o = slots[g.below(slots.size())];
                        size_t a = g.below(o.m.size() + 1), b = a + g.below(o.m.size() - a + 1);
                        what = "range construction";
                        auto const* d = o.v->begin();
                        s.m.assign(o.m.begin() + static_cast<long>(a), o.m.begin() + static_cast<long>(b));
                        arm(b - a);
                        if (!guarded([&] { s.v = std::make_unique<V>(d + a, d + b); }))
                            return;
                    }
                    else if (!slots.empty())
                    {
                        auto& o = slots[g.below(slots.size())];
                        what = "copy construction";
                        s.m = o.m;
                        arm(s.m.size());
                        if (!guarded([&] { s.v = std::make_unique<V>(static_cast<V const&>(*o.v)); }))
                            return;
                        vh::count("copies");
                    }
                    else
                        s.v = std::make_unique<V>();
                }
                else
                    s.v = std::make_unique<V>();
            }
            slots.push_back(std::move(s));
        }

        // a copy of an element throws, now and then
        void arm(size_t n)
        {
            if (std::is_same_v<T, vh::Tracked> && n && g.chance(1, 5))
                vh::inst().throwIn = static_cast<long>(g.below(n));
        }
        template<typename F>
        bool guarded(F f)
        {
            bool ok = true;
            try
            {
                f();
            }
            catch (vh::Boom const&)
            {
                ok = false;
                what += " (which threw)";
                vh::count("copies-thrown");
            }
            vh::inst().throwIn = -1;
            return ok;
        }

        void step()
        {
            if (slots.size() < 2 || (slots.size() < 5 && g.chance(1, 10)))
                return addSlot();
            auto& s = slots[g.below(slots.size())];
            V& v = *s.v;
            auto& m = s.m;
            switch (g.below(16))
            {
            case 0:
            case 1:
            case 2:
            {
                size_t n = g.chance(1, 6) ? amount() : 1;
                what = "pushBack";
                for (size_t i = 0; i < n; i++)
                {
                    long id = fresh();
                    v.pushBack(E::make(id));
                    m.push_back(E::norm(id));
                }
                break;
            }
            case 3:
                if (m.empty())
                    break;
                if constexpr (E::copyable)
                {
                    size_t i = g.below(m.size());
                    what = "pushBack of an own element";
                    long id = m[i];
                    arm(1);
                    if (guarded([&] { v.pushBack(v[i]); }))
                        m.push_back(id);
                    vh::count("self-pushes");
                }
                break;
            case 4:
                what = "popBack";
                for (size_t n = g.chance(1, 6) ? g.below(m.size() + 1) : 1; n && !m.empty(); n--)
                {
                    v.popBack();
                    m.pop_back();
                }
                break;
            case 5:
            {
                size_t n = g.coin() ? g.below(m.size() + 1) : amount();
                what = "resize(" + std::to_string(n) + ")";
                v.resize(n);
                m.resize(n, E::def());
                vh::count("resizes");
                break;
            }
            case 6:
            {
                size_t n = g.coin() ? g.below(m.size() + 1) : amount();
                what = "reserve(" + std::to_string(n) + ")";
                v.reserve(n);
                VH_CHECK(v.capacity() >= n, "capacity", "reserve(%zu) gives capacity %zu", n, v.capacity());
                break;
            }
            case 7:
                what = "clear";
                if (!g.chance(1, 3))
                    break;
                v.clear();
                m.clear();
                break;
            case 8:
                if (m.empty())
                    break;
                {
                    long id = fresh();
                    size_t i = g.below(m.size());
                    what = "assignment of an element";
                    auto made = E::make(id);
                    switch (g.below(3))
                    {
                    case 0:
                        v[i] = coil::move(made);
                        m[i] = E::norm(id);
                        break;
                    case 1:
                        v.back() = coil::move(made);
                        m.back() = E::norm(id);
                        break;
                    default:
                        *v.begin() = coil::move(made);
                        m.front() = E::norm(id);
                    }
                }
                break;
            case 9:
            case 10:
                if constexpr (E::copyable)
                {
                    auto& o = slots[g.below(slots.size())];
                    what = &o == &s ? "self-assignment" : "copy assignment";
                    vh::count(&o == &s ? "self-assignments" : "copy-assignments");
                    Model copy = o.m;
                    arm(copy.size());
                    if (guarded([&] {
                            V& r = (v = static_cast<V const&>(*o.v));
                            VH_CHECK(&r == &v, "assignment-result", "assignment returns something else");
                        }))
                        m = copy;
                }
                break;
            case 11:
            {
                auto& o = slots[g.below(slots.size())];
                if (&o == &s)
                {
                    // it may lose its elements, but stays usable
                    what = "self-move";
                    V& alias = v;
                    v = coil::move(alias);
                    s.hollow = true;
                }
                else
                {
                    what = "move assignment";
                    Model moved = o.m;
                    V& r = (v = coil::move(*o.v));
                    VH_CHECK(&r == &v, "assignment-result", "assignment returns something else");
                    m = moved;
                    o.hollow = true;
                }
                vh::count("moves");
                break;
            }
            case 12:
            {
                what = "move construction";
                Slot n;
                n.m = m;
                n.v = std::make_unique<V>(coil::move(v));
                s.hollow = true;
                if (g.coin())
                    check(s); // the old one lives on
                if (s.hollow || slots.size() >= 5)
                    s = std::move(n);
                else
                    slots.push_back(std::move(n));
                vh::count("moves");
                break;
            }
            case 13:
                what = "destruction";
                if (slots.size() > 2)
                    slots.erase(slots.begin() + (&s - slots.data()));
                break;
            default:
                if constexpr (E::comparable)
                {
                    auto& o = slots[g.below(slots.size())];
                    what = "comparison";
                    VH_CHECK((v == *o.v) == (m == o.m), "comparison", "%s: operator== of %zu and %zu elements is %d", E::name, m.size(), o.m.size(), v == *o.v);
                    vh::count(m == o.m ? "equal" : "different");
                    if constexpr (E::copyable)
                    {
                        // nearly equal ones
                        if (m.empty() || std::is_empty_v<T>)
                            break;
                        V t = v;
                        Model tm = m;
                        VH_CHECK(t == v && v == t, "comparison", "a copy of %zu elements differs", m.size());
                        size_t i = g.below(m.size());
                        long id = fresh();
                        if (g.coin())
                        {
                            t[i] = E::make(id);
                            tm[i] = E::norm(id);
                        }
                        else
                        {
                            t.popBack();
                            tm.pop_back();
                        }
                        VH_CHECK((t == v) == (tm == m) && (v == t) == (tm == m), "comparison", "%s: a change at %zu of %zu elements goes unnoticed (or not)", E::name, i, m.size());
                    }
                }
            }
        }

        void run()
        {
            size_t n = 10 + g.below(50);
            for (size_t i = 0; i < n; i++)
            {
                step();
                checkAll();
                for (auto& s : slots)
                    hist = vh::hashBytes(s.m.data(), s.m.size() * sizeof(long), hist);
                vh::observe(hist);
                vh::count("steps");
            }
            slots.clear();
            VH_CHECK(vh::inst().live.empty(), "instances", "%s: %zu objects live on after their vectors", E::name, vh::inst().live.size());
        }
    };

    // --- the raw buffer -----------------------------------------------------------------------
    struct BufferSlot
    {
        std::unique_ptr<coil::Buffer> b;
        std::string m; // capacity * chunk bytes
        size_t size = 0, chunk = 1, capacity = 0;
        bool hollow = false;
    };

    void checkBuffer(BufferSlot& s, char const* what)
    {
        if (s.hollow)
            return;
        auto& b = *s.b;
        auto const& c = b;
        VH_CHECK(b.size() == s.size, "buffer-size", "after %s: size %zu instead of %zu", what, b.size(), s.size);
        VH_CHECK(b.capacity() == s.capacity && b.capacityBytes() == s.capacity * s.chunk, "buffer-capacity", "after %s: capacity %zu (%zu bytes) instead of %zu * %zu", what, b.capacity(), b.capacityBytes(), s.capacity, s.chunk);
        VH_CHECK(b.data() == c.data(), "buffer-data", "after %s: data() differ", what);
        // a copy need not keep what lies behind the size
        size_t bytes = s.size * s.chunk;
        VH_CHECK(bytes == 0 || memcmp(b.data(), s.m.data(), bytes) == 0, "buffer-bytes", "after %s: the bytes differ", what);
        for (size_t i = 0; i < bytes; i += 1 + i / 3)
            VH_CHECK(b.get(i) == b.data() + i && c.get(i) == c.data() + i, "buffer-get", "get(%zu) is not at offset %zu", i, i);
        if (s.chunk == sizeof(int))
            for (size_t i = 0; i < s.size; i++)
                VH_CHECK(static_cast<void*>(b.get<int>(i)) == b.data() + i * sizeof(int) && static_cast<void const*>(c.get<int>(i)) == b.data() + i * sizeof(int), "buffer-get", "get<int>(%zu)", i);
        vh::count("buffer-checks");
    }

    void runBuffer(vh::Gen& g)
    {
        std::vector<BufferSlot> slots;
        auto randomize = [&](BufferSlot& s) {
            s.m.resize(s.capacity * s.chunk);
            for (char& c : s.m)
                c = static_cast<char>(g.u64());
            if (!s.m.empty())
            {
                if (g.coin())
                    s.b->copy(s.m.data(), s.m.size());
                else
                    memcpy(s.b->data(), s.m.data(), s.m.size());
            }
            else if (g.coin())
                s.b->copy(nullptr, 0);
        };
        size_t n = 10 + g.below(40);
        uint64_t h = 77;
        for (size_t i = 0; i < n; i++)
        {
            char const* what = "nothing";
            if (slots.size() < 3)
            {
                BufferSlot s;
                s.capacity = g.logsize(300);
                s.chunk = g.coin() ? 1 : g.coin() ? sizeof(int) : 1 + g.below(20);
                what = "construction";
                if (s.chunk == 1 && g.coin())
                    s.b = std::make_unique<coil::Buffer>(s.capacity);
                else
                    s.b = std::make_unique<coil::Buffer>(s.capacity, s.chunk);
                randomize(s);
                slots.push_back(std::move(s));
            }
            auto& s = slots[g.below(slots.size())];
            auto& o = slots[g.below(slots.size())];
            auto fix = [&](BufferSlot& d, BufferSlot const& from) {
                // the bytes behind the size of a copy are not specified
                d.m = from.m;
                d.size = from.size;
                d.chunk = from.chunk;
                d.capacity = from.capacity;
            };
            switch (g.below(8))
            {
            case 0:
                if (s.hollow)
                    break;
                what = "writing";
                randomize(s);
                break;
            case 1:
            case 2:
                if (s.hollow)
                    break;
                what = "resize";
                {
                    size_t to = g.below(s.capacity + 1);
                    s.b->resize(to);
                    if (to > s.size)
                        for (size_t k = s.size * s.chunk; k < to * s.chunk; k++)
                            s.b->data()[k] = s.m[k] = static_cast<char>(k);
                    s.size = to;
                }
                break;
            case 3:
                if (o.hollow)
                    break;
                what = &o == &s ? "self-assignment" : "copy assignment";
                *s.b = static_cast<coil::Buffer const&>(*o.b);
                if (&o != &s)
                    fix(s, o);
                s.hollow = false;
                vh::count("buffer-copies");
                break;
            case 4:
                if (o.hollow)
                    break;
                what = "copy construction";
                {
                    auto c = std::make_unique<coil::Buffer>(static_cast<coil::Buffer const&>(*o.b));
                    VH_CHECK(c->capacityBytes() == 0 || c->data() != o.b->data(), "buffer-shared", "a copy shares its memory");
                    s.b = std::move(c);
                    if (&o != &s)
                        fix(s, o);
                    s.hollow = false;
                }
                break;
            case 5:
                if (o.hollow || &o == &s)
                    break;
                what = "move assignment";
                *s.b = coil::move(*o.b);
                fix(s, o);
                s.hollow = false;
                o.hollow = true;
                vh::count("buffer-moves");
                break;
            case 6:
                if (o.hollow)
                    break;
                what = "move construction";
                {
                    auto c = std::make_unique<coil::Buffer>(coil::move(*o.b));
                    fix(s, o);
                    o.hollow = true;
                    s.hollow = false;
                    s.b = std::move(c);
                }
                break;
            default:
                if (s.hollow || s.chunk != sizeof(int) || s.capacity == 0)
                    break;
                what = "construct and destroy elements";
                s.b->resize(0);
                s.size = 0;
                while (s.b->size() < s.capacity)
                {
                    int v = static_cast<int>(g.u64());
                    int* p = s.b->constructNext<int>(v);
                    VH_CHECK(static_cast<void*>(p) == s.b->data() + s.size * sizeof(int) && *p == v, "buffer-construct", "constructed at another place");
                    memcpy(&s.m[s.size * sizeof(int)], &v, sizeof v);
                    s.size++;
                    checkBuffer(s, what);
                }
                while (s.b->size() > 0)
                {
                    s.b->destructLast<int>();
                    s.size--;
                    checkBuffer(s, what);
                }
                break;
            }
            for (auto& t : slots)
                checkBuffer(t, what);
            for (auto& t : slots)
                if (!t.hollow)
                    h = vh::hashBytes(t.m.data(), t.size * t.chunk, h);
            vh::observe(h);
        }
    }
    // every sequence of up to 5 operations out of 12 on two vectors
    template<typename T>
    void enumerate(uint64_t from, uint64_t to)
    {
        using E = Elem<T>;
        using V = coil::Vector<T>;
        constexpr unsigned ops = 12, depth = 5;
        uint64_t total = 1;
        for (unsigned i = 0; i < depth; i++)
            total *= ops;
        for (uint64_t code = total * from / 16; code < total * to / 16; code++)
        {
            {
                V v, w;
                std::vector<long> m, n;
                long next = 1;
                uint64_t c = code;
                for (unsigned i = 0; i < depth; i++, c /= ops)
                {
                    switch (c % ops)
                    {
                    case 0:
                    case 1:
                        v.pushBack(E::make(next));
                        m.push_back(next++);
                        if (c % ops == 0)
                            break;
                        v.pushBack(E::make(next));
                        m.push_back(next++);
                        break;
                    case 2:
                        if (!m.empty())
                        {
                            v.popBack();
                            m.pop_back();
                        }
                        break;
                    case 3:
                        v.resize(1);
                        m.resize(1, E::def());
                        break;
                    case 4:
                        v.resize(4);
                        m.resize(4, E::def());
                        break;
                    case 5:
                        v.reserve(3);
                        break;
                    case 6:
                        v.clear();
                        m.clear();
                        break;
                    case 7:
                        w = v;
                        n = m;
                        break;
                    case 8:
                        v = w;
                        m = n;
                        break;
                    case 9:
                    {
                        V t(coil::move(v));
                        v = coil::move(w);
                        w = coil::move(t);
                        m.swap(n);
                        break;
                    }
                    case 10:
                        v = v;
                        break;
                    default:
                        if (!m.empty())
                        {
                            v.pushBack(v[0]);
                            m.push_back(m[0]);
                        }
                    }
                    bool good = v.size() == m.size() && w.size() == n.size() && (v == w) == (m == n);
                    for (size_t k = 0; good && k < m.size(); k++)
                        good = E::read(v[k]) == m[k];
                    for (size_t k = 0; good && k < n.size(); k++)
                        good = E::read(w[k]) == n[k];
                    VH_CHECK(good, "enumerated", "%s: operations %llu (base %u, first %u)", E::name, static_cast<unsigned long long>(code), ops, i + 1);
                }
            }
            VH_CHECK(vh::inst().live.empty(), "instances", "%s: operations %llu leave %zu objects", E::name, static_cast<unsigned long long>(code), vh::inst().live.size());
            vh::st().evaluations++;
            vh::count("enumerated");
            vh::observe(vh::mix(code * 7 + sizeof(T)));
        }
    }
}
using namespace c20;

void vh_warmup() {}
bool vh_mode(std::string const& mode, uint64_t from, uint64_t to)
{
    if (mode != "enum")
        return false;
    auto mark = vh::mark();
    enumerate<vh::Tracked>(from, to);
    enumerate<coil::String>(from, to);
    enumerate<int>(from, to);
    VH_CHECK(vh::mark().blocks <= mark.blocks + 64, "leak", "blocks are leaked");
    return true;
}

void vh_case(vh::Gen& g)
{
    vh::inst().reset();
    switch (g.below(17))
    {
    case 0:
        return Run<int>(g).run();
    case 1:
        return Run<char>(g).run();
    case 2:
        return Run<bool>(g).run();
    case 3:
        return Run<elem::Big>(g).run();
    case 4:
        return Run<elem::Empty>(g).run();
    case 5:
        return Run<coil::String>(g).run();
    case 6:
        return Run<std::string>(g).run();
    case 7:
    case 8:
        return Run<vh::Tracked>(g).run();
    case 9:
        return Run<coil::UniquePtr<vh::Tracked>>(g).run();
    case 10:
        return Run<std::unique_ptr<vh::Tracked>>(g).run();
    case 14:
        return Run<elem::Pinned>(g).run();
    case 15:
        return Run<elem::CopyOnly>(g).run();
    case 16:
        return Run<elem::Odd>(g).run();
    case 11:
        return g.coin() ? Run<coil::Vector<coil::String>>(g).run() : Run<coil::Vector<int>>(g).run();
    case 12:
        return Run<coil::Vector<vh::Tracked>>(g).run();
    default:
        return runBuffer(g);
    }
}
