// C22: UnorderedMap against an abstract map, for hash functions chosen at run time.
#include "elem.h"

#include <algorithm>

namespace c22
{
    struct HashFn
    {
        int kind = 0;
        uint64_t a = 1, b = 0;
        size_t operator()(long id) const
        {
            auto u = static_cast<uint64_t>(id);
            switch (kind)
            {
            case 0:
                return 0;
            case 1:
                return u;
            case 2:
                return u % (2 + a % 5);
            case 3:
                return u << (a % 40);
            case 4:
                return vh::mix(u ^ a);
            case 5:
                return ~u;
            case 6:
                return u / (2 + a % 8);
            default:
                return (a >> ((u % 16) * 4)) & 15; // any assignment
            }
        }
    };
    HashFn fn;

    struct Key
    {
        long id;
        vh::Tracked t;
        explicit Key(long i) : id(i), t(i + 1000000) {}
        Key() : Key(0) {}
    };
    struct Probe // found without making a key
    {
        long id;
    };
    bool operator==(Key const& a, Key const& b)
    {
        return a.t.check() == b.t.check() && a.id == b.id;
    }
    bool operator==(Key const& a, Probe const& b)
    {
        a.t.check();
        return a.id == b.id;
    }
}
namespace coil
{
    template<>
    struct Hash<c22::Key>
    {
        size_t operator()(c22::Key const& k)
        {
            k.t.check();
            return c22::fn(k.id);
        }
    };
    template<>
    struct Hash<c22::Probe>
    {
        size_t operator()(c22::Probe const& k) { return c22::fn(k.id); }
    };
    template<>
    struct Hash<long>
    {
        size_t operator()(long const& k) { return c22::fn(k); }
    };
}
namespace c22
{
    using elem::Elem;

    template<typename K>
    struct KeyOps;
    template<>
    struct KeyOps<Key>
    {
        static Key make(long id) { return Key(id); }
        static long read(Key const& k)
        {
            VH_CHECK(k.t.check() == k.id + 1000000, "key", "a key was changed");
            return k.id;
        }
        static constexpr bool tracked = true;
        template<typename M, typename F>
        static void lookup(vh::Gen& g, M& m, long id, F f)
        {
            if (g.coin())
                f(m, Probe{id});
            else
                f(m, Key(id));
        }
    };
    template<>
    struct KeyOps<long>
    {
        static long make(long id) { return id; }
        static long read(long k) { return k; }
        static constexpr bool tracked = false;
        template<typename M, typename F>
        static void lookup(vh::Gen&, M& m, long id, F f) { f(m, id); }
    };
    template<>
    struct KeyOps<coil::String>
    {
        static coil::String make(long id) { return cs(elem::text(id)); }
        static long read(coil::String const& k) { return elem::textRead(ss(k)); }
        static constexpr bool tracked = false;
        template<typename M, typename F>
        static void lookup(vh::Gen& g, M& m, long id, F f)
        {
            if (g.coin())
            {
                ref::Exact e(elem::text(id));
                f(m, cv(e));
            }
            else
                f(m, make(id));
        }
    };

    template<typename K, typename V>
    struct Run
    {
        using Map = coil::UnorderedMap<K, V>;
        using KO = KeyOps<K>;
        using VO = Elem<V>;
        using Model = std::map<long, long>;
        struct Slot
        {
            std::unique_ptr<Map> map;
            Model m;
            bool hollow = false;
        };
        vh::Gen& g;
        std::vector<Slot> slots;
        long next = 1;
        long space;
        char const* what = "";
        uint64_t hist = 22;

        explicit Run(vh::Gen& gen) : g(gen)
        {
            fn.kind = static_cast<int>(g.below(8));
            fn.a = g.u64();
            space = static_cast<long>(2 + g.logsize(g.chance(1, 10) ? 300 : 30));
        }
        std::string conf() { return vh::fmt("after %s (hash %d/%llx, %ld keys)", what, fn.kind, static_cast<unsigned long long>(fn.a), space); }

        void check(Slot& s)
        {
            if (s.hollow)
                return;
            Map& map = *s.map;
            Map const& c = map;
            auto const& m = s.m;
            VH_CHECK(c.size() == m.size(), "size", "%s: size %zu instead of %zu", conf().c_str(), c.size(), m.size());
            auto iterate = [&](auto& x) {
                std::set<long> seen;
                size_t n = 0;
                for (auto it = x.begin(); it != x.end(); ++it)
                {
                    VH_CHECK(++n <= m.size(), "iteration", "%s: iteration visits more than %zu entries", conf().c_str(), m.size());
                    long id = KO::read(it->key());
                    auto want = m.find(id);
                    VH_CHECK(want != m.end(), "iteration", "%s: iteration visits key %ld, which is not in the map", conf().c_str(), id);
                    VH_CHECK(seen.insert(id).second, "iteration", "%s: iteration visits key %ld twice", conf().c_str(), id);
                    VH_CHECK(VO::read((*it).value()) == want->second, "iteration", "%s: key %ld has value %ld instead of %ld", conf().c_str(), id, VO::read(it->value()), want->second);
                }
                VH_CHECK(n == m.size(), "iteration", "%s: iteration visits %zu entries instead of %zu", conf().c_str(), n, m.size());
            };
            iterate(map);
            iterate(c);
            auto find = [&](long id) {
                auto want = m.find(id);
                auto look = [&](auto& x, auto const& key) {
                    auto it = x.find(key);
                    bool found = it != x.end();
                    VH_CHECK(found == (want != m.end()), "find", "%s: key %ld is %s", conf().c_str(), id, found ? "found but not in the map" : "not found");
                    if (found)
                        VH_CHECK(KO::read(it->key()) == id && VO::read(it->value()) == want->second, "find", "%s: key %ld leads to key %ld with value %ld instead of %ld", conf().c_str(), id, KO::read(it->key()), VO::read(it->value()), want->second);
                    vh::count(found ? "hits" : "misses");
                };
                if (g.coin())
                    KO::lookup(g, map, id, look);
                else
                    KO::lookup(g, c, id, look);
            };
            if (m.size() < 40 || g.chance(1, 4))
                for (auto& e : m)
                    find(e.first);
            for (int i = 0; i < 4; i++)
                find(g.range(0, space + 1));
        }
        void audit()
        {
            std::map<long, long> expected;
            for (auto& s : slots)
                if (!s.hollow)
                    for (auto& [k, v] : s.m)
                    {
                        if (KO::tracked)
                            expected[k + 1000000]++;
                        if (VO::tracked && v != -3)
                            expected[v]++;
                    }
                else
                    return; // its entries are unspecified
            for (auto& [id, n] : expected)
                VH_CHECK(vh::inst().holdersOf(id) == n, "instances", "%s: %ld objects hold %ld instead of %ld", conf().c_str(), vh::inst().holdersOf(id), id, n);
            for (auto& [id, n] : vh::inst().holders)
                VH_CHECK(expected.count(id), "instances", "%s: %ld objects still hold %ld", conf().c_str(), n, id);
            vh::count("instance-audits");
        }

        static constexpr float factors[] = {1.0f, 1.0f, 0.5f, 0.1f, 2.0f, 3.7f, 10.0f, 1000.0f, 0.0f};
        std::unique_ptr<Map> fresh()
        {
            switch (g.below(3))
            {
            case 0:
                return std::make_unique<Map>();
            case 1:
                return std::make_unique<Map>(g.logsize(64));
            default:
                return std::make_unique<Map>(g.logsize(64), g.pick(factors));
            }
        }

        void step()
        {
            if (slots.size() < 2)
            {
                what = "construction";
                Slot s;
                s.map = fresh();
                slots.push_back(std::move(s));
                return;
            }
            Slot& s = slots[g.chance(3, 4) ? 0 : g.below(slots.size())];
            if (s.hollow)
            {
                what = "assignment to a moved-from map";
                *s.map = coil::move(*fresh());
                s.m.clear();
                s.hollow = false;
                return;
            }
            Map& map = *s.map;
            auto& m = s.m;
            long id = g.range(0, space);
            switch (g.below(20))
            {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
            case 5:
            {
                long v = VO::norm(next++);
                bool had = m.count(id);
                what = had ? "assignment of a value" : "insertion";
                vh::count(had ? "overwritten" : "inserted");
                auto it = map.insertOrAssign(KO::make(id), VO::make(v));
                VH_CHECK(it != map.end() && KO::read(it->key()) == id && VO::read(it->value()) == v, "insert-result", "%s: insertOrAssign of key %ld returns another entry", conf().c_str(), id);
                m[id] = v;
                break;
            }
            case 6: // many at once
            {
                what = "insertions";
                for (size_t n = g.logsize(40); n; n--)
                {
                    long k = g.range(0, space), v = VO::norm(next++);
                    map.insertOrAssign(KO::make(k), VO::make(v));
                    m[k] = v;
                }
                break;
            }
            case 7:
            case 8:
            case 9:
            case 10:
            case 11:
                what = "erasure";
                if (!m.empty() && g.chance(4, 5))
                {
                    auto it = m.begin();
                    std::advance(it, static_cast<long>(g.below(m.size())));
                    id = it->first;
                }
                vh::count(m.count(id) ? "erased" : "erased-missing");
                KO::lookup(g, map, id, [](Map& x, auto const& key) { x.erase(key); });
                m.erase(id);
                break;
            case 12: // the entry's own key; in iteration order
            {
                what = "erasure by an entry's own key";
                if (m.empty())
                    break;
                auto it = map.begin();
                for (size_t n = g.below(m.size()); n; n--)
                    ++it;
                m.erase(KO::read(it->key()));
                map.erase(it->key());
                vh::count("erased");
                break;
            }
            case 13:
            {
                what = "erasures";
                while (!m.empty() && !g.chance(1, 12))
                {
                    auto it = m.begin();
                    std::advance(it, static_cast<long>(g.below(m.size())));
                    map.erase(KO::make(it->first));
                    m.erase(it);
                }
                break;
            }
            case 14:
                if (!g.chance(1, 3))
                    break;
                what = "clear";
                map.clear();
                m.clear();
                vh::count("cleared");
                break;
            case 15:
                if (m.count(id))
                {
                    what = "assignment through an iterator";
                    long v = VO::norm(next++);
                    map.find(KO::make(id))->value() = VO::make(v);
                    m[id] = v;
                }
                break;
            case 16:
            case 17:
                if constexpr (VO::copyable)
                {
                    auto& o = slots[g.below(slots.size())];
                    if (o.hollow)
                        break;
                    vh::count("copies");
                    if (slots.size() < 3)
                    {
                        what = "copy construction";
                        Slot n;
                        n.m = o.m;
                        n.map = std::make_unique<Map>(static_cast<Map const&>(*o.map));
                        slots.push_back(std::move(n));
                    }
                    else
                    {
                        what = &o == &s ? "self-assignment" : "copy assignment";
                        map = static_cast<Map const&>(*o.map);
                        Model copy = o.m;
                        m = copy;
                    }
                }
                break;
            case 18:
            {
                auto& o = slots[g.below(slots.size())];
                if (o.hollow || &o == &s)
                    break;
                what = "move assignment";
                map = coil::move(*o.map);
                m = o.m;
                o.hollow = true;
                vh::count("moves");
                break;
            }
            default:
            {
                what = "move construction";
                auto n = std::make_unique<Map>(coil::move(map));
                s.map = std::move(n);
                vh::count("moves");
            }
            }
        }
        void run()
        {
            size_t n = 20 + g.below(vh::st().thorough ? 200 : 80);
            for (size_t i = 0; i < n; i++)
            {
                step();
                for (auto& s : slots)
                {
                    check(s);
                    if (!s.hollow)
                        for (auto& e : s.m)
                            hist = vh::mix(hist ^ static_cast<uint64_t>(e.first * 1000 + e.second));
                }
                if (KO::tracked || VO::tracked)
                    audit();
                vh::observe(hist);
                vh::count("steps");
            }
            slots.clear();
            VH_CHECK(vh::inst().live.empty(), "instances", "%zu objects live on after their maps", vh::inst().live.size());
        }
    };

    // six keys with every assignment of three hash values, erased in every order; some inserted again
    void enumerate(uint64_t from, uint64_t to)
    {
        constexpr unsigned n = 6;
        for (uint64_t code = 729 * from / 16; code < 729 * to / 16; code++)
        {
            fn.kind = 7;
            fn.a = 0;
            uint64_t c = code;
            for (unsigned i = 0; i < n; i++, c /= 3)
                fn.a |= (c % 3) << (4 * i);
            long order[n];
            for (unsigned i = 0; i < n; i++)
                order[i] = i;
            do
            {
                for (int variant = 0; variant < 3; variant++)
                {
                    coil::UnorderedMap<long, long> map(variant == 0 ? 3 : 1, variant == 2 ? 1.0f : 1000.0f);
                    for (unsigned i = 0; i < n; i++)
                        map.insertOrAssign(i, 10 + i);
                    unsigned present = (1 << n) - 1;
                    auto look = [&](unsigned step) {
                        for (unsigned i = 0; i < n; i++)
                        {
                            auto it = map.find(long(i));
                            bool found = it != map.end();
                            VH_CHECK(found == ((present >> i & 1) != 0) && (!found || (it->key() == long(i) && it->value() == 10 + i)), "enumerated", "hashes %llx, order %ld%ld%ld%ld%ld%ld, variant %d, step %u: key %u", static_cast<unsigned long long>(fn.a), order[0], order[1], order[2], order[3], order[4], order[5], variant, step, i);
                        }
                        VH_CHECK(map.size() == static_cast<size_t>(__builtin_popcount(present)), "enumerated", "size");
                    };
                    for (unsigned step = 0; step < n; step++)
                    {
                        map.erase(order[step]);
                        present &= ~(1u << order[step]);
                        look(step);
                        if (variant == 1 && step == 2) // the first one comes back
                        {
                            map.insertOrAssign(order[0], 10 + order[0]);
                            present |= 1u << order[0];
                            look(100);
                        }
                    }
                    vh::st().evaluations++;
                    vh::count("enumerated");
                }
                uint64_t h = fn.a;
                for (long o : order)
                    h = h * 8 + static_cast<uint64_t>(o);
                vh::observe(vh::mix(h));
            } while (std::next_permutation(order, order + n));
        }
    }
}
using namespace c22;

void vh_warmup() {}
bool vh_mode(std::string const& mode, uint64_t from, uint64_t to)
{
    if (mode != "enum")
        return false;
    enumerate(from, to);
    return true;
}
void vh_case(vh::Gen& g)
{
    vh::inst().reset();
    switch (g.below(9))
    {
    case 6:
        return Run<long, elem::Pinned>(g).run();
    case 7:
        return Run<coil::String, elem::CopyOnly>(g).run();
    case 0:
        return Run<long, long>(g).run();
    case 1:
        return Run<Key, vh::Tracked>(g).run();
    case 2:
        return Run<Key, coil::UniquePtr<vh::Tracked>>(g).run();
    case 3:
        return Run<Key, coil::String>(g).run();
    case 4:
        return Run<coil::String, vh::Tracked>(g).run();
    case 5:
        return Run<coil::String, std::unique_ptr<vh::Tracked>>(g).run();
    default:
        return Run<long, coil::Vector<int>>(g).run();
    }
}
