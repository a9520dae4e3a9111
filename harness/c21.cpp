// C21: String and StringView against byte strings.
#include "coilcmp.h"

namespace c21
{
    std::string bytes(vh::Gen& g, size_t n)
    {
        std::string r(n, '\0');
        int kind = static_cast<int>(g.below(4));
        for (char& c : r)
            switch (kind)
            {
            case 0:
                c = static_cast<char>(g.u64());
                break;
            case 1:
                c = "ab"[g.below(2)];
                break;
            case 2:
                c = static_cast<char>(g.chance(1, 4) ? 0 : 'a' + g.below(26));
                break;
            default:
                c = static_cast<char>(g.chance(1, 3) ? 0x80 + g.below(128) : ' ' + g.below(95));
            }
        return r;
    }
    size_t amount(vh::Gen& g)
    {
        if (g.chance(1, 60))
            return g.logsize(vh::st().thorough ? 2000000 : 100000);
        return g.chance(1, 6) ? g.logsize(600) : g.logsize(24);
    }
    std::string cut(std::string const& s) { return s.substr(0, std::min(s.find('\0'), s.size())); }

    void checkView(coil::StringView v, std::string const& m, char const* what)
    {
        VH_CHECK(v.length() == m.size() && v.slength() == static_cast<int>(m.size()) && v.empty() == m.empty(), "view-size", "%s: length %zu (%d), empty %d instead of %zu", what, v.length(), v.slength(), v.empty(), m.size());
        VH_CHECK(m.empty() || memcmp(v.data(), m.data(), m.size()) == 0, "view-bytes", "%s: the bytes differ", what);
        VH_CHECK(v.begin() == v.data() && v.end() == v.data() + m.size(), "view-range", "%s: begin()/end()", what);
    }

    struct Run
    {
        struct Slot
        {
            std::unique_ptr<coil::String> s;
            std::string m;
            bool hollow = false;
        };
        vh::Gen& g;
        std::vector<Slot> slots;
        char const* what = "";
        uint64_t hist = 21;
        explicit Run(vh::Gen& gen) : g(gen) {}

        void check(Slot const& x)
        {
            if (x.hollow)
                return;
            auto& s = *x.s;
            auto const& c = s;
            auto const& m = x.m;
            VH_CHECK(c.length() == m.size() && c.slength() == static_cast<int>(m.size()) && c.empty() == m.empty(), "length", "after %s: length %zu (%d), empty %d instead of %zu", what, c.length(), c.slength(), c.empty(), m.size());
            VH_CHECK(c.cStr() && c.cStr()[m.size()] == '\0', "terminator", "after %s: %zu bytes, not followed by a NUL", what, m.size());
            VH_CHECK(c.cStr() == c.data() && s.data() == c.data() && c.begin() == c.data() && c.end() == c.data() + m.size(), "data", "after %s: data(), cStr(), begin() and end() disagree", what);
            VH_CHECK(memcmp(c.data(), m.data(), m.size()) == 0, "bytes", "after %s: <%s> instead of <%s>", what, vh::esc(sv(c)).c_str(), vh::esc(m).c_str());
            if (!m.empty())
                VH_CHECK(c.back() == m.back() && &s.back() == &c.back() && &c.back() == c.data() + m.size() - 1, "back", "after %s: wrong last byte", what);
            coil::StringView v = c;
            VH_CHECK(v.data() == c.data(), "view", "after %s: the view is somewhere else", what);
            checkView(v, m, what);
            vh::count("bytes-compared", m.size());
        }

        // something to append or compare with: an exact-size copy, or a part of one of the strings
        struct Piece
        {
            std::shared_ptr<ref::Exact> own;
            coil::StringView v;
            std::string m;
        };
        Slot& usable()
        {
            for (;;)
            {
                auto& x = slots[g.below(slots.size())];
                if (!x.hollow)
                    return x;
            }
        }
        Piece piece(Slot& self)
        {
            Piece p;
            if (g.chance(1, 3))
            {
                auto& o = g.coin() ? self : usable();
                size_t a = g.below(o.m.size() + 1), n = g.coin() ? o.m.size() - a : g.below(o.m.size() - a + 1);
                p.v = coil::StringView(o.s->data() + a, n);
                p.m = o.m.substr(a, n);
                if (&o == &self)
                    vh::count("self-parts");
                return p;
            }
            p.m = bytes(g, amount(g));
            p.own = std::make_shared<ref::Exact>(p.m);
            p.v = cv(*p.own);
            return p;
        }

        void add()
        {
            Slot x;
            switch (g.below(5))
            {
            case 0:
                what = "default construction";
                x.s = std::make_unique<coil::String>();
                break;
            case 1:
            {
                what = "construction from a C string";
                std::string t = bytes(g, amount(g));
                x.m = cut(t);
                auto e = std::make_unique<ref::Exact>(std::string_view(t.c_str(), x.m.size() + 1));
                x.s = std::make_unique<coil::String>(e->p);
                break;
            }
            case 2:
            {
                what = "construction from bytes";
                x.m = bytes(g, amount(g));
                auto e = std::make_unique<ref::Exact>(x.m);
                x.s = std::make_unique<coil::String>(e->p, e->n);
                break;
            }
            case 3:
            {
                what = "construction from a view";
                x.m = bytes(g, amount(g));
                auto e = std::make_unique<ref::Exact>(x.m);
                x.s = std::make_unique<coil::String>(cv(*e));
                break;
            }
            default:
                if (slots.empty())
                    return add();
                what = "copy construction";
                {
                    auto& o = usable();
                    x.m = o.m;
                    x.s = std::make_unique<coil::String>(static_cast<coil::String const&>(*o.s));
                    VH_CHECK(x.s->data() != o.s->data(), "shared", "a copy shares the bytes of its original");
                }
            }
            slots.push_back(std::move(x));
        }

        void step()
        {
            size_t alive = 0;
            for (auto& x : slots)
                alive += !x.hollow;
            if (alive < 2 || (slots.size() < 5 && g.chance(1, 10)))
                return add();
            auto& x = slots[g.below(slots.size())];
            auto& s = *x.s;
            if (x.hollow)
            {
                auto& o = usable();
                what = "assignment to a moved-from string";
                x.hollow = false;
                x.m = o.m;
                if (g.coin())
                    s = static_cast<coil::String const&>(*o.s);
                else
                {
                    s = coil::move(*o.s);
                    o.hollow = true;
                }
                return;
            }
            switch (g.below(18))
            {
            case 0:
            case 1:
            case 2:
            {
                what = "append";
                Piece p = piece(x);
                s.append(p.v.data(), p.v.length());
                x.m += p.m;
                vh::count("appends");
                break;
            }
            case 3:
            {
                what = "+= view";
                Piece p = piece(x);
                auto& r = (s += p.v);
                VH_CHECK(&r == &s, "result", "+= returns something else");
                x.m += p.m;
                break;
            }
            case 4:
            {
                what = "+= char";
                for (size_t n = g.coin() ? 1 : g.below(40); n; n--)
                {
                    char c = static_cast<char>(g.chance(1, 5) ? 0 : g.u64());
                    if (!x.m.empty() && g.chance(1, 4))
                    {
                        size_t i = g.below(x.m.size());
                        c = x.m[i];
                        s += s.data()[i];
                    }
                    else
                        s += c;
                    x.m += c;
                }
                break;
            }
            case 5:
            {
                what = "+= C string";
                if (g.coin())
                {
                    size_t i = g.below(x.m.size() + 1);
                    std::string t = cut(x.m.substr(i));
                    s += s.cStr() + i;
                    x.m += t;
                    vh::count("self-parts");
                }
                else
                {
                    std::string t = cut(bytes(g, amount(g)));
                    ref::Exact e(std::string_view(t.c_str(), t.size() + 1));
                    s += static_cast<char const*>(e.p);
                    x.m += t;
                }
                break;
            }
            case 6:
            {
                auto& o = g.chance(1, 3) ? x : usable();
                what = &o == &x ? "+= itself" : "+= string";
                if (x.m.size() + o.m.size() > 4000000)
                    break;
                std::string t = o.m;
                s += static_cast<coil::String const&>(*o.s);
                x.m += t;
                break;
            }
            case 7:
            {
                what = "resize";
                size_t n = g.coin() ? g.below(x.m.size() + 1) : amount(g);
                size_t old = x.m.size();
                s.resize(n);
                VH_CHECK(s.length() == n && s.cStr()[n] == '\0', "resize", "resize(%zu) from %zu: length %zu", n, old, s.length());
                x.m.resize(n);
                if (n > old)
                {
                    std::string t = bytes(g, n - old);
                    memcpy(s.data() + old, t.data(), t.size());
                    memcpy(&x.m[old], t.data(), t.size());
                }
                vh::count("resizes");
                break;
            }
            case 8:
                what = "reserve";
                s.reserve(g.coin() ? g.below(x.m.size() + 1) : amount(g));
                break;
            case 9:
                if (x.m.empty())
                    break;
                what = "writing";
                {
                    size_t i = g.below(x.m.size());
                    char c = static_cast<char>(g.u64());
                    if (g.coin())
                    {
                        s.back() = c;
                        x.m.back() = c;
                    }
                    s.data()[i] = c;
                    x.m[i] = c;
                }
                break;
            case 10:
            case 11:
            {
                auto& o = g.chance(1, 4) ? x : usable();
                what = &o == &x ? "self-assignment" : "copy assignment";
                vh::count(&o == &x ? "self-assignments" : "copy-assignments");
                auto& r = (s = static_cast<coil::String const&>(*o.s));
                VH_CHECK(&r == &s, "result", "= returns something else");
                x.m = std::string(o.m);
                break;
            }
            case 12:
            {
                auto& o = usable();
                if (&o == &x)
                    break;
                what = "move assignment";
                s = coil::move(*o.s);
                x.m = o.m;
                o.hollow = true;
                vh::count("moves");
                break;
            }
            case 13:
            {
                what = "move construction";
                auto n = std::make_unique<coil::String>(coil::move(s));
                x.s = std::move(n);
                vh::count("moves");
                break;
            }
            case 14:
            {
                what = "+";
                if (x.m.size() > 2000000)
                    break;
                auto const& c = s;
                Piece p = piece(x);
                std::string t = cut(p.m);
                ref::Exact e(std::string_view(t.c_str(), t.size() + 1));
                auto& o = usable();
                char ch = static_cast<char>(g.u64());
                auto same = [&](coil::String const& r, std::string const& m) { VH_CHECK(sv(r) == m && r.cStr()[m.size()] == '\0', "plus", "operator+ gives <%s> instead of <%s>", vh::esc(sv(r)).c_str(), vh::esc(m).c_str()); };
                same(c + p.v, x.m + p.m);
                same(c + static_cast<char const*>(e.p), x.m + t);
                same(c + ch, x.m + ch);
                same(c + static_cast<coil::String const&>(*o.s), x.m + o.m);
                same(coil::String(c) + c, x.m + x.m);
                break;
            }
            case 15:
                what = "destruction";
                if (alive > 2)
                    slots.erase(slots.begin() + (&x - slots.data()));
                break;
            default:
            {
                what = "comparison";
                Piece p = piece(x);
                if (g.coin())
                {
                    // the same bytes, or one different, or one more or less, elsewhere in memory
                    p.m = x.m;
                    if (!p.m.empty() && g.coin())
                        p.m[g.below(p.m.size())] ^= static_cast<char>(1 << g.below(8));
                    else if (!p.m.empty() && g.coin())
                        p.m.pop_back();
                    else if (g.coin())
                        p.m += '\0';
                    p.own = std::make_shared<ref::Exact>(p.m);
                    p.v = cv(*p.own);
                }
                auto const& c = s;
                bool eq = x.m == p.m;
                vh::count(eq ? "equal" : "different");
                coil::String other(p.v);
                VH_CHECK((c == p.v) == eq, "equal", "String == StringView is %d", !eq);
                VH_CHECK((c == other) == eq && (other == c) == eq, "equal", "String == String is %d", !eq);
                VH_CHECK((coil::StringView(c) == p.v) == eq && (p.v == coil::StringView(c)) == eq, "equal", "StringView == StringView is %d", !eq);
                VH_CHECK((coil::StringView(c) != p.v) == !eq, "equal", "StringView != StringView is %d", eq);
                std::string t = cut(p.m);
                ref::Exact e(std::string_view(t.c_str(), t.size() + 1));
                VH_CHECK((c == static_cast<char const*>(e.p)) == (x.m == t), "equal", "String == C string is %d", x.m != t);
                coil::Hash<coil::StringView> hv;
                coil::Hash<coil::String> hs;
                VH_CHECK(hs(c) == hv(coil::StringView(c)) && hs(other) == hv(p.v), "hash", "the hashes of a string and of its view differ");
                if (eq)
                    VH_CHECK(hv(coil::StringView(c)) == hv(p.v), "hash", "equal bytes, different hashes");
            }
            }
        }

        void run()
        {
            size_t n = 10 + g.below(50);
            for (size_t i = 0; i < n; i++)
            {
                step();
                for (auto& x : slots)
                {
                    check(x);
                    hist = vh::hashStr(x.hollow ? std::string("?") : x.m, hist);
                }
                vh::observe(hist);
                vh::count("steps");
            }
        }
    };

    // views: everything a view can be asked, of bytes of which the neighbours are poisoned or different
    void views(vh::Gen& g)
    {
        std::string m = bytes(g, amount(g) % 5000);
        ref::Exact e(m);
        coil::StringView v = cv(e);
        checkView(v, m, "construction");
        for (size_t i = 0; i < m.size(); i += 1 + i / 7)
            VH_CHECK(v[i] == m[i] && &v[i] == e.p + i, "view-index", "operator[] at %zu", i);
        size_t k = 0;
        for (char c : v)
        {
            VH_CHECK(c == m[k], "view-iteration", "byte %zu", k);
            k++;
        }
        VH_CHECK(k == m.size(), "view-iteration", "%zu bytes", k);
        for (int i = 0; i < 10; i++)
        {
            size_t a = g.below(m.size() + 1), n = g.coin() ? m.size() - a : g.below(m.size() - a + 1);
            coil::StringView w = v.substr(a, n);
            VH_CHECK(w.data() == v.data() + a, "substr", "substr(%zu, %zu) is somewhere else", a, n);
            checkView(w, m.substr(a, n), "substr");
            coil::String copy(w);
            VH_CHECK(sv(copy) == m.substr(a, n) && copy.cStr()[n] == 0, "substr", "a string of a view differs");
            // another view of the same length elsewhere in the text
            size_t b = g.below(m.size() - n + 1);
            coil::StringView u = v.substr(b, n);
            bool eq = m.compare(a, n, m, b, n) == 0;
            VH_CHECK((u == w) == eq && (u != w) == !eq, "view-equal", "comparison of the %zu bytes at %zu and %zu", n, a, b);
            vh::count(eq ? "equal" : "different");
            coil::Hash<coil::StringView> h;
            if (eq)
                VH_CHECK(h(u) == h(w), "view-hash", "equal bytes, different hashes");
            // the hash takes each byte into account
            if (n)
            {
                std::string t = m.substr(a, n);
                size_t at = g.coin() ? n - 1 : g.below(n);
                size_t first = 0;
                bool differs = false;
                for (int x = 0; x < 256 && !differs; x += 5)
                {
                    t[at] = static_cast<char>(x);
                    size_t hash = h(cv(t));
                    if (x == 0)
                        first = hash;
                    differs = hash != first;
                }
                VH_CHECK(differs, "view-hash", "the hash does not depend on byte %zu of %zu", at, n);
            }
        }
        std::string c = cut(m);
        ref::Exact z(std::string_view(c.c_str(), c.size() + 1));
        coil::StringView cstr(static_cast<char const*>(z.p));
        checkView(cstr, c, "construction from a C string");
        VH_CHECK(cstr.data() == z.p, "view-cstr", "a view of a C string is somewhere else");
        coil::StringView none;
        checkView(none, "", "default construction");
        VH_CHECK((none == v) == m.empty(), "view-equal", "comparison with the empty view");
        vh::count("views");
        vh::observe(vh::hashStr(m, 99));
    }
}
using namespace c21;

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }
void vh_case(vh::Gen& g)
{
    if (g.chance(1, 4))
        views(g);
    else
        Run(g).run();
}
