// Independent reference models of coil's command grammar and text generators.  Nothing in here calls coil,
// except the comparison helpers at the bottom, which look at coil's public result types.
#pragma once

#include "vh.h"

#include <memory>
#include <optional>

#if defined(__SANITIZE_ADDRESS__)
    #define VH_ASAN 1
#elif defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define VH_ASAN 1
    #endif
#endif
#ifdef VH_ASAN
    #include <sanitizer/asan_interface.h>
inline void vhPoison(void* p, size_t n) { __asan_poison_memory_region(p, n); }
inline void vhUnpoison(void* p, size_t n) { __asan_unpoison_memory_region(p, n); }
#else
inline void vhPoison(void*, size_t) {}
inline void vhUnpoison(void*, size_t) {}
#endif

namespace ref
{
    struct LexCfg
    {
        std::string group = "()";
        std::string quotes = "'\"";
        std::string seps = ",;|";
        std::string spaces = " \t\n\r";
        bool in(std::string const& set, char c) const { return set.find(c) != std::string::npos; }
        // '=' always wins
        bool sp(char c) const { return c != '=' && in(spaces, c); }
        bool grp(char c) const { return c != '=' && !sp(c) && in(group, c); }
        bool quo(char c) const { return c != '=' && !sp(c) && !grp(c) && in(quotes, c); }
        bool word(char c) const { return c != '=' && !sp(c) && !grp(c) && !quo(c); }
        bool fieldSep(char c) const { return in(spaces, c) || in(seps, c); }
    };

    struct Span
    {
        size_t off = 0, len = 0;
    };
    struct Val
    {
        std::vector<Span> subs;
    };
    struct Parsed
    {
        bool ok = true;
        std::string error;
        bool errorHasNul = false;
        bool hasName = false;
        Span name;
        std::vector<Val> args;
        std::vector<std::pair<Span, Val>> named;
        size_t tokens = 0, compound = 0;
    };

    // fields of a compound value
    inline std::vector<Span> fields(std::string_view t, size_t b, size_t e, LexCfg const& c)
    {
        std::vector<Span> out;
        size_t p = b;
        for (;;)
        {
            while (p != e && c.fieldSep(t[p]))
                ++p;
            if (p == e)
                return out;
            size_t s = p;
            unsigned quotesSeen = 0;
            for (; p != e; ++p)
            {
                if (c.in(c.quotes, t[p]))
                    ++quotesSeen;
                else if (quotesSeen % 2 == 0 && c.fieldSep(t[p]))
                    break;
            }
            size_t n = p - s;
            if (n >= 2 && c.in(c.quotes, t[s]) && c.in(c.quotes, t[p - 1]))
                out.push_back({s + 1, n - 2});
            else
                out.push_back({s, n});
        }
    }

    inline Parsed parse(std::string_view t, LexCfg const& c = {})
    {
        struct Tok
        {
            char kind; // 's' plain, 'c' compound, '='
            Span sp;
        };
        std::vector<Tok> toks;
        Parsed r;
        auto fail = [&](std::string m) {
            r = Parsed{};
            r.ok = false;
            r.error = std::move(m);
            return r;
        };

        size_t p = 0, n = t.size();
        while (p < n)
        {
            char ch = t[p];
            if (c.sp(ch))
            {
                ++p;
                continue;
            }
            if (ch == '=')
            {
                toks.push_back({'=', {p, 1}});
                ++p;
                continue;
            }
            if (c.quo(ch) || c.grp(ch))
            {
                bool isQ = c.quo(ch);
                size_t q = p + 1;
                while (q < n && !(isQ ? c.quo(t[q]) : c.grp(t[q])))
                    ++q;
                if (q == n)
                    return fail(std::string("Token '") + ch + "' doesn't have a corresponding opening/closing " + (isQ ? "quote" : "token"));
                toks.push_back({isQ ? 's' : 'c', {p + 1, q - p - 1}});
                p = q + 1;
                continue;
            }
            size_t q = p;
            bool compound = false;
            while (q < n && c.word(t[q]))
            {
                if (q > p && c.in(c.seps, t[q]))
                    compound = true;
                ++q;
            }
            toks.push_back({compound ? 'c' : 's', {p, q - p}});
            p = q;
        }
        r.tokens = toks.size();
        if (toks.empty())
            return r;
        if (toks[0].kind != 's')
        {
            std::string v(t.substr(toks[0].sp.off, toks[0].sp.len));
            auto res = fail("Unexpected token '" + v + "' at the beginning of the expression");
            res.errorHasNul = v.find('\0') != std::string::npos;
            return res;
        }
        r.hasName = true;
        r.name = toks[0].sp;
        auto value = [&](Tok const& k) {
            Val v;
            if (k.kind == 'c')
            {
                v.subs = fields(t, k.sp.off, k.sp.off + k.sp.len, c);
                r.compound++;
            }
            else
                v.subs.push_back(k.sp);
            return v;
        };
        size_t i = 1;
        while (i < toks.size())
        {
            if (toks[i].kind == '=')
                return fail("Unexpected token '=': no name for the named argument is provided");
            if (i + 1 < toks.size() && toks[i + 1].kind == '=')
            {
                if (i + 2 >= toks.size())
                    return fail("Expected an argument value, found end of string");
                if (toks[i + 2].kind == '=')
                    return fail("Expected an argument value, found '='");
                r.named.emplace_back(toks[i].sp, value(toks[i + 2]));
                i += 3;
            }
            else
            {
                r.args.push_back(value(toks[i]));
                i += 1;
            }
        }
        return r;
    }

    // --- generation of command text -------------------------------------------------------------
    inline std::string word(vh::Gen& g, size_t max, bool hostile)
    {
        static char const* const common[] = {"a", "foo", "bar", "x", "1", "0", "-1", "42", "true", "false", "3.14", "cmd", "name", "%s", "%n", "255", "256", "-129", "2147483648", "1e5", "nan", "0x10", "é"};
        if (g.chance(2, 3))
            return common[g.below(sizeof common / sizeof *common)];
        std::string s;
        size_t n = g.logsize(max);
        for (size_t i = 0; i < n && !g.exhausted(); i++)
        {
            if (hostile && g.chance(1, 6))
                s += static_cast<char>(g.below(256));
            else
                s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+.:/%@#"[g.below(72)];
        }
        return s;
    }
    template<typename S>
    char pickc(vh::Gen& g, S const& s, char dflt)
    {
        return s.empty() ? dflt : s[g.below(s.size())];
    }
    inline std::string spaces(vh::Gen& g, LexCfg const& c, bool atLeastOne)
    {
        std::string s;
        size_t n = (atLeastOne ? 1 : 0) + (g.chance(1, 4) ? g.logsize(6) : 0);
        for (size_t i = 0; i < n; i++)
            s += pickc(g, c.spaces, ' ');
        return s;
    }
    inline std::string quoted(vh::Gen& g, LexCfg const& c, size_t max, bool hostile)
    {
        std::string s;
        s += pickc(g, c.quotes, '\'');
        size_t n = g.below(4);
        for (size_t i = 0; i < n; i++)
        {
            s += word(g, max, hostile);
            if (g.coin())
                s += g.chance(1, 3) ? std::string(1, "=(),;| \t"[g.below(8)]) : spaces(g, c, true);
        }
        s += pickc(g, c.quotes, '\'');
        return s;
    }
    inline std::string group(vh::Gen& g, LexCfg const& c, size_t max, bool hostile)
    {
        std::string s;
        s += pickc(g, c.group, '(');
        size_t n = g.chance(1, 12) ? g.logsize(40) : g.below(6);
        for (size_t i = 0; i < n; i++)
        {
            switch (g.below(8))
            {
            case 0:
                s += quoted(g, c, max / 2, hostile);
                break;
            case 1:
                s += spaces(g, c, true);
                break;
            case 2:
                s += pickc(g, c.quotes, '"');
                break;
            default:
                s += word(g, max / 2, hostile);
            }
            if (g.chance(3, 4))
            {
                size_t k = g.chance(1, 5) ? g.below(4) : 1;
                while (k--)
                    s += g.coin() ? pickc(g, c.seps, ',') : pickc(g, c.spaces, ' ');
            }
        }
        if (!g.chance(1, 25))
            s += pickc(g, c.group, ')');
        return s;
    }
    inline std::string argument(vh::Gen& g, LexCfg const& c, size_t max, bool hostile)
    {
        switch (g.below(10))
        {
        case 0:
        case 1:
            return quoted(g, c, max, hostile);
        case 2:
        case 3:
            return group(g, c, max, hostile);
        case 4:
        {
            std::string s;
            size_t n = g.below(5) + 1;
            for (size_t i = 0; i < n; i++)
            {
                s += word(g, max / 4, hostile);
                s += pickc(g, c.seps, ',');
            }
            if (g.coin())
                s += word(g, max / 4, hostile);
            return s;
        }
        default:
            return word(g, max, hostile);
        }
    }
    inline std::string command(vh::Gen& g, LexCfg const& c = {}, size_t max = 60, bool hostile = true, char const* name = nullptr)
    {
        std::string s;
        if (g.fuzz && g.coin())
        {
            while (g.left)
                s += static_cast<char>(g.next8());
            return s;
        }
        if (g.chance(1, 20)) // special characters only
        {
            std::string all = c.group + c.quotes + c.seps + c.spaces + "=a";
            size_t n = g.logsize(40);
            for (size_t i = 0; i < n; i++)
                s += all[g.below(all.size())];
            return s;
        }
        if (g.chance(1, 30)) // raw bytes
        {
            size_t n = g.logsize(80);
            for (size_t i = 0; i < n; i++)
                s += static_cast<char>(g.below(256));
            return s;
        }
        s += spaces(g, c, false);
        s += name && !g.chance(1, 10) ? std::string(name) : g.chance(1, 8) ? quoted(g, c, max, hostile) : word(g, max, hostile);
        size_t n = g.chance(1, 20) ? g.logsize(60) : g.below(6);
        for (size_t i = 0; i < n; i++)
        {
            s += spaces(g, c, !g.chance(1, 8));
            if (g.chance(1, 4))
            {
                s += g.chance(1, 10) ? argument(g, c, max, hostile) : word(g, max / 2, hostile);
                s += spaces(g, c, false) + "=" + spaces(g, c, false);
                if (g.chance(1, 15))
                    s += "=";
            }
            s += argument(g, c, max, hostile);
        }
        s += spaces(g, c, false);
        if (g.chance(1, 4)) // mutate
        {
            size_t k = 1 + g.below(3);
            std::string special = c.group + c.quotes + c.seps + c.spaces + "==";
            for (size_t i = 0; i < k && !s.empty(); i++)
            {
                size_t at = g.below(s.size());
                switch (g.below(5))
                {
                case 0:
                    s.erase(at, 1 + g.below(3));
                    break;
                case 1:
                    s.insert(at, 1, special[g.below(special.size())]);
                    break;
                case 2:
                    s[at] = static_cast<char>(g.below(256));
                    break;
                case 3:
                    s.insert(at, s.substr(g.below(s.size()), g.below(12)));
                    break;
                case 4:
                    s.resize(at);
                    break;
                }
            }
        }
        return s;
    }
    inline LexCfg config(vh::Gen& g) // disjoint character classes, bytes 1..255 except '='
    {
        std::string pool;
        bool high = g.coin();
        for (int b = 1; b < 256; b++)
            if (b != '=' && !(b >= 'a' && b <= 'z') && (high || b < 128))
                pool += static_cast<char>(b);
        LexCfg c;
        auto take = [&](size_t n) {
            std::string s;
            for (size_t i = 0; i < n; i++)
            {
                size_t at;
                if (g.coin())
                {
                    static char const nice[] = "[]{}<>()`'\"~,;|/:!&-_*+.^ \t\n\r\v\f$@#%\\?\x80\xab\xff";
                    char w = nice[g.below(sizeof nice - 1)];
                    at = pool.find(w);
                    if (at == std::string::npos)
                        at = g.below(pool.size());
                }
                else
                    at = g.below(pool.size());
                s += pool[at];
                pool.erase(at, 1);
            }
            return s;
        };
        c.group = take(g.below(4));
        c.quotes = take(g.below(4));
        c.seps = take(g.below(5));
        c.spaces = take(g.below(4) + (g.coin() ? 1 : 0));
        return c;
    }

    // A copy of a text: a read past either end is caught by AddressSanitizer.
    // Short texts mostly live in slots which are used again and again, like the line buffer of a console: consecutive
    // texts have the same address, and what follows a text is poisoned.
    struct Slots
    {
        static constexpr size_t count = 12, room = 512, stride = 1024;
        alignas(16) char memory[count * stride + 64];
        bool used[count] = {};
        Slots() { vhPoison(memory, sizeof memory); }
        ~Slots() { vhUnpoison(memory, sizeof memory); }
        char* take(size_t n)
        {
            for (size_t i = 0; n <= room && i < count; i++)
                if (!used[i])
                {
                    used[i] = true;
                    char* p = memory + i * stride + 256;
                    vhUnpoison(p, n);
                    return p;
                }
            return nullptr;
        }
        void give(char* p, size_t n)
        {
            if (n)
                memset(p, 0xA5, n);
            vhPoison(p, room);
            used[static_cast<size_t>(p - memory) / stride] = false;
        }
        static Slots& get()
        {
            static thread_local Slots s;
            return s;
        }
    };
    struct Exact
    {
        char* base;
        char* p;
        size_t n;
        char* slot = nullptr;
        explicit Exact(std::string_view s) : n(s.size())
        {
            if (vh::hashBytes(s.data(), n) % 4 != 0)
                slot = Slots::get().take(n);
            base = slot ? slot : static_cast<char*>(malloc(n ? n : 1));
            if (!base)
                abort();
            p = n || slot ? base : base + 1;
            if (n)
                memcpy(p, s.data(), n);
        }
        Exact(Exact const&) = delete;
        Exact& operator=(Exact const&) = delete;
        ~Exact() { release(); }
        void release()
        {
            if (!base)
                return;
            if (slot)
                Slots::get().give(slot, n);
            else
            {
                if (n)
                    memset(p, 0xA5, n); // so that a stale view shows even without a sanitizer
                free(base);
            }
            base = nullptr;
        }
    };
}
