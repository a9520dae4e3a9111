// C16: named arguments.
#include "convcheck.h"

namespace
{
    enum class How
    {
        Raw,            // get(key)
        Get,            // get<T>(key)
        RawOrReport,    // getOrReport(key, required)
        GetOrReport,    // getOrReport<T>(key, required, default)
        Find,
        Iterate,
        Hows
    };
    struct Lookup
    {
        How how;
        std::string key;
        int type; // index of Types
        bool required;
        bool implicit; // without the arguments which have defaults
        bool hasDefault;
        uint64_t defaultSeed;
    };
    struct Seen
    {
        std::string text; // what the lookup gave
    };
    using Named = std::vector<std::pair<std::string, ref::Fields>>;

    struct Script
    {
        std::vector<Lookup> lookups;
        std::vector<Seen> seen;
        int overload = -1;
    };
    Script* theScript;

    template<typename T>
    std::string got(coil::NamedArgs& a, Lookup const& l, coil::StringView key)
    {
        using C = ref::Conv<T>;
        if (l.how == How::Get)
        {
            auto r = a.get<T>(key);
            if (r)
                return "=" + C::canon(*r);
            return std::string(r.error().type == coil::NamedArgs::Error::Type::MissingKey ? "missing:" : "mismatch:") + ss(r.error().message);
        }
        auto arg = l.required ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional;
        coil::Optional<T> d;
        if (l.hasDefault)
        {
            vh::Gen dg(l.defaultSeed);
            d = C::value(dg);
        }
        coil::Optional<T> r;
        if (l.implicit && !l.hasDefault)
            r = l.required ? a.getOrReport<T>(key, arg) : a.getOrReport<T>(key);
        else
            r = a.getOrReport<T>(key, arg, coil::move(d));
        return r ? "=" + C::canon(*r) : "nothing";
    }
    template<typename T>
    std::string expected(Lookup const& l, ref::Fields const* f, std::vector<ref::CR>& errors, bool& open)
    {
        using C = ref::Conv<T>;
        ref::CR c;
        if (f)
        {
            c = C::conv(*f);
            open = open || c.open;
        }
        ref::CR missing;
        missing.err = "Missing named argument '" + l.key + "'";
        missing.hasNul = l.key.find('\0') != std::string::npos;
        if (l.how == How::Get)
        {
            if (!f)
                return "missing:" + missing.err;
            return c.ok ? "=" + c.canon : "mismatch:" + c.err;
        }
        if (f)
        {
            if (c.ok)
                return "=" + c.canon;
            errors.push_back(c);
            return "nothing";
        }
        if (l.required)
        {
            errors.push_back(missing);
            return "nothing";
        }
        if (!l.hasDefault)
            return "nothing";
        vh::Gen dg(l.defaultSeed);
        return "=" + C::canon(C::value(dg));
    }
    template<typename T>
    ref::Fields fieldsOf(vh::Gen& g)
    {
        return ref::Conv<T>::fields(g, g.chance(2, 3));
    }
    struct TypeOps
    {
        std::string (*got)(coil::NamedArgs&, Lookup const&, coil::StringView);
        std::string (*expected)(Lookup const&, ref::Fields const*, std::vector<ref::CR>&, bool&);
        ref::Fields (*fields)(vh::Gen&);
    };
    template<typename T>
    TypeOps ops()
    {
        return {&got<T>, &expected<T>, &fieldsOf<T>};
    }
    TypeOps const types[] = {ops<int>(), ops<unsigned char>(), ops<bool>(), ops<std::string>(), ops<coil::StringView>(), ops<coil::String>(), ops<double>(), ops<std::vector<int>>(), ops<std::optional<int>>(), ops<std::vector<std::string>>()};
    constexpr size_t typeCount = sizeof types / sizeof *types;


    void perform(coil::Context ctx, int overload)
    {
        Script& s = *theScript;
        s.overload = overload;
        coil::NamedArgs args = ctx.namedArgs();
        for (auto const& l : s.lookups)
        {
            ref::Exact e(l.key);
            coil::StringView key = cv(e);
            std::string t;
            auto index = [&](coil::Value const* v) {
                size_t i = 0;
                for (auto& n : args)
                {
                    if (&n.value == v)
                        return "#" + std::to_string(i);
                    i++;
                }
                return std::string("another value");
            };
            switch (l.how)
            {
            case How::Raw:
            {
                auto r = args.get(key);
                if (r)
                    t = index(&static_cast<coil::Value const&>(*r));
                else
                    t = std::string(r.error().type == coil::NamedArgs::Error::Type::MissingKey ? "missing:" : "mismatch:") + ss(r.error().message);
                break;
            }
            case How::RawOrReport:
            {
                auto* v = l.implicit && !l.required ? args.getOrReport(key) : args.getOrReport(key, l.required ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional);
                t = v ? index(v) : "nothing";
                break;
            }
            case How::Find:
            {
                auto it = args.find(key);
                t = it == args.end() ? "end" : index(&it->value);
                break;
            }
            case How::Iterate:
                t = std::to_string(args.size());
                for (auto const& n : args)
                    t += "<" + ss(n.key) + ">" + show(n.value);
                break;
            default:
                t = types[l.type].got(args, l, key);
            }
            s.seen.push_back({t});
        }
    }

    std::string randomKey(vh::Gen& g, std::vector<std::string> const& some)
    {
        if (!some.empty() && g.chance(3, 5))
        {
            std::string k = g.pick(some);
            if (g.chance(1, 4))
                switch (g.below(6))
                {
                case 0:
                    k += "x";
                    break;
                case 1:
                    if (!k.empty())
                        k.pop_back();
                    break;
                case 2:
                    if (!k.empty())
                        k[0] = static_cast<char>(k[0] ^ 0x20);
                    break;
                case 3:
                    k += '\0';
                    break;
                case 4:
                    k += " ";
                    break;
                default:
                    k = " " + k;
                }
            return k;
        }
        static char const* const keys[] = {"key", "Key", "ke", "keyy", "k", "", "%s", "a", "b", "name", "value", "key "};
        if (g.chance(1, 30))
            return std::string(g.logsize(6000), static_cast<char>('k' + g.below(2)));
        return g.coin() ? std::string(g.pick(keys)) : ref::word(g, 8, true);
    }
}

void vh_warmup()
{
    vh::Gen g(3);
    for (int i = 0; i < 300; i++)
        vh_case(g);
}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    Named named;
    std::vector<std::string> keys;
    size_t n = g.chance(1, 8) ? g.logsize(40) : g.below(6);
    for (size_t i = 0; i < n; i++)
    {
        std::string k = randomKey(g, keys);
        keys.push_back(k);
        ref::Fields f = g.coin() ? types[g.below(typeCount)].fields(g) : ref::Conv<coil::Value>::fields(g, true);
        named.emplace_back(k, f);
    }
    Script s;
    for (size_t i = 0, m = 1 + g.below(8); i < m; i++)
    {
        Lookup l;
        l.how = static_cast<How>(g.below(static_cast<uint64_t>(How::Hows)));
        if (g.coin())
            l.how = How::GetOrReport;
        l.key = randomKey(g, keys);
        l.type = static_cast<int>(g.below(typeCount));
        l.required = g.coin();
        l.implicit = g.coin();
        l.hasDefault = g.coin();
        l.defaultSeed = g.u64();
        s.lookups.push_back(l);
    }
    theScript = &s;
    coil::Bindings b;
    b["f"] = coil::overloaded([](coil::Context c) { perform(c, 0); return 100; }, [](coil::Context c, coil::StringView) { perform(c, 1); return 101; }, [](coil::Context const& c, coil::StringView, coil::Value const&) { perform(c, 2); return 102; });
    std::vector<ref::Fields> args;
    for (size_t k = g.below(4); k; k--)
        args.push_back({ref::anyText(g, 8)});
    ref::Exec ex;
    auto r = ex.run(g, b, "f", args, named);
    std::string what = vh::esc(ex.text);
    vh::st().note = what.c_str();
    vh::count(ex.asText ? "as-text" : "as-input");
    if (args.size() > 2)
    {
        VH_CHECK(s.overload == -1, "overload", "%s: overload %d was called", what.c_str(), s.overload);
        std::string msg = "Wrong number of arguments to 'f': expected 0, 1 or 2, got " + std::to_string(args.size());
        VH_CHECK(r.errors.size() == 1 && sv(r.errors[0]) == msg, "overload", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
        vh::count("wrong-count");
        return;
    }
    VH_CHECK(s.overload == static_cast<int>(args.size()), "overload", "%s: overload %d was called", what.c_str(), s.overload);
    VH_CHECK(s.seen.size() == s.lookups.size(), "lookups", "%s", what.c_str());
    std::vector<ref::CR> errors;
    for (size_t i = 0; i < s.lookups.size(); i++)
    {
        Lookup const& l = s.lookups[i];
        size_t at = 0;
        while (at < named.size() && named[at].first != l.key)
            at++;
        bool found = at < named.size();
        size_t dup = 0;
        for (auto& kv : named)
            dup += kv.first == l.key;
        if (dup > 1)
            vh::count("duplicate-keys");
        std::string want;
        bool open = false;
        ref::CR missing;
        missing.err = "Missing named argument '" + l.key + "'";
        missing.hasNul = l.key.find('\0') != std::string::npos;
        switch (l.how)
        {
        case How::Raw:
            want = found ? "#" + std::to_string(at) : "missing:" + missing.err;
            break;
        case How::RawOrReport:
            want = found ? "#" + std::to_string(at) : "nothing";
            if (!found && l.required)
                errors.push_back(missing);
            break;
        case How::Find:
            want = found ? "#" + std::to_string(at) : "end";
            break;
        case How::Iterate:
            want = std::to_string(named.size());
            for (auto& kv : named)
            {
                want += "<" + kv.first + ">[";
                for (auto& f : kv.second)
                    want += "<" + f + ">";
                want += "]";
            }
            break;
        default:
        {
            size_t before = errors.size();
            want = types[l.type].expected(l, found ? &named[at].second : nullptr, errors, open);
            if (open)
                return;
            vh::count(!found ? (l.required ? "missing-required" : l.hasDefault ? "defaulted" : "missing-optional") : errors.size() > before || want.rfind("mismatch", 0) == 0 ? "mismatches" : "converted");
        }
        }
        std::string const& gotText = s.seen[i].text;
        bool same = gotText == want;
        if (!same && want.find('\0') != std::string::npos && (want.rfind("missing:", 0) == 0 || want.rfind("mismatch:", 0) == 0))
            same = gotText.substr(0, want.find(':') + 10) == want.substr(0, want.find(':') + 10);
        VH_CHECK(same, "lookup", "%s: lookup %zu (how %d, key \"%s\", type %d, %s%s) gave \"%s\", should give \"%s\"", what.c_str(), i, static_cast<int>(l.how), vh::esc(l.key).c_str(), l.type, l.required ? "required" : "optional", l.hasDefault ? ", with a default" : "", vh::esc(gotText).c_str(), vh::esc(want).c_str());
        vh::observe(vh::hashStr(what + std::to_string(static_cast<int>(l.how)) + l.key + std::to_string(l.type * 2 + l.required)));
    }
    bool ok = r.errors.size() == errors.size();
    std::string text;
    for (size_t i = 0; ok && i < errors.size(); i++)
    {
        auto e = sv(r.errors[i]);
        ok = errors[i].hasNul ? (e.substr(0, 9) == errors[i].err.substr(0, 9)) : e == errors[i].err;
    }
    for (auto& e : errors)
        text += "<" + e.err + ">";
    VH_CHECK(ok, "errors", "%s: %s, should report %s", what.c_str(), vh::esc(show(r)).c_str(), vh::esc(text).c_str());
    VH_CHECK(sv(r.output).empty() && r.returnValue.hasValue() == errors.empty() && (!errors.empty() || sv(*r.returnValue) == "10" + std::to_string(args.size())), "result", "%s: %s", what.c_str(), vh::esc(show(r)).c_str());
    if (errors.size() > 1)
        vh::count("several-errors");
    if (g.chance(1, 1500))
        vh::sample(what + " -> " + vh::esc(show(r)));
}
