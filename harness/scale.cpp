// Large and long workloads: sizes around powers of two and round numbers, and sessions of thousands of operations on
// the same objects.  One scenario per property, chosen by the property the check is built for.
#include "model.h"
#include "tracked.h"
#include "world.h"

#include <pthread.h>
#include <list>
#include <sstream>
#include <unordered_map>

#include <coil/detail/UnorderedMap.h>

namespace
{
    bool is(char const* p) { return strcmp(vh::st().property, p) == 0; }

    size_t big(vh::Gen& g, size_t max)
    {
        static size_t const marks[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 200000, 262144, 524288, 1000000, 1048575, 1048576, 1048577};
        size_t n = 0;
        while (n < sizeof marks / sizeof *marks && marks[n] <= max)
            n++;
        if (n && g.coin())
            return marks[g.below(n)];
        return g.logsize(max);
    }
    // how often one thing is repeated: around the sizes of small counters
    size_t repeats(vh::Gen& g)
    {
        static size_t const marks[] = {128, 256, 256, 256, 512, 1000, 1024, 32768, 65536};
        return g.pick(marks) + g.below(5) - 2;
    }
    std::string bytes(vh::Gen& g, size_t n, bool any = false)
    {
        std::string s(n, 'x');
        uint64_t r = g.u64();
        for (size_t i = 0; i < n; i++)
        {
            if (i % 8 == 0)
                r = vh::mix(r + i);
            unsigned char c = static_cast<unsigned char>(r >> (8 * (i % 8)));
            s[i] = any ? static_cast<char>(c) : "abcdefghijklmnopqrstuvwxyz012345"[c & 31];
        }
        return s;
    }

    // ---- texts ----------------------------------------------------------------------------------
    std::string longText(vh::Gen& g, std::string const& name)
    {
        std::string s = name;
        switch (g.below(9))
        {
        case 0: // many arguments
        {
            size_t n = big(g, 20000);
            for (size_t i = 0; i < n; i++)
                s += i % 7 == 3 ? " k" + std::to_string(i) + "=" + std::to_string(i) : " " + std::to_string(i);
            break;
        }
        case 1: // one long word
            s += " " + bytes(g, big(g, 1100000));
            break;
        case 2: // one long quoted text
            s += " '" + bytes(g, big(g, 1100000)) + " x,y=z (" + "'";
            break;
        case 3: // a group of many fields
        {
            size_t n = big(g, 40000);
            s += " (";
            for (size_t i = 0; i < n; i++)
                s += i % 5 == 2 ? "'a b'," : i % 11 == 0 ? "  x" + std::to_string(i) + ";" : std::to_string(i) + ",";
            s += ")";
            break;
        }
        case 4: // a word of many separators
        {
            size_t n = big(g, 40000);
            s += " w";
            for (size_t i = 0; i < n; i++)
                s += i % 3 ? "," : "|q";
            break;
        }
        case 5: // many named arguments with groups
        {
            size_t n = big(g, 8000);
            for (size_t i = 0; i < n; i++)
                s += (i % 2 ? " k=(1,2)" : " 'a key' = 1,2,3");
            break;
        }
        case 6: // a long name
            s = bytes(g, big(g, 300000)) + " 1 2";
            break;
        case 7: // white space
            s = std::string(big(g, 300000), ' ') + s + std::string(big(g, 300000), '\t') + "a=" + std::string(big(g, 300000), '\n') + "b" + std::string(big(g, 1000), ' ');
            break;
        default: // hostile characters
        {
            size_t n = big(g, 60000);
            for (size_t i = 0; i < n; i++)
                s += "=()'\",;| abc\t\xff%s"[g.below(17)];
        }
        }
        switch (g.below(8))
        {
        case 0:
            s += " '";
            break;
        case 1:
            s += " (x";
            break;
        case 2:
            s += " x=";
            break;
        case 3:
            s += " y==z";
            break;
        case 4:
            s.insert(0, "() ");
            break;
        default:
            break;
        }
        return s;
    }
    void note(std::string const& s) { vh::st().note = vh::esc(std::string_view(s).substr(0, 300)).c_str(); }

    void parseLong(vh::Gen& g, bool places)
    {
        std::string text = longText(g, "name");
        note(text);
        coil::DefaultLexer lexer;
        ref::Exact e(text);
        auto got = lexer.parse(cv(e));
        auto want = ref::parse(text);
        VH_CHECK(got.hasValue() == want.ok, want.ok ? "rejects" : "accepts", "a text of %zu characters is %s", text.size(), want.ok ? "rejected" : "accepted");
        if (want.ok)
            checkInput(text, e.p, *got, want, places, "structure");
        else
            VH_CHECK(sameError(sv(got.error()), want), "error-text", "a text of %zu characters: \"%s\"", text.size(), vh::esc(sv(got.error())).substr(0, 300).c_str());
        vh::count("large-texts");
        vh::observe(vh::hashStr(text));
    }

    // ---- executions -----------------------------------------------------------------------------
    std::string longNumber(vh::Gen& g)
    {
        size_t n = g.chance(1, 4) ? 1100000 : big(g, 1100000);
        std::string s;
        switch (g.below(9))
        {
        case 0:
            s = std::string(n, '1');
            break;
        case 1:
            s = std::string(n, '0') + "7";
            break;
        case 2:
            s = "1." + std::string(n, '3');
            break;
        case 3:
            s = "'" + std::string(n, ' ') + "5'";
            break;
        case 4:
            s = "0x" + std::string(n, 'f');
            break;
        case 5:
            s = "-" + std::string(n, '9') + "e5";
            break;
        case 6:
            s = "1e" + std::string(n, '0') + "1";
            break;
        case 7:
            s = "(" + std::string(n, '2') + " " + std::string(g.coin() ? n : 1, '4') + ")";
            break;
        default:
            s = bytes(g, n);
        }
        return s;
    }
    void worldLong(vh::Gen& g)
    {
        world::World w;
        w.extremes(g);
        // one long number or word for each type of parameter
        static char const* const typed[] = {"c", "sc", "uc", "s", "us", "i", "u", "l", "ul", "ll", "ull", "f", "d", "ld", "b", "cs", "sv", "ss", "vi", "vd", "vs", "oi", "os", "color", "point", "vdouble", "vint", "vstring", "named", "get", "f", "d", "ld"};
        for (char const* name : typed)
        {
            std::string text = std::string(name) + (name == std::string("named") || name == std::string("get") ? " key=" : " ") + longNumber(g);
            note(text);
            ref::Exact e(text);
            auto r = w.b.execute(cv(e));
            VH_CHECK(!(r.returnValue && !r.errors.empty()), "return-and-errors", "both a return value and errors");
            vh::count("large-texts");
            vh::observe(vh::hashStr(text));
        }
        for (int i = 0; i < 6; i++)
        {
            std::string text = longText(g, g.pick(world::names()));
            note(text);
            ref::Exact e(text);
            coil::ExecutionResult r;
            try
            {
                r = w.b.execute(cv(e));
            }
            catch (std::exception const&)
            {
            }
            VH_CHECK(!(r.returnValue && !r.errors.empty()), "return-and-errors", "both a return value and errors");
            vh::count("large-texts");
            vh::observe(vh::hashStr(text));
        }
        // a long session: results are released, nothing accumulates
        std::vector<std::string> texts;
        for (int i = 0; i < 12; i++)
            texts.push_back(world::text(g, 20));
        long blocks = 0;
        size_t rounds = 40 + big(g, 400);
        for (size_t i = 0; i < rounds; i++)
        {
            for (auto& t : texts)
            {
                ref::Exact e(t);
                try
                {
                    auto r = w.b.execute(cv(e));
                    r.input = coil::ExecutionInput();
                }
                catch (std::exception const&)
                {
                }
                vh::count("session-executions");
            }
            if (i == 8)
                blocks = vh::mark().blocks;
        }
        VH_CHECK(rounds <= 9 || vh::mark().blocks <= blocks + 64, "accumulates", "%ld blocks after %zu repetitions of the same commands, %ld after 8", vh::mark().blocks, rounds, blocks);
    }

    // C12, C13, C17, C19, C25: thousands of scripted commands in one registry
    void session(vh::Gen& g)
    {
        model::nextId = 1;
        std::vector<std::string> names = {"a", "b", "c", "d", "e", "f"};
        model::Options o;
        o.names = &names;
        o.simple = true;
        o.maxText = 12;
        o.throws = is("C13");
        o.nest = is("C19");
        o.nuls = !o.nest;
        model::Model m;
        model::Env env;
        for (auto& n : names)
        {
            auto d = model::genDef(g, o);
            m.cmds[n] = d;
            env.bind(n, d);
        }
        size_t rounds = big(g, is("C13") ? 3000 : 6000);
        if (is("C13"))
        {
            // a command which always throws, in every case
            auto o1 = std::make_shared<model::Overload>();
            o1->ctx = true;
            o1->id = 1000;
            model::Action a;
            a.kind = model::Action::Throw;
            a.thrown.kind = 1 + static_cast<int>(g.below(model::throwKinds));
            a.thrown.what = a.thrown.kind <= 5 || a.thrown.kind == 8 ? "thrown" : "";
            o1->script.push_back(a);
            auto d = std::make_shared<model::Def>();
            d->overloads.push_back(o1);
            m.cmds["t"] = d;
            env.bind("t", d);
            if (g.chance(1, 3))
                rounds += 1100 + g.below(2500);
        }
        std::vector<std::string> texts;
        if (is("C13"))
            texts.push_back("t");
        for (int i = 0; i < 10; i++)
        {
            std::string t = g.pick(names);
            for (size_t k = g.below(3); k; k--)
                t += " " + std::to_string(g.below(10));
            texts.push_back(t);
        }
        texts.push_back("x");
        texts.push_back("'");
        texts.push_back("");
        texts.push_back("a ()");
        std::vector<std::unique_ptr<ref::Exact>> exact;
        for (auto& t : texts)
            exact.push_back(std::make_unique<ref::Exact>(t));
        size_t only = g.chance(1, 2) ? g.below(texts.size()) : texts.size();
        if (is("C13") && g.chance(2, 3))
            only = 0;
        for (size_t i = 0; i < rounds; i++)
        {
            size_t k = only < texts.size() && i + 20 < rounds ? only : g.below(texts.size());
            m.calls.clear();
            env.calls.clear();
            m.texts.clear();
            auto w = m.executeText(texts[k]);
            bool threw = false;
            coil::ExecutionResult r;
            try
            {
                r = env.b.execute(cv(*exact[k]));
            }
            catch (...)
            {
                threw = true;
                model::Thrown t = model::describeCurrent();
                VH_CHECK(w.open || (w.threw && t.kind == w.threw->kind && t.what == w.threw->what), "exception", "execution %zu of \"%s\": an exception (kind %d, \"%s\") escaped", i, texts[k].c_str(), t.kind, t.what.c_str());
            }
            if (w.open)
                return;
            VH_CHECK(threw == w.threw.has_value(), "exception", "execution %zu of \"%s\": no exception escaped", i, texts[k].c_str());
            if (!threw)
                model::compare(r, w, "execution " + std::to_string(i) + " of \"" + texts[k] + "\"", "session");
            VH_CHECK(env.calls == m.calls, "calls", "execution %zu of \"%s\": %zu calls, expected %zu (or others)", i, texts[k].c_str(), env.calls.size(), m.calls.size());
            vh::count("session-executions");
        }
        vh::observe(vh::mix(g.raw() ^ rounds));
    }

    // C04, C05, C26: a large registry
    struct Held
    {
        int id;
        vh::Tracked t;
        int operator()() const
        {
            t.check();
            return id;
        }
    };
    struct HeldWithArg
    {
        int id;
        vh::Tracked t;
        int operator()(unsigned short, coil::StringView) const { return id; }
    };
    void registry(vh::Gen& g)
    {
        vh::inst().reset();
        {
            auto b = std::make_unique<coil::Bindings>();
            std::map<std::string, std::pair<int, bool>> m;
            size_t count = big(g, 6000) + 1;
            int style = static_cast<int>(g.below(4));
            auto name = [&](size_t i) {
                switch (style)
                {
                case 0:
                    return "n" + std::to_string(i);
                case 1: // the same hash for names which differ in pairs
                {
                    std::string s = "p";
                    for (size_t k = 0; k < 13; k++)
                        s += (i >> k & 1) ? "aB" : "b!"; // 33*'a'+'B' == 33*'b'+'!'
                    return s;
                }
                case 2:
                    return std::string(i % 300, 'x') + std::to_string(i / 300);
                default:
                    return std::to_string(i) + std::string(1, '\0') + "z";
                }
            };
            if (style == 1)
                count = count > 300 ? 300 : count;
            auto bind = [&](size_t i, int id) {
                std::string n = name(i);
                bool arg = g.chance(1, 3);
                ref::Exact e(n);
                if (arg)
                    (*b)[cv(e)] = HeldWithArg{id, vh::Tracked(id)};
                else
                    (*b)[cv(e)] = Held{id, vh::Tracked(id)};
                m[n] = {id, arg};
            };
            auto check = [&](std::string const& n) {
                auto it = m.find(n);
                auto* c = b->get(cv(n));
                VH_CHECK((c != nullptr) == (it != m.end()), "lookup", "%s: %s among %zu commands", vh::esc(n).c_str(), c ? "found" : "not found", m.size());
                if (!c)
                    return;
                VH_CHECK(sv(c->name) == n, "name", "%s: the command is named \"%s\"", vh::esc(n).c_str(), vh::esc(sv(c->name)).c_str());
                VH_CHECK(c->functors.size() == 1 && c->functors[0].arity() == (it->second.second ? 2u : 0u) && sv(c->functors[0].returnType()) == "int", "metadata", "%s: %zu overloads", vh::esc(n).c_str(), c->functors.size());
                if (it->second.second)
                    VH_CHECK(c->functors[0].parameterTypes().size() == 2 && sv(c->functors[0].parameterTypes()[0]) == "unsigned short" && sv(c->functors[0].parameterTypes()[1]) == "string", "metadata", "%s: wrong types", vh::esc(n).c_str());
                coil::ExecutionInput in;
                in.name = cv(n);
                if (it->second.second)
                {
                    in.arguments.pushBack(coil::Value("1"));
                    in.arguments.pushBack(coil::Value("x"));
                }
                auto r = b->execute(coil::move(in));
                VH_CHECK(r.returnValue && ss(*r.returnValue) == std::to_string(it->second.first), "reached", "%s: {%s} instead of %d", vh::esc(n).c_str(), vh::esc(show(r)).c_str(), it->second.first);
                vh::count("large-lookups");
            };
            int id = 1;
            for (size_t i = 0; i < count; i++)
            {
                bind(i, id++);
                if (i % 257 == 0)
                    for (int k = 0; k < 5; k++)
                        check(name(g.below(count)));
            }
            for (size_t i = 0; i < count; i++)
                check(name(i));
            VH_CHECK(vh::inst().live.size() == m.size(), "owned", "%zu callables live, %zu commands bound", static_cast<size_t>(vh::inst().live.size()), m.size());
            for (size_t i = 0; i < count; i++)
            {
                std::string n = name(g.below(count));
                switch (g.below(4))
                {
                case 0:
                    bind(g.below(count), id++);
                    break;
                case 1:
                    b->remove(cv(n));
                    m.erase(n);
                    break;
                case 2:
                    (*b)[cv(n)] = nullptr;
                    m.erase(n);
                    break;
                default:
                    check(n);
                }
                if (i % 1024 == 1)
                {
                    auto other = std::make_unique<coil::Bindings>(coil::move(*b));
                    b = std::move(other);
                }
            }
            VH_CHECK(vh::inst().live.size() == m.size(), "owned", "%zu callables live, %zu commands bound", static_cast<size_t>(vh::inst().live.size()), m.size());
            for (size_t i = 0; i < count; i++)
                check(name(i));
            // the same thing again and again
            if (g.chance(1, 3))
            {
                size_t rep = repeats(g);
                bool each = rep < 3000 || g.chance(1, 4);
                size_t what = g.below(5);
                for (size_t i = 0; i < rep; i++)
                {
                    switch (what)
                    {
                    case 0:
                        b->clear();
                        m.clear();
                        break;
                    case 1:
                        b->clear();
                        m.clear();
                        bind(i % 2 * 3, id++);
                        break;
                    case 2:
                        bind(0, id++);
                        break;
                    case 3:
                        bind(0, id++);
                        b->remove(cv(name(0)));
                        m.erase(name(0));
                        break;
                    default:
                        check(name(0));
                    }
                    if (each)
                        for (size_t k = 0; k < 4; k++)
                            check(name(k));
                }
                for (int k = 0; k < 20; k++)
                    check(name(g.below(count)));
                for (int k = 0; k < 20; k++)
                    bind(g.below(count), id++);
                for (size_t i = 0; i < count; i++)
                    check(name(i));
                vh::count("repeated-operations", rep);
            }
            // down to nothing, in another order
            if (g.coin())
            {
                size_t step = 7919 % count ? 7919 : 1;
                size_t at = 0;
                for (size_t i = 0; i < count; i++, at = (at + step) % count)
                {
                    b->remove(cv(name(at)));
                    m.erase(name(at));
                    if (i % 64 == 0)
                        check(name(g.below(count)));
                }
            }
            else
            {
                b->clear();
                m.clear();
            }
            VH_CHECK(vh::inst().live.size() == m.size(), "owned", "%zu callables live, %zu commands bound", static_cast<size_t>(vh::inst().live.size()), m.size());
            for (int k = 0; k < 20; k++)
                check(name(g.below(count)));
            vh::observe(vh::mix(count * 4 + static_cast<size_t>(style)));
            vh::count("large-registries");
        }
        VH_CHECK(vh::inst().live.empty(), "owned", "%zu callables outlive their registry", static_cast<size_t>(vh::inst().live.size()));
    }

    // C06, C26: many overloads, many arguments
    void overloads(vh::Gen& g)
    {
        size_t n = big(g, 3000);
        static size_t const arities[] = {0, 1, 2, 3, 5, 8, 12, 20};
        coil::Vector<coil::AnyFunctor> f;
        std::vector<size_t> ar;
        std::vector<int> calls(n, 0);
        size_t kinds = 1 + g.below(8);
        for (size_t i = 0; i < n; i++)
        {
            size_t k = g.chance(1, 50) ? g.below(8) : g.below(kinds);
            ar.push_back(arities[k]);
            int* c = &calls[i];
            using V = coil::StringView;
            auto add = [&](auto fn) { f.pushBack(functor(coil::move(fn))); };
            switch (k)
            {
            case 0:
                add([c]() { ++*c; });
                break;
            case 1:
                add([c](V) { ++*c; });
                break;
            case 2:
                add([c](V, int) { ++*c; });
                break;
            case 3:
                add([c](coil::Context, V, V, V) { ++*c; });
                break;
            case 4:
                add([c](V, V, V, V, V) { ++*c; });
                break;
            case 5:
                add([c](V, V, V, V, V, V, V, V) { ++*c; });
                break;
            case 6:
                add([c](V, V, V, V, V, V, V, V, V, V, V, V) { ++*c; });
                break;
            default:
                add([c](V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V) { ++*c; });
            }
        }
        coil::Bindings b;
        b["f"] = coil::move(f);
        if (is("C26"))
        {
            auto* c = b.get("f");
            VH_CHECK(c && c->functors.size() == n, "overloads", "%zu overloads instead of %zu", c ? c->functors.size() : 0, n);
            for (size_t i = 0; i < n; i++)
            {
                VH_CHECK(c->functors[i].arity() == ar[i] && c->functors[i].parameterTypes().size() == ar[i] && sv(c->functors[i].returnType()) == "void", "overloads", "overload %zu of %zu", i, n);
                for (size_t k = 0; k < ar[i]; k++)
                    VH_CHECK(sv(c->functors[i].parameterTypes()[k]) == (ar[i] == 2 && k == 1 ? "int" : "string"), "types", "parameter %zu of %zu", k, ar[i]);
            }
        }
        for (int i = 0; i < 30; i++)
        {
            size_t k = g.chance(1, 6) ? big(g, 5000) : g.coin() ? g.pick(arities) : g.below(25);
            std::string text = "f";
            for (size_t j = 0; j < k; j++)
                text += " 7";
            std::fill(calls.begin(), calls.end(), 0);
            size_t want = 0;
            while (want < n && ar[want] != k)
                want++;
            ref::Exact e(text);
            auto r = b.execute(cv(e));
            for (size_t j = 0; j < n; j++)
                VH_CHECK(calls[j] == (j == want ? 1 : 0), "chosen", "%zu arguments: overload %zu of %zu (%zu parameters) ran %d times", k, j, n, ar[j], calls[j]);
            if (want < n)
                VH_CHECK(r.errors.empty(), "chosen", "%zu arguments: %s", k, vh::esc(show(r)).c_str());
            else
            {
                std::string s = "Wrong number of arguments to 'f': expected ";
                for (size_t j = 0; j < n; j++)
                    s += (j == 0 ? "" : j + 1 == n ? " or " : ", ") + std::to_string(ar[j]);
                s += ", got " + std::to_string(k);
                VH_CHECK(r.errors.size() == 1 && sv(r.errors[0]) == s, "message", "%zu arguments, %zu overloads: \"%s\"", k, n, vh::esc(show(r)).substr(0, 400).c_str());
            }
            vh::count("large-dispatches");
            vh::observe(vh::mix(n * 10007 + k));
        }
    }

    // C07, C10, C11, C16, C27: large values
    void values(vh::Gen& g)
    {
        coil::Bindings b;
        std::string gotText;
        std::vector<std::string> gotFields;
        std::vector<long> gotLongs;
        int calls = 0;
        b["text"] = [&](coil::StringView a, std::string const& s, coil::String c) {
            calls++;
            VH_CHECK(sv(a) == s && s == ss(c), "argument", "three copies of a text differ");
            gotText = s;
            return c;
        };
        b["value"] = [&](coil::Value const& v) {
            calls++;
            gotFields.clear();
            for (auto s : v.subvalues)
                gotFields.push_back(ss(s));
            return v;
        };
        b["vec"] = [&](std::vector<std::string> const& v) {
            calls++;
            gotFields = v;
            return v;
        };
        b["longs"] = [&](std::vector<long> v, std::optional<std::vector<std::string>> const& o) {
            calls++;
            gotLongs = v;
            gotFields = o ? *o : std::vector<std::string>{};
            return v;
        };
        auto exec = [&](std::string const& t) {
            note(t);
            calls = 0;
            ref::Exact e(t);
            auto r = b.execute(cv(e));
            r.input = coil::ExecutionInput();
            return r;
        };
        for (int i = 0; i < 4; i++)
        {
            std::string s = bytes(g, big(g, 400000));
            auto r = exec("text '" + s + "' '" + s + "' \"" + s + "\"");
            VH_CHECK(calls == 1 && gotText == s && r.returnValue && sv(*r.returnValue) == s && r.errors.empty(), "text", "a text of %zu characters: {%s}", s.size(), vh::esc(show(r)).substr(0, 300).c_str());
            bool one = !s.empty();
            r = exec("text () x y");
            VH_CHECK(calls == 0 && r.errors.size() == 1 && sv(r.errors[0]) == "Unable to convert '' to type 'string': Expected 1 subvalues, got 0", "error", "{%s}", vh::esc(show(r)).substr(0, 300).c_str());
            r = exec("text (" + s + " " + s + ") x y");
            if (one)
                VH_CHECK(calls == 0 && r.errors.size() == 1 && sv(r.errors[0]) == "Unable to convert '" + s + " " + s + "' to type 'string': Expected 1 subvalues, got 2", "error", "two fields of %zu characters: {%s}", s.size(), vh::esc(show(r)).substr(0, 300).c_str());
            vh::observe(vh::hashStr(s));
        }
        for (int i = 0; i < 4; i++)
        {
            size_t n = big(g, 12000);
            std::vector<std::string> f;
            std::vector<long> l;
            std::string joined, list, shown = "[", shownNum = "[", nums;
            for (size_t k = 0; k < n; k++)
            {
                f.push_back(bytes(g, g.chance(1, 50) ? g.below(300) : 1 + g.below(6)) + "_");
                l.push_back(static_cast<long>(g.u64()));
                joined += (k ? " " : "") + f[k];
                list += f[k] + ",";
                nums += std::to_string(l[k]) + ";";
                shown += (k ? ", " : "") + f[k];
                shownNum += (k ? ", " : "") + std::to_string(l[k]);
            }
            shown += "]";
            shownNum += "]";
            auto r = exec("value (" + list + ")");
            VH_CHECK(calls == 1 && gotFields == f && r.returnValue && sv(*r.returnValue) == joined, "value", "%zu fields: {%s}", n, vh::esc(show(r)).substr(0, 300).c_str());
            r = exec("vec (" + list + ")");
            VH_CHECK(calls == 1 && gotFields == f && r.returnValue && sv(*r.returnValue) == shown, "vector", "%zu fields: {%s}", n, vh::esc(show(r)).substr(0, 300).c_str());
            r = exec("longs (" + nums + ") (" + list + ")");
            VH_CHECK(calls == 1 && gotFields == f && gotLongs == l && r.returnValue && sv(*r.returnValue) == shownNum, "vector", "%zu numbers: {%s}", n, vh::esc(show(r)).substr(0, 300).c_str());
            if (n)
            {
                // one bad element
                size_t at = g.coin() ? n - 1 : g.below(n);
                std::string bn, bj;
                for (size_t k = 0; k < n; k++)
                {
                    std::string e = k == at ? "x7" : std::to_string(l[k]);
                    bn += e + ",";
                    bj += (k ? " " : "") + e;
                }
                r = exec("longs (" + bn + ") ()");
                VH_CHECK(calls == 0 && r.errors.size() == 1 && sv(r.errors[0]) == "Unable to convert '" + bj + "' to type 'vector<long>': Unable to convert 'x7' to type 'long'", "vector-error", "field %zu of %zu: {%s}", at, n, vh::esc(show(r)).substr(0, 300).c_str());
            }
            vh::observe(vh::hashStr(list));
            vh::count("large-values");
        }
    }

    // C16
    void namedArguments(vh::Gen& g)
    {
        coil::Bindings b;
        size_t n = big(g, 4000);
        size_t kinds = 1 + big(g, 4000);
        std::vector<std::pair<std::string, std::string>> args;
        std::string text = "f";
        for (size_t i = 0; i < n; i++)
        {
            args.emplace_back("k" + std::to_string(g.below(kinds)), g.chance(1, 40) ? "bad" : std::to_string(g.below(100000)));
            text += " " + args.back().first + "=" + args.back().second;
        }
        auto first = [&](std::string const& k) -> std::string const* {
            for (auto& a : args)
                if (a.first == k)
                    return &a.second;
            return nullptr;
        };
        size_t errors = 0;
        std::vector<std::string> want;
        b["f"] = [&](coil::Context ctx) {
            auto na = ctx.namedArgs();
            VH_CHECK(na.size() == n, "size", "%zu named arguments instead of %zu", na.size(), n);
            size_t i = 0;
            for (auto const& a : na)
            {
                VH_CHECK(i < n && sv(a.key) == args[i].first && a.value.subvalues.size() == 1 && sv(a.value.subvalues[0]) == args[i].second, "iteration", "named argument %zu of %zu", i, n);
                i++;
            }
            VH_CHECK(i == n, "iteration", "%zu of %zu", i, n);
            for (int t = 0; t < 60; t++)
            {
                std::string k = n && g.coin() ? args[g.below(n)].first : "k" + std::to_string(g.below(kinds + 5));
                auto* w = first(k);
                ref::Exact e(k);
                auto raw = na.get(cv(e));
                VH_CHECK(raw.hasValue() == (w != nullptr), "lookup", "%s among %zu", k.c_str(), n);
                if (w)
                    VH_CHECK(sv(static_cast<coil::Value const&>(*raw).subvalues[0]) == *w, "lookup", "%s among %zu is not the first one", k.c_str(), n);
                auto typed = na.getOrReport<int>(cv(e), coil::NamedArgs::ArgType::Required);
                bool ok = w && *w != "bad";
                VH_CHECK(typed.hasValue() == ok && (!ok || *typed == std::stoi(*w)), "typed", "%s among %zu", k.c_str(), n);
                if (!ok)
                    want.push_back(w ? "Unable to convert 'bad' to type 'int'" : "Missing named argument '" + k + "'");
                vh::count("large-lookups");
            }
            (void)errors;
        };
        note(text);
        ref::Exact e(text);
        auto r = b.execute(cv(e));
        VH_CHECK(r.errors.size() == want.size(), "errors", "%zu errors instead of %zu", r.errors.size(), want.size());
        for (size_t i = 0; i < want.size(); i++)
            VH_CHECK(sv(r.errors[i]) == want[i], "errors", "error %zu: %s instead of %s", i, vh::esc(sv(r.errors[i])).c_str(), want[i].c_str());
        vh::observe(vh::hashStr(text));
    }

    // C17
    void output(vh::Gen& g)
    {
        size_t n = big(g, 40000);
        size_t piece = g.chance(1, 3) ? big(g, 30000) : g.below(40);
        if (piece > 200 && n > 3000)
            n = 3000;
        while (n && piece * n > 30000000)
            n /= 2;
        std::string out;
        std::vector<std::string> errors;
        uint64_t seed = g.u64();
        coil::Bindings b;
        b["f"] = [&](coil::Context ctx) {
            vh::Gen h(seed);
            for (size_t i = 0; i < n; i++)
            {
                std::string s = bytes(h, h.coin() ? piece : h.below(piece + 1), h.chance(1, 8));
                switch (h.below(9))
                {
                case 0:
                case 1:
                case 2:
                    ctx.log(cs(s));
                    out += s;
                    break;
                case 3:
                    ctx.logline(cs(s));
                    out += s + "\n";
                    break;
                case 4:
                    s = bytes(h, s.size());
                    ctx.logf("<%s|%zu>", s.c_str(), i);
                    out += "<" + s + "|" + std::to_string(i) + ">";
                    break;
                case 5:
                    s = bytes(h, s.size());
                    ctx.loglinef("%s", s.c_str());
                    out += s + "\n";
                    break;
                case 6:
                    ctx.log("");
                    ctx.logline("");
                    out += "\n";
                    break;
                case 7:
                    ctx.reportError(cs(s));
                    errors.push_back(s);
                    break;
                default:
                    ctx.log("x");
                    out += "x";
                }
            }
        };
        auto r = b.execute("f");
        VH_CHECK(sv(r.output) == out, "output", "%zu calls with texts of up to %zu characters: the output has %zu characters, %zu expected (or others)", n, piece, r.output.length(), out.size());
        VH_CHECK(r.errors.size() == errors.size(), "errors", "%zu errors instead of %zu", r.errors.size(), errors.size());
        for (size_t i = 0; i < errors.size(); i++)
            VH_CHECK(sv(r.errors[i]) == errors[i], "errors", "error %zu of %zu", i, errors.size());
        vh::count("logged-characters", out.size());
        vh::observe(vh::mix(seed));
        // every length of a formatted text
        for (int i = 0; i < 200; i++)
        {
            std::string s = bytes(g, big(g, 20000));
            auto f = coil::sprintf("%s", s.c_str());
            VH_CHECK(sv(f) == s, "sprintf", "a formatted text of %zu characters", s.size());
            auto l = coil::sprintf("%d %s %g", 5, s.c_str(), 1.5);
            VH_CHECK(sv(l) == "5 " + s + " 1.5", "sprintf", "a formatted text of %zu characters", s.size() + 6);
        }
    }

    // C15
    void settings(vh::Gen& g)
    {
        struct Obj
        {
            int v = 0;
            std::string s;
            int sets = 0;
            std::string const& get() const { return s; }
            void set(std::string const& x)
            {
                sets++;
                s = x;
            }
        };
        size_t objects = 1 + big(g, 600);
        std::vector<Obj> o(objects), m(objects);
        coil::Bindings b;
        for (size_t i = 0; i < objects; i++)
        {
            b[cs("v" + std::to_string(i))] = coil::variable(&o[i].v);
            b[cs("p" + std::to_string(i))] = coil::bindProperty(&Obj::get, &Obj::set, &o[i]);
        }
        size_t steps = big(g, 5000);
        for (size_t k = 0; k < steps; k++)
        {
            size_t i = g.below(objects);
            std::string text, want;
            bool isV = g.coin();
            text = (isV ? "v" : "p") + std::to_string(i);
            if (g.coin())
            {
                if (isV)
                {
                    m[i].v = static_cast<int>(g.u64());
                    text += " " + std::to_string(m[i].v);
                }
                else
                {
                    m[i].s = bytes(g, g.chance(1, 20) ? big(g, 5000) : g.below(20)) + "_";
                    m[i].sets++;
                    text += " " + m[i].s;
                }
            }
            else if (g.chance(1, 4))
                o[i].v = m[i].v = static_cast<int>(k);
            want = isV ? std::to_string(m[i].v) : m[i].s;
            ref::Exact e(text);
            auto r = b.execute(cv(e));
            VH_CHECK(r.returnValue && sv(*r.returnValue) == want && r.errors.empty(), "value", "step %zu, \"%s\": {%s}", k, vh::esc(text).substr(0, 100).c_str(), vh::esc(show(r)).substr(0, 300).c_str());
            VH_CHECK(o[i].v == m[i].v && o[i].s == m[i].s && o[i].sets == m[i].sets, "object", "step %zu, \"%s\"", k, vh::esc(text).substr(0, 100).c_str());
            vh::count("session-executions");
        }
        for (size_t i = 0; i < objects; i++)
            VH_CHECK(o[i].v == m[i].v && o[i].s == m[i].s && o[i].sets == m[i].sets, "object", "object %zu of %zu at the end", i, objects);
        vh::observe(vh::mix(objects * 100003 + steps));
    }

    // C19: depth
    struct Deep
    {
        vh::Gen* g;
    };
    void depthBody(vh::Gen& g)
    {
        size_t depth = big(g, 1100);
        coil::Bindings b;
        size_t at = 0, reached = 0;
        bool mutate = g.coin();
        b["f"] = [&](coil::Context ctx, size_t d) -> size_t {
            reached++;
            ctx.loglinef("in %zu", d);
            if (mutate)
            {
                b[cs("t" + std::to_string(d))] = [d]() { return d; };
                if (d % 3 == 0)
                    b.remove(cs("t" + std::to_string(d + 1)));
            }
            size_t below = 0;
            if (d > 0)
            {
                std::string t = "f " + std::to_string(d - 1);
                ref::Exact e(t);
                auto r = b.execute(cv(e));
                VH_CHECK(r.errors.empty() && r.returnValue, "inner", "depth %zu of %zu: {%s}", d, depth, vh::esc(show(r)).substr(0, 300).c_str());
                below = std::stoul(ss(*r.returnValue));
                std::string out = "in " + std::to_string(d - 1) + "\nout " + std::to_string(d - 1);
                VH_CHECK(sv(r.output) == out, "inner-output", "depth %zu of %zu: \"%s\"", d, depth, vh::esc(sv(r.output)).substr(0, 300).c_str());
                VH_CHECK(sv(r.input.name) == "f" && r.input.arguments.size() == 1 && sv(r.input.arguments[0].subvalues[0]) == std::to_string(d - 1), "inner-input", "depth %zu of %zu", d, depth);
                r.input = coil::ExecutionInput();
            }
            else
                at = depth;
            VH_CHECK(!ctx.hasErrors(), "leaked-errors", "depth %zu of %zu", d, depth);
            ctx.logf("out %zu", d);
            return below + 1;
        };
        std::string t = "f " + std::to_string(depth);
        ref::Exact e(t);
        auto r = b.execute(cv(e));
        VH_CHECK(reached == depth + 1 && r.errors.empty() && r.returnValue && ss(*r.returnValue) == std::to_string(depth + 1), "outer", "depth %zu: {%s}", depth, vh::esc(show(r)).substr(0, 300).c_str());
        VH_CHECK(ss(r.output) == "in " + std::to_string(depth) + "\nout " + std::to_string(depth), "outer-output", "depth %zu", depth);
        if (mutate)
            for (size_t d = 0; d <= depth; d++)
            {
                bool gone = d > 0 && (d - 1) % 3 == 0;
                VH_CHECK((b.get(cs("t" + std::to_string(d))) != nullptr) == !gone, "registry", "command t%zu after depth %zu", d, depth);
            }
        // one command which executes thousands
        size_t n = big(g, 6000);
        size_t ran = 0;
        b["one"] = [&](size_t i) {
            ran++;
            return i;
        };
        b["many"] = [&](coil::Context ctx) {
            for (size_t i = 0; i < n; i++)
            {
                std::string s = "one " + std::to_string(i);
                ref::Exact x(s);
                auto in = b.execute(cv(x));
                VH_CHECK(in.returnValue && ss(*in.returnValue) == std::to_string(i) && in.errors.empty() && sv(in.output).empty(), "inner", "execution %zu of %zu", i, n);
                if (i % 16 == 0)
                {
                    std::string w = "x" + std::to_string(i);
                    b[cv(w)] = [i]() { return i; };
                }
                if (i % 100 == 5)
                    ctx.log("x");
            }
            return ran;
        };
        auto rm = b.execute("many");
        VH_CHECK(rm.returnValue && ss(*rm.returnValue) == std::to_string(n) && rm.errors.empty() && sv(rm.output) == std::string((n + 94) / 100, 'x'), "outer", "%zu executions: {%s}", n, vh::esc(show(rm)).substr(0, 300).c_str());
        vh::count("depth", depth);
        vh::count("inner-executions", n);
        vh::observe(vh::mix(depth * 10007 + n));
    }
    void* depthThread(void* p)
    {
        depthBody(*static_cast<Deep*>(p)->g);
        return nullptr;
    }
    void depth(vh::Gen& g)
    {
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, size_t(768) << 20);
        Deep d{&g};
        pthread_t t;
        if (pthread_create(&t, &a, depthThread, &d) != 0)
            abort();
        pthread_join(t, nullptr);
        pthread_attr_destroy(&a);
    }

    // C20, C21, C22
    void vectors(vh::Gen& g)
    {
        coil::Vector<int> v;
        std::vector<int> m;
        coil::Vector<coil::String> s;
        std::vector<std::string> ms;
        for (int round = 0; round < 6; round++)
        {
            size_t n = big(g, 130000);
            switch (g.below(5))
            {
            case 0:
                for (size_t i = 0; i < n; i++)
                {
                    v.pushBack(static_cast<int>(i * 7));
                    m.push_back(static_cast<int>(i * 7));
                }
                break;
            case 1:
                v.resize(n);
                {
                    size_t old = m.size();
                    m.resize(n);
                    for (size_t i = old; i < n; i++)
                        v[i] = m[i] = static_cast<int>(i); // new elements of trivial types are not initialised
                }
                break;
            case 2:
                v.reserve(n);
                VH_CHECK(v.capacity() >= n, "capacity", "reserve(%zu) leaves %zu", n, v.capacity());
                break;
            case 3:
                for (size_t i = 0; i < n && !m.empty(); i++)
                {
                    v.popBack();
                    m.pop_back();
                }
                break;
            default:
            {
                coil::Vector<int> c = v;
                if (!c.empty())
                    c[c.size() - 1]++;
                VH_CHECK(c.size() == v.size() && (v.empty() || !(c == v)), "copy", "a copy of %zu elements", v.size());
                v = coil::Vector<int>(v.begin(), v.end());
            }
            }
            VH_CHECK(v.size() == m.size() && v.empty() == m.empty(), "size", "%zu instead of %zu", v.size(), m.size());
            VH_CHECK(m.empty() || memcmp(v.data(), m.data(), m.size() * sizeof(int)) == 0, "elements", "of %zu", m.size());
            size_t k = big(g, 5000);
            for (size_t i = 0; i < k; i++)
            {
                std::string t = bytes(g, g.chance(1, 100) ? big(g, 2000) : g.below(8));
                s.pushBack(cs(t));
                ms.push_back(t);
                if (i % 5 == 4)
                {
                    s.pushBack(s[g.below(s.size())]);
                    size_t last = s.size() - 1;
                    ms.push_back(ss(s[last]));
                }
            }
            if (g.chance(1, 4))
            {
                size_t q = g.below(ms.size() + 1);
                s.resize(q);
                ms.resize(q);
            }
            VH_CHECK(s.size() == ms.size(), "size", "%zu instead of %zu", s.size(), ms.size());
            for (size_t i = 0; i < ms.size(); i++)
                VH_CHECK(sv(s[i]) == ms[i], "elements", "string %zu of %zu", i, ms.size());
            vh::count("large-sequences");
            vh::observe(vh::mix(m.size() * 31 + ms.size()));
        }
    }
    void strings(vh::Gen& g)
    {
        coil::String s;
        std::string m;
        for (int round = 0; round < 24; round++)
        {
            std::string t = bytes(g, big(g, 140000), true);
            ref::Exact e(t);
            switch (g.below(7))
            {
            case 0:
                s += cv(e);
                m += t;
                break;
            case 1:
                s = cs(t);
                m = t;
                break;
            case 2:
                s.reserve(t.size());
                break;
            case 3:
                if (m.size() > t.size())
                {
                    s.resize(t.size());
                    m.resize(t.size());
                }
                break;
            case 4:
                if (m.size() < 700000)
                {
                    s += s;
                    m += m;
                }
                break;
            case 5:
                for (size_t i = 0; i < t.size() && i < 5000; i++)
                {
                    s += t[i];
                    m += t[i];
                }
                break;
            default:
            {
                coil::String c = s;
                c += '!';
                VH_CHECK(sv(c) == m + "!" && sv(s) == m, "copy", "of %zu characters", m.size());
                VH_CHECK(!(c == s) && s == cv(m), "compare", "%zu characters", m.size());
                std::string d = m;
                if (!d.empty())
                {
                    d[g.coin() ? d.size() - 1 : g.below(d.size())] ^= 1;
                    VH_CHECK(!(s == cv(d)) && !(cv(d) == cv(m)) && cv(d) != cv(m), "compare", "%zu characters, one of which differs", m.size());
                }
                VH_CHECK(coil::Hash<coil::String>{}(s) == coil::Hash<coil::StringView>{}(cv(m)), "hash", "%zu characters", m.size());
            }
            }
            VH_CHECK(s.length() == m.size() && sv(s) == m && s.empty() == m.empty(), "bytes", "%zu instead of %zu characters (or others)", s.length(), m.size());
            vh::count("large-strings");
            vh::observe(vh::hashStr(m));
        }
    }
    void maps(vh::Gen& g)
    {
        coil::UnorderedMap<coil::String, size_t> c(g.chance(1, 3) ? big(g, g.chance(1, 3) ? 300000 : 5000) : 1, g.chance(1, 3) ? static_cast<float>(0.1 + static_cast<double>(g.below(50)) / 10) : 1.0f);
        std::unordered_map<std::string, size_t> m;
        size_t n = big(g, g.chance(1, 12) ? 150000 : 20000);
        auto key = [&](size_t i) { return (i % 3 ? "k" : "") + std::to_string(i); };
        auto check = [&](std::string const& k) {
            auto it = c.find(cv(k));
            auto w = m.find(k);
            VH_CHECK((it != c.end()) == (w != m.end()), "lookup", "%s among %zu", k.c_str(), m.size());
            if (w != m.end())
                VH_CHECK(sv(it->key()) == k && it->value() == w->second, "value", "%s among %zu", k.c_str(), m.size());
            vh::count("large-lookups");
        };
        for (size_t i = 0; i < n; i++)
        {
            size_t x = g.below(n) + 1;
            std::string k = key(x);
            switch (g.below(8))
            {
            case 0:
            case 1:
                c.erase(cv(k));
                m.erase(k);
                break;
            case 2:
                check(k);
                break;
            default:
                c.insertOrAssign(cs(k), i);
                m[k] = i;
            }
        }
        auto all = [&](coil::UnorderedMap<coil::String, size_t> const& x) {
            VH_CHECK(x.size() == m.size(), "size", "%zu instead of %zu", x.size(), m.size());
            size_t seen = 0;
            std::unordered_map<std::string, int> once;
            for (auto const& p : x)
            {
                auto w = m.find(ss(p.key()));
                VH_CHECK(w != m.end() && w->second == p.value() && once[ss(p.key())]++ == 0, "iteration", "%s among %zu", ss(p.key()).c_str(), m.size());
                seen++;
            }
            VH_CHECK(seen == m.size(), "iteration", "%zu of %zu", seen, m.size());
        };
        all(c);
        for (size_t i = 0; i <= n; i++)
            check(key(i + 1));
        auto copy = c;
        c.clear();
        VH_CHECK(c.size() == 0 && c.find(cv(key(1))) == c.end(), "clear", "%zu entries", c.size());
        all(copy);
        {
            // the same thing again and again
            auto r = copy;
            auto keep = m;
            size_t rep = repeats(g);
            bool each = rep < 3000 || g.chance(1, 4);
            size_t what = g.below(5);
            for (size_t i = 0; i < rep; i++)
            {
                std::string k = key(i % 3 + 1);
                switch (what)
                {
                case 0:
                    r.clear();
                    m.clear();
                    break;
                case 1:
                    r.clear();
                    m.clear();
                    r.insertOrAssign(cs(k), i);
                    m[k] = i;
                    break;
                case 2:
                    r.insertOrAssign(cs(k), i);
                    m[k] = i;
                    break;
                case 3:
                    r.insertOrAssign(cs(k), i);
                    r.erase(cv(k));
                    m.erase(k);
                    break;
                default:
                {
                    auto other = coil::move(r);
                    r = coil::UnorderedMap<coil::String, size_t>();
                    if (i < 20)
                        r = other;
                    else
                        r = coil::move(other);
                }
                }
                if (each)
                    for (size_t x = 1; x <= 4; x++)
                    {
                        auto it = r.find(cv(key(x)));
                        auto w = m.find(key(x));
                        VH_CHECK((it != r.end()) == (w != m.end()) && (w == m.end() || it->value() == w->second), "repeated", "%s among %zu after %zu repetitions", key(x).c_str(), m.size(), i + 1);
                    }
            }
            vh::count("repeated-operations", rep);
            for (size_t x = 1; x <= n && x <= 300; x++)
            {
                auto it = r.find(cv(key(x)));
                VH_CHECK((it != r.end()) == (m.find(key(x)) != m.end()), "repeated", "%s among %zu after %zu repetitions", key(x).c_str(), m.size(), rep);
                if (x % 3 == 0)
                {
                    r.insertOrAssign(cs(key(x)), x);
                    m[key(x)] = x;
                }
            }
            all(r);
            m = keep;
        }
        c = coil::move(copy);
        for (size_t i = 0; i <= n; i++)
        {
            std::string k = key((i * 7919) % (n + 1) + 1);
            c.erase(cv(k));
            m.erase(k);
            if (i % 97 == 0)
                check(key(g.below(n) + 1));
        }
        all(c);
        vh::observe(vh::mix(n));
    }

    // C25
    struct Counting : coil::Lexer
    {
        size_t* calls;
        char const** base;
        coil::DefaultLexer l;
        Counting(size_t* c, char const** b) : calls(c), base(b) {}
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView s) const override
        {
            ++*calls;
            *base = s.data();
            return l.parse(s);
        }
    };
    void lexers(vh::Gen& g)
    {
        coil::Bindings b;
        size_t calls = 0;
        char const* base = nullptr;
        b["f"] = [](std::vector<long> const& v) { return v.size(); };
        b["n"] = [](coil::Context ctx) { return ctx.namedArgs().size(); };
        b.setLexer(coil::makeUnique<Counting>(&calls, &base));
        size_t rounds = big(g, 4000);
        for (size_t i = 0; i < rounds; i++)
        {
            if (g.chance(1, 500))
                b.setLexer(coil::makeUnique<Counting>(&calls, &base));
            std::string t = i % 3 == 0 ? "f (1,2)" : i % 3 == 1 ? "n k=1 l=2" : "f ('";
            ref::Exact e(t);
            calls = 0;
            auto r = b.execute(cv(e));
            VH_CHECK(calls == 1 && base == e.p, "consulted", "execution %zu: the lexer was asked %zu times", i, calls);
            bool ok = i % 3 == 2 ? r.errors.size() == 1 && ss(r.errors[0]).rfind("Syntax error: Token '(' ", 0) == 0 : r.errors.empty() && r.returnValue && sv(*r.returnValue) == "2";
            VH_CHECK(ok, "result", "execution %zu of \"%s\": {%s}", i, t.c_str(), vh::esc(show(r)).c_str());
            if (i % 7 == 0)
            {
                coil::ExecutionInput in;
                in.name = "n";
                in.namedArguments.pushBack(coil::NamedValue{"a", coil::Value("b")});
                calls = 0;
                auto p = b.execute(coil::move(in));
                VH_CHECK(calls == 0 && p.returnValue && sv(*p.returnValue) == "1", "prepared", "execution %zu of an input: {%s}", i, vh::esc(show(p)).c_str());
            }
            vh::count("session-executions");
        }
        // long texts
        for (int i = 0; i < 3; i++)
        {
            std::string t = longText(g, g.coin() ? "f" : "n");
            note(t);
            ref::Exact e(t);
            calls = 0;
            auto r = b.execute(cv(e));
            VH_CHECK(calls == 1 && base == e.p, "consulted", "a text of %zu characters: the lexer was asked %zu times", t.size(), calls);
            auto p = coil::DefaultLexer().parse(cv(e));
            if (p)
            {
                checkInput(t, e.p, r.input, ref::parse(t), false, "input");
                auto r2 = b.execute(*coil::move(p));
                VH_CHECK(show(r) == show(r2), "text-vs-input", "a text of %zu characters: {%s} and {%s}", t.size(), vh::esc(show(r)).substr(0, 300).c_str(), vh::esc(show(r2)).substr(0, 300).c_str());
            }
            else
                VH_CHECK(r.errors.size() == 1 && ss(r.errors[0]) == "Syntax error: " + ss(p.error()), "syntax-error", "a text of %zu characters", t.size());
            vh::observe(vh::hashStr(t));
        }
    }
}

void vh_warmup() { world::World w; }
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

namespace
{
void scenario(vh::Gen& g)
{
    if (is("C01"))
        worldLong(g);
    else if (is("C02") || is("C03"))
        for (int i = 0; i < 4; i++)
            parseLong(g, is("C03"));
    else if (is("C04") || is("C05"))
        registry(g);
    else if (is("C06"))
        overloads(g);
    else if (is("C26"))
        g.coin() ? registry(g) : overloads(g);
    else if (is("C07"))
        g.coin() ? values(g) : session(g);
    else if (is("C10") || is("C11"))
        values(g);
    else if (is("C12") || is("C13"))
        session(g);
    else if (is("C15"))
        settings(g);
    else if (is("C16"))
        namedArguments(g);
    else if (is("C17"))
        output(g);
    else if (is("C19"))
        g.coin() ? session(g) : depth(g);
    else if (is("C20"))
        vectors(g);
    else if (is("C21"))
        strings(g);
    else if (is("C22"))
        maps(g);
    else if (is("C25"))
        lexers(g);
}
void* scenarioThread(void* p)
{
    scenario(*static_cast<vh::Gen*>(p));
    return nullptr;
}
}

// on a thread with a modest stack: what the library does with a long input must not need a stack in proportion to it
void vh_case(vh::Gen& g)
{
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, size_t(1) << 20);
    pthread_t t;
    if (pthread_create(&t, &a, scenarioThread, &g) != 0)
        abort();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&a);
}
