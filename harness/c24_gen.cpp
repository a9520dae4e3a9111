// C24: writes the workload which all the differently built programs execute.  All random choices are made here.
#define VH_NO_MAIN_DEFS
#include "world.h"

namespace
{
    using Op = std::vector<std::string>;
    std::vector<std::string> const names = {"a", "b", "cmd", "other", "%s", "with space", "UPPER", "EzEz", "EzFY", "FYEz", "FYFY", "", "x\xff", "long name of a command which does not fit in any small buffer"};
    std::string anyText(vh::Gen& g, size_t max)
    {
        std::string s;
        size_t n = g.chance(1, 12) ? g.logsize(max * 10) : g.below(max + 1);
        int kind = static_cast<int>(g.below(4));
        for (size_t i = 0; i < n; i++)
            s += kind == 0 ? static_cast<char>(g.below(256)) : kind == 1 ? "%sdn '\"(,)="[g.below(11)] : static_cast<char>('a' + g.below(26));
        return s;
    }
    std::string line(std::string s)
    {
        for (auto& c : s)
            if (c == '\n' || c == '\1')
                c = '.';
        return s;
    }
    std::string number(vh::Gen& g)
    {
        static char const* const w[] = {"0", "-0", "+1", "1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-1", " 1", "1 ", "", "x", "1x", "0x10", "1e3", "1.5", ".5", "5.", "nan", "inf", "-inf", "1e400", "1e39", "true", "TRUE", "False", "0x1p4", "3.4028235e38", "0.1", "1e-3", "123456.789", "999999999999"};
        switch (g.below(4))
        {
        case 0:
            return std::to_string(static_cast<long long>(g.u64()) >> g.below(64));
        case 1:
        {
            char b[64];
            double d = static_cast<double>(g.range(-1000000000, 1000000000)) / static_cast<double>(1 + g.below(100000));
            snprintf(b, sizeof b, "%.*g", static_cast<int>(1 + g.below(17)), d);
            return b;
        }
        default:
            return g.pick(w);
        }
    }
    std::string script(vh::Gen& g, int depth)
    {
        std::string s;
        size_t n = g.below(6);
        for (size_t i = 0; i < n; i++)
        {
            if (i)
                s += '\n';
            size_t k = g.below(depth > 0 ? 10 : 13);
            s += "lLfFeerhnkxbu"[k];
            switch (k)
            {
            case 10:
            {
                std::string name = g.pick(names);
                s += line(g.coin() ? name + " 1 x=2" : ref::command(g, {}, 30, true, name.c_str()));
                break;
            }
            case 11:
                s += g.pick(names) + "\1" + std::string(1, static_cast<char>('0' + g.below(10))) + "\1";
                {
                    std::string inner = script(g, depth + 1);
                    for (auto& c : inner)
                        if (c == '\n')
                            c = '\2';
                    s += inner;
                }
                break;
            case 12:
                s += g.pick(names);
                break;
            case 9:
                s += g.coin() ? "x" : line(ref::word(g, 4, false));
                break;
            default:
                s += line(anyText(g, 30));
            }
        }
        return s;
    }
    std::string text(vh::Gen& g, ref::LexCfg const& cfg)
    {
        if (g.chance(1, 3))
        {
            std::string s = g.pick(names);
            if (s.find(' ') != std::string::npos || s.empty())
                s = "'" + s + "'";
            size_t n = g.below(4);
            for (size_t i = 0; i < n; i++)
            {
                s += ' ';
                s += g.coin() ? number(g) : ref::argument(g, cfg, 12, false);
            }
            n = g.below(3);
            for (size_t i = 0; i < n; i++)
            {
                s += g.coin() ? " x=" : " key=";
                s += g.coin() ? number(g) : ref::argument(g, cfg, 12, false);
            }
            return s;
        }
        std::string name = g.pick(names);
        return ref::command(g, cfg, 40, true, name.c_str());
    }
    std::string slot(vh::Gen& g) { return std::string(1, static_cast<char>('0' + g.below(4))); }
    std::string str(uint64_t n) { return std::to_string(n); }
    void fields(vh::Gen& g, Op& op)
    {
        size_t n = g.chance(3, 4) ? 1 : g.below(5);
        op.push_back(str(n));
        for (size_t i = 0; i < n; i++)
            op.push_back(g.chance(2, 3) ? number(g) : anyText(g, 20));
    }
    std::vector<Op> generate(vh::Gen& g)
    {
        std::vector<Op> ops;
        ref::LexCfg cfg;
        int focus = static_cast<int>(g.below(6)); // what most of the steps are about
        size_t steps = 10 + g.below(40);
        bool worldLexer = false;
        for (size_t i = 0; i < steps; i++)
        {
            int kind = static_cast<int>(g.chance(2, 3) ? focus : static_cast<int>(g.below(6)));
            Op op;
            switch (kind)
            {
            case 0: // scripted commands
            case 1:
                switch (g.below(10))
                {
                case 0:
                case 1:
                case 2:
                {
                    op = {"bind", g.pick(names), str(g.below(24)), script(g, 0)};
                    break;
                }
                case 3:
                    switch (g.below(8))
                    {
                    case 0:
                        op = {"clear"};
                        break;
                    case 1:
                        op = {"move"};
                        break;
                    case 2:
                        op = {"meta", g.pick(names)};
                        break;
                    case 3:
                        cfg = g.coin() ? ref::config(g) : ref::LexCfg{};
                        op = {"lexer", cfg.group, cfg.quotes, cfg.seps, cfg.spaces};
                        break;
                    case 4:
                        op = {"kept"};
                        break;
                    default:
                        op = {"unbind", g.pick(names)};
                    }
                    break;
                case 4:
                case 5:
                {
                    op = {"input", g.pick(names)};
                    size_t n = g.below(5);
                    op.push_back(str(n));
                    for (size_t j = 0; j < n; j++)
                        fields(g, op);
                    n = g.below(3);
                    op.push_back(str(n));
                    for (size_t j = 0; j < n; j++)
                    {
                        op.push_back(g.coin() ? "x" : g.coin() ? "key" : anyText(g, 8));
                        fields(g, op);
                    }
                    break;
                }
                default:
                    op = {"exec", text(g, cfg)};
                }
                break;
            case 2: // the registry of all kinds of commands
                if (!worldLexer && g.chance(1, 60))
                {
                    worldLexer = true;
                    auto c = ref::config(g);
                    op = {"wlexer", c.group, c.quotes, c.seps, c.spaces};
                }
                else if (g.chance(1, 6))
                    op = {"wmeta", g.pick(world::names())};
                else
                    op = {"world", world::text(g)};
                break;
            case 3: // lexers
            {
                if (g.chance(1, 3))
                {
                    auto c = g.coin() ? ref::LexCfg{} : ref::config(g);
                    op = {"parse", c.group, c.quotes, c.seps, c.spaces, ref::command(g, c, 60)};
                }
                else
                    op = {"parse", "()", "'\"", ",;|", " \t", ref::command(g, {}, 60)};
                break;
            }
            case 4: // conversions and messages
                switch (g.below(3))
                {
                case 0:
                {
                    op = {"value", str(g.below(26))};
                    fields(g, op);
                    break;
                }
                case 1:
                    op = {"conv", g.chance(1, 5) ? anyText(g, 12) : number(g)};
                    break;
                default:
                    op = {"format", str(g.below(8)), anyText(g, g.chance(1, 6) ? 400 : 30), str(g.below(400)), str(g.u64() >> g.below(64))};
                }
                break;
            default: // containers
                switch (g.below(4))
                {
                case 0:
                case 1:
                    op = {"string", slot(g), str(g.below(14)), slot(g), anyText(g, 20), str(g.below(100))};
                    break;
                case 2:
                    op = {"vector", slot(g), str(g.below(10)), slot(g), anyText(g, 10), str(g.below(20))};
                    break;
                default:
                    op = {"map", slot(g), str(g.below(7)), g.coin() ? g.pick(names) : str(g.below(40)), anyText(g, 10)};
                }
            }
            ops.push_back(op);
        }
        return ops;
    }
    void put(FILE* f, uint32_t n) { fwrite(&n, 4, 1, f); }
}

// c24_gen OUT seed from to
int main(int argc, char** argv)
{
    if (argc != 5)
        return 2;
    FILE* f = fopen(argv[1], "wb");
    if (!f)
        return 2;
    vh::st().seed = strtoull(argv[2], nullptr, 10);
    uint64_t from = strtoull(argv[3], nullptr, 10), to = strtoull(argv[4], nullptr, 10);
    for (uint64_t i = from; i < to; i++)
    {
        vh::Gen g(vh::mix(vh::mix(vh::st().seed * 1000003ull + 24) ^ vh::mix(i)));
        auto ops = generate(g);
        put(f, static_cast<uint32_t>(ops.size()));
        for (auto& op : ops)
        {
            put(f, static_cast<uint32_t>(op.size()));
            for (auto& s : op)
            {
                put(f, static_cast<uint32_t>(s.size()));
                fwrite(s.data(), 1, s.size(), f);
            }
        }
    }
    if (fclose(f) != 0)
        return 2;
    printf("VH-DONE\n");
    return 0;
}
