// Reference model of argument conversion and of textual forms, plus generators of argument texts.
#pragma once

#include "coilcmp.h"

#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include <type_traits>

namespace ref
{
    using Fields = std::vector<std::string>;

    inline std::string join(Fields const& f, char const* sep = " ")
    {
        std::string r;
        for (size_t i = 0; i < f.size(); i++)
            r += (i ? sep : "") + f[i];
        return r;
    }

    struct CR
    {
        bool ok = false;
        bool open = false; // left open by the property
        std::string canon; // canonical form of the value
        std::string err;
        bool hasNul = false;
    };
    inline CR good(std::string c)
    {
        CR r;
        r.ok = true;
        r.canon = std::move(c);
        return r;
    }
    inline CR bad(Fields const& f, std::string const& type, std::string const& details = "")
    {
        CR r;
        std::string j = join(f);
        r.hasNul = j.find('\0') != std::string::npos || details.find('\0') != std::string::npos;
        r.err = "Unable to convert '" + j + "' to type '" + type + "'" + (details.empty() ? "" : ": " + details);
        return r;
    }
    inline CR badCount(Fields const& f, std::string const& type, size_t want = 1) { return bad(f, type, "Expected " + std::to_string(want) + " subvalues, got " + std::to_string(f.size())); }

    inline bool errMatches(std::string_view got, CR const& want)
    {
        if (!want.hasNul)
            return got == want.err;
        // "%s" cuts the text at a NUL
        return got.substr(0, 19) == "Unable to convert '";
    }

    inline bool isSpaceC(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

    // the decimal syntax of strtol, over the whole text
    inline bool parseInt(std::string_view s, bool isUnsigned, bool& neg, unsigned __int128& mag, bool& huge)
    {
        size_t i = 0;
        neg = huge = false;
        mag = 0;
        while (i < s.size() && isSpaceC(s[i]))
            i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
        {
            neg = s[i] == '-';
            if (neg && isUnsigned)
                return false;
            i++;
        }
        if (i >= s.size())
            return false;
        for (; i < s.size(); i++)
        {
            if (s[i] < '0' || s[i] > '9')
                return false;
            mag = mag * 10 + static_cast<unsigned>(s[i] - '0');
            if (mag > (static_cast<unsigned __int128>(1) << 100))
            {
                mag = static_cast<unsigned __int128>(1) << 100;
                huge = true;
            }
        }
        return true;
    }
    inline std::string dec(unsigned __int128 v)
    {
        std::string s;
        do
        {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            v /= 10;
        } while (v);
        return s;
    }
    template<typename T>
    std::string intText(T v)
    {
        if constexpr (std::is_signed_v<T>)
            if (v < 0)
                return "-" + dec(static_cast<unsigned __int128>(-static_cast<__int128>(v)));
        return dec(static_cast<unsigned __int128>(v));
    }

    // C floating-point syntax over the whole text (after optional white space and sign)
    inline bool floatSyntax(std::string_view s)
    {
        size_t i = 0;
        while (i < s.size() && isSpaceC(s[i]))
            i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            i++;
        std::string_view r = s.substr(i);
        auto ieq = [](std::string_view a, char const* b) {
            if (a.size() != strlen(b))
                return false;
            for (size_t k = 0; k < a.size(); k++)
                if ((a[k] | 32) != b[k] || !((a[k] >= 'a' && a[k] <= 'z') || (a[k] >= 'A' && a[k] <= 'Z')))
                    return false;
            return true;
        };
        if (ieq(r, "inf") || ieq(r, "infinity") || ieq(r, "nan"))
            return true;
        if (r.size() >= 5 && ieq(r.substr(0, 3), "nan") && r[3] == '(' && r.back() == ')')
        {
            for (char c : r.substr(4, r.size() - 5))
                if (!(c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
                    return false;
            return true;
        }
        bool hex = r.size() > 2 && r[0] == '0' && (r[1] == 'x' || r[1] == 'X');
        if (hex)
            r = r.substr(2);
        auto digit = [&](char c) { return (c >= '0' && c <= '9') || (hex && ((c | 32) >= 'a' && (c | 32) <= 'f') && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))); };
        size_t k = 0, digits = 0;
        while (k < r.size() && digit(r[k]))
            k++, digits++;
        if (k < r.size() && r[k] == '.')
        {
            k++;
            while (k < r.size() && digit(r[k]))
                k++, digits++;
        }
        if (!digits)
            return false;
        if (k < r.size() && (hex ? (r[k] == 'p' || r[k] == 'P') : (r[k] == 'e' || r[k] == 'E')))
        {
            k++;
            if (k < r.size() && (r[k] == '+' || r[k] == '-'))
                k++;
            size_t e = 0;
            while (k < r.size() && r[k] >= '0' && r[k] <= '9')
                k++, e++;
            if (!e)
                return false;
        }
        return k == r.size();
    }
    template<typename T>
    T strtox(char const* s)
    {
        if constexpr (std::is_same_v<T, float>)
            return strtof(s, nullptr);
        else if constexpr (std::is_same_v<T, double>)
            return strtod(s, nullptr);
        else
            return strtold(s, nullptr);
    }
    template<typename T>
    std::string floatCanon(T v)
    {
        if (std::isnan(v))
            return "nan";
        char b[128];
        snprintf(b, sizeof b, "%La", static_cast<long double>(v));
        return b;
    }
    template<typename T>
    std::string floatText(T v)
    {
        if (std::fabs(static_cast<long double>(v)) < 1e-6 && !std::isnan(v))
            return "0";
        char b[128];
        snprintf(b, sizeof b, "%Lg", static_cast<long double>(v)); // same digits: the value is converted exactly
        return b;
    }

    // ---- per type ---------------------------------------------------------------------------
    template<typename T, typename = void>
    struct Conv;

#define VH_INT_NAME(T, N)       \
    template<>                  \
    struct IntName<T>           \
    {                           \
        static constexpr char const* v = N; \
    }
    template<typename T>
    struct IntName;
#if defined(COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS) && COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS // LP64
#define VH_ALIAS(A, B) A
#else
#define VH_ALIAS(A, B) B
#endif
    VH_INT_NAME(char, "char");
    VH_INT_NAME(signed char, VH_ALIAS("int8", "signed char"));
    VH_INT_NAME(unsigned char, VH_ALIAS("uint8", "unsigned char"));
    VH_INT_NAME(short, VH_ALIAS("int16", "short"));
    VH_INT_NAME(unsigned short, VH_ALIAS("uint16", "unsigned short"));
    VH_INT_NAME(int, VH_ALIAS("int32", "int"));
    VH_INT_NAME(unsigned int, VH_ALIAS("uint32", "unsigned int"));
    VH_INT_NAME(long, VH_ALIAS("int64", "long"));
    VH_INT_NAME(unsigned long, VH_ALIAS("uint64", "unsigned long"));
    VH_INT_NAME(long long, "long long");
    VH_INT_NAME(unsigned long long, "unsigned long long");
    VH_INT_NAME(float, "float");
    VH_INT_NAME(double, "double");
    VH_INT_NAME(long double, "long double");

    // all range limits, as decimal texts, moved by a small amount
    inline std::string interestingNumber(vh::Gen& g)
    {
        static int const bits[] = {0, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127};
        unsigned __int128 m;
        bool neg = g.coin();
        switch (g.below(4))
        {
        case 0:
        {
            m = static_cast<unsigned __int128>(1) << g.pick(bits);
            int64_t d = g.range(-2, 2);
            if (d < 0 && m < 3)
                d = 0;
            m += static_cast<unsigned __int128>(static_cast<__int128>(d));
            break;
        }
        case 1:
            m = g.below(400);
            break;
        case 2:
            m = g.u64() >> g.below(64);
            break;
        default:
        {
            m = 1;
            for (uint64_t k = g.below(25); k; k--)
                m *= 10;
            m += static_cast<unsigned __int128>(static_cast<__int128>(g.range(-1, 1)));
        }
        }
        std::string s = dec(m);
        if (g.chance(1, 8))
            s.insert(0, g.logsize(300), '0');
        if (g.chance(1, 40))
            s += std::string(g.logsize(400), static_cast<char>('0' + g.below(10)));
        return (neg ? "-" : g.chance(1, 12) ? "+" : "") + s;
    }
    inline std::string spoil(vh::Gen& g, std::string s) // mostly turns a number into junk
    {
        static char const junk[] = " \t\n\v\f\r+-.,eExX0aAfF_'%\0\x80\xff(;)=/:";
        size_t at = g.below(s.size() + 1);
        char c = g.chance(1, 4) ? static_cast<char>(g.below(256)) : junk[g.below(sizeof junk - 1)];
        switch (g.below(7))
        {
        case 0:
            s.insert(s.begin() + static_cast<long>(at), c);
            break;
        case 1:
            s += c;
            break;
        case 2:
            s.insert(s.begin(), c);
            break;
        case 3:
            if (!s.empty())
                s[at ? at - 1 : 0] = c;
            break;
        case 4: // the notations of other languages, formats and units
        {
            static char const* const around[][2] = {{"'", "'"}, {"\"", "\""}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"<", ">"}, {"+", ""}, {"++", ""}, {"-", ""}, {"&", ""}, {"*", ""}, {"0x", ""}, {"0X", ""}, {"0b", ""}, {"0B", ""}, {"0o", ""}, {"0", ""}, {"#", ""}, {"$", ""}, {"$", ".00"}, {"~", ""}, {"!", ""}, {"\\", ""}, {"\\x", ""}, {"U+", ""}, {"=", ""}, {"16#", "#"}, {"", "h"}, {"", "u"}, {"", "U"}, {"", "l"}, {"", "L"}, {"", "ul"}, {"", "ULL"}, {"", "f"}, {"", "F"}, {"", "d"}, {"", "i"}, {"", "n"}, {"", "z"}, {"", "%"}, {"", "k"}, {"", "K"}, {"", "M"}, {"", "G"}, {"", "Ki"}, {"", "s"}, {"", "ms"}, {"", "px"}, {"", "deg"}, {"", "."}, {"", ".0"}, {"", ".f"}, {"", "e0"}, {"", "E+0"}, {"", "p0"}, {"", "_"}, {"", "!"}, {"", "+1"}, {"", "/1"}, {"", "*1"}, {"", "..2"}, {"", ";"}, {"", ","}, {"\xef\xbb\xbf", ""}, {"\xc2\xa0", ""}, {"\xe2\x88\x92", ""}, {"", "\xc2\xa0"}, {"", "\xc2\xb0"}};
            auto& a = around[g.below(sizeof around / sizeof *around)];
            s = a[0] + s + a[1];
            break;
        }
        case 5: // digit groups; a character literal
            if (g.chance(1, 4))
                s = std::string(g.coin() ? "'" : g.coin() ? "\"" : "\\") + static_cast<char>(g.below(256)) + (g.coin() ? "'" : g.coin() ? "\"" : "");
            else
                for (size_t n = s.size(); n > 3; n -= 3)
                    s.insert(n - 3, 1, "_', ."[at % 5]);
            break;
        default:
            s = word(g, 12, true);
            if (g.chance(1, 20))
                for (size_t n = g.logsize(6000); n; n--)
                    s += junk[n * 7 % (sizeof junk - 1)];
        }
        return s;
    }
    // every text of at most two bytes, and every text of three characters from those of ASCII and some others
    template<typename F>
    void shortTexts(uint64_t from, uint64_t parts, F const& f)
    {
        uint64_t n = 0;
        std::string s;
        for (int a = -1; a < 256; a++)
            for (int b = a < 0 ? 255 : -1; b < 256; b++)
                if (n++ % parts == from)
                {
                    s.clear();
                    if (a >= 0)
                        s += static_cast<char>(a);
                    if (a >= 0 && b >= 0)
                        s += static_cast<char>(b);
                    f(s);
                }
        std::string chars("\0\t\n\x80\xff", 5);
        for (char c = ' '; c < 127; c++)
            chars += c;
        s.assign(3, ' ');
        for (char a : chars)
            for (char b : chars)
                for (char c : chars)
                    if (n++ % parts == from)
                    {
                        s[0] = a, s[1] = b, s[2] = c;
                        f(s);
                    }
    }
    inline std::string anyText(vh::Gen& g, size_t max = 24)
    {
        std::string s;
        switch (g.below(5))
        {
        case 0:
            return word(g, max, true);
        case 1:
            return interestingNumber(g);
        case 2:
            return "";
        default:
        {
            size_t n = g.logsize(g.chance(1, 60) ? max * 300 : max);
            for (size_t i = 0; i < n; i++)
                s += g.chance(1, 4) ? static_cast<char>(g.below(256)) : static_cast<char>('a' + g.below(26));
            return s;
        }
        }
    }
    inline size_t oddCount(vh::Gen& g) // a number of fields which isn't one
    {
        size_t n = g.below(5);
        return n >= 1 ? n + 1 : 0;
    }

    // texts which differ little from the previous one of the same case
    struct Related
    {
        std::string last;
        void apply(vh::Gen& g, Fields& f, unsigned num = 1, unsigned den = 4)
        {
            if (f.size() != 1)
                return;
            if (!last.empty() && g.chance(num, den))
            {
                f[0] = last;
                for (uint64_t k = g.below(3); k <= 1; k++) // none, one or two characters
                {
                    char& c = f[0][g.below(f[0].size())];
                    if (c >= '0' && c <= '9')
                        c = static_cast<char>('0' + g.below(10));
                    else if (g.coin())
                        c = f[0][g.below(f[0].size())];
                }
                vh::count("related-texts");
            }
            last = f[0];
        }
    };
    // (a + b) / 2 of two non-negative decimal texts with the same number of decimals, exactly
    inline std::string decimalMean(std::string a, std::string b)
    {
        size_t n = a.size() > b.size() ? a.size() : b.size();
        a.insert(0, n - a.size(), '0');
        b.insert(0, n - b.size(), '0');
        std::string s(n, '0');
        int carry = 0;
        for (size_t i = n; i-- > 0;)
        {
            if (a[i] == '.')
            {
                s[i] = '.';
                continue;
            }
            int d = (a[i] - '0') + (b[i] - '0') + carry;
            s[i] = static_cast<char>('0' + d % 10);
            carry = d / 10;
        }
        if (carry)
            s.insert(0, "1");
        std::string h;
        int rest = 0;
        for (char c : s)
        {
            if (c == '.')
            {
                h += c;
                continue;
            }
            int d = rest * 10 + (c - '0');
            h += static_cast<char>('0' + d / 2);
            rest = d % 2;
        }
        if (rest)
            h += h.find('.') == std::string::npos ? ".5" : "5";
        size_t z = 0;
        while (z + 1 < h.size() && h[z] == '0' && h[z + 1] != '.')
            z++;
        return h.substr(z);
    }
    // the point half way between two neighbouring values, exactly or as little above or below it as a far digit makes it
    template<typename T>
    std::string midpoint(vh::Gen& g, T v)
    {
        v = std::fabs(v);
        if (!std::isfinite(v) || v > T(1e25L) || v < T(1e-15L))
            v = static_cast<T>(ldexpl(static_cast<long double>(g.u64()) / 18446744073709551616.0L + 1, static_cast<int>(g.range(-45, 60))));
        T w = std::nextafter(v, std::numeric_limits<T>::infinity());
        char a[800], b[800];
        snprintf(a, sizeof a, "%.*Lf", 130, static_cast<long double>(v)); // exact: no more than 64 + 50 binary places
        snprintf(b, sizeof b, "%.*Lf", 130, static_cast<long double>(w));
        std::string s = decimalMean(a, b);
        while (s.back() == '0')
            s.pop_back();
        if (s.back() == '.')
            s += "0";
        size_t far = g.coin() ? g.below(8) : g.logsize(900);
        switch (g.below(4))
        {
        case 0:
            break;
        case 1: // just above
            s += std::string(far, '0') + "1";
            break;
        case 2: // just below
            if (s.back() != '0')
            {
                s.back()--;
                s += std::string(far + 1, '9');
            }
            break;
        default: // as a round number
            s += std::string(far, '0');
        }
        if (g.chance(1, 3)) // the point moved
        {
            size_t p = s.find('.');
            long e = static_cast<long>(p) - 1;
            s.erase(p, 1);
            size_t z = 0;
            while (z + 1 < s.size() && s[z] == '0')
                z++;
            s.erase(0, z);
            e -= static_cast<long>(z);
            if (s.size() > 1)
                s.insert(1, ".");
            s += (g.coin() ? "e" : "E") + std::to_string(e);
        }
        return (g.chance(1, 3) ? "-" : "") + s;
    }

    template<typename T>
    struct Conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
    {
        static std::string name() { return IntName<T>::v; }
        static CR conv(Fields const& f)
        {
            if (f.size() != 1)
                return badCount(f, name());
            bool neg, huge;
            unsigned __int128 m;
            if (!parseInt(f[0], std::is_unsigned_v<T>, neg, m, huge) || huge)
                return bad(f, name());
            __int128 v = neg ? -static_cast<__int128>(m) : static_cast<__int128>(m);
            if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max()))
                return bad(f, name());
            return good(intText(static_cast<T>(v)));
        }
        static std::string canon(T v) { return intText(v); }
        static std::string text(T v) { return intText(v); }
        static T value(vh::Gen& g)
        {
            if (g.coin())
                return static_cast<T>(g.u64() >> g.below(64));
            T lim = g.coin() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
            return static_cast<T>(static_cast<unsigned long long>(lim) + static_cast<unsigned long long>(g.range(-2, 2)));
        }
        static Fields fields(vh::Gen& g, bool valid)
        {
            if (valid)
                return {intText(value(g))};
            if (g.chance(1, 6))
            {
                Fields f(oddCount(g));
                for (auto& s : f)
                    s = intText(value(g));
                return f;
            }
            std::string s = interestingNumber(g);
            return {g.coin() ? spoil(g, s) : s};
        }
    };

    template<typename T>
    struct Conv<T, std::enable_if_t<std::is_floating_point_v<T>>>
    {
        static std::string name() { return IntName<T>::v; }
        static CR conv(Fields const& f)
        {
            if (f.size() != 1)
                return badCount(f, name());
            if (f[0].find('\0') != std::string::npos || !floatSyntax(f[0]))
                return bad(f, name());
            T v = strtox<T>(f[0].c_str());
            bool inf = false;
            for (char c : f[0])
                inf = inf || c == 'n' || c == 'N'; // inf / nan spelled out
            if (std::isinf(v) && !inf)
                return bad(f, name());
            CR r = good(floatCanon(v));
            if (std::fabs(v) < std::numeric_limits<T>::min() && !std::isnan(v))
            {
                // zero is exact only if every digit of the mantissa is zero
                std::string_view s = f[0];
                size_t k = s.find_first_of("xX");
                size_t e = s.find_first_of(k == std::string_view::npos ? "eE" : "pP");
                std::string_view mant = s.substr(k == std::string_view::npos ? 0 : k + 1, e == std::string_view::npos ? e : e - (k == std::string_view::npos ? 0 : k + 1));
                for (char c : mant)
                    if ((c >= '1' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))
                        r.open = true;
            }
            return r;
        }
        static std::string canon(T v) { return floatCanon(v); }
        static std::string text(T v) { return floatText(v); }
        static T value(vh::Gen& g)
        {
            switch (g.below(6))
            {
            case 0:
                return static_cast<T>(g.range(-1000000, 1000000)) / static_cast<T>(g.range(1, 1000));
            case 1:
                return static_cast<T>(g.range(-100, 100));
            case 2:
            {
                static long double const special[] = {0.0L, -0.0L, 1e-6L, -1e-6L, 9.99999e-7L, 1.000001e-6L, HUGE_VALL, -HUGE_VALL, NAN, 0.1L, 1e6L, 999999.5L, 123456.5L, 1e-5L, 5e-7L, 1e5L, 16777217.0L};
                return static_cast<T>(g.pick(special));
            }
            case 3:
            {
                static T const lim[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon()};
                return g.pick(lim);
            }
            default:
            {
                long double m = static_cast<long double>(g.u64()) / 18446744073709551616.0L + 1;
                int e = static_cast<int>(g.range(std::numeric_limits<T>::min_exponent + 2, std::numeric_limits<T>::max_exponent - 2));
                if (g.coin())
                    e = static_cast<int>(g.range(-30, 30));
                T v = static_cast<T>(ldexpl(m, e));
                return g.coin() ? v : -v;
            }
            }
        }
        static std::string number(vh::Gen& g)
        {
            char b[6000];
            T v = value(g);
            long double l = static_cast<long double>(v);
            switch (g.below(9))
            {
            case 0:
                return interestingNumber(g);
            case 7:
            case 8:
                return midpoint<T>(g, v);
            case 1:
                snprintf(b, sizeof b, "%.*Lg", static_cast<int>(g.below(25)), l);
                break;
            case 2:
                snprintf(b, sizeof b, "%La", l);
                break;
            case 3:
                snprintf(b, sizeof b, "%.*Le", static_cast<int>(g.below(25)), l);
                break;
            case 4:
                if (std::fabs(l) > 1e60L)
                    l = 1.5L;
                snprintf(b, sizeof b, "%.*Lf", static_cast<int>(g.below(25)), l);
                break;
            case 5:
                snprintf(b, sizeof b, "%llu.%llue%lld", static_cast<unsigned long long>(g.below(1000)), static_cast<unsigned long long>(g.below(100000)), static_cast<long long>(g.range(-5000, 5000)));
                break;
            default:
            {
                static char const* const odd[] = {"inf", "-inf", "INFINITY", "nan", "-NaN", "nan(12)", ".5", "5.", ".", "e5", "1e", "1e+", "0x1p3", "0x.8p1", "0x", "0xp1", "1e400", "1e40", "1e5000", "-1e400", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "1.18973149535723176502e+4932", "1.2e4932", "infin", "1_000", "1,5", "0e999999", "+.1", "1.5f", "1.5L", "--1", "0b1"};
                return odd[g.below(sizeof odd / sizeof *odd)];
            }
            }
            return b;
        }
        static Fields fields(vh::Gen& g, bool valid)
        {
            for (int i = 0; i < 20; i++)
            {
                Fields f;
                if (valid)
                    f = {number(g)};
                else if (g.chance(1, 6))
                {
                    f.resize(oddCount(g));
                    for (auto& s : f)
                        s = number(g);
                }
                else
                    f = {spoil(g, number(g))};
                CR r = conv(f);
                if (!r.open && (!valid || r.ok))
                    return f;
            }
            return {"1.5"};
        }
    };

    template<>
    struct Conv<bool>
    {
        static std::string name() { return "bool"; }
        static CR conv(Fields const& f)
        {
            if (f.size() != 1)
                return badCount(f, name());
            std::string l;
            for (char c : f[0])
                l += (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
            if (f[0] == "1" || l == "true")
                return good("T");
            if (f[0] == "0" || l == "false")
                return good("F");
            return bad(f, name());
        }
        static std::string canon(bool v) { return v ? "T" : "F"; }
        static std::string text(bool v) { return v ? "true" : "false"; }
        static bool value(vh::Gen& g) { return g.coin(); }
        static Fields fields(vh::Gen& g, bool valid)
        {
            static char const* const base[] = {"1", "0", "true", "false"};
            std::string s = g.pick(base);
            for (auto& c : s)
                if (c >= 'a' && c <= 'z' && g.coin())
                    c = static_cast<char>(c - 32);
            if (valid)
                return {s};
            if (g.chance(1, 6))
                return Fields(oddCount(g), s);
            static char const* const odd[] = {"", "2", "yes", "no", "on", "tru", "truee", "fals", "00", "01", "10", "-1", "t", "f", " true", "true ", "tr\0e", "TRU\xc5", "True1", "nan", "+1", "1.0", "\x91", "\x90", "!", "tRUE\x01", "\x14rue"};
            if (g.coin())
                return {g.pick(odd)};
            if (g.coin())
            {
                if (!s.empty())
                    s[g.below(s.size())] ^= static_cast<char>(1 << g.below(8));
                return {s};
            }
            return {spoil(g, s)};
        }
    };

    template<typename T>
    struct ConvString
    {
        static std::string name() { return "string"; }
        static CR conv(Fields const& f)
        {
            if (f.size() != 1)
                return badCount(f, name());
            return good("s:" + f[0]);
        }
        static Fields fields(vh::Gen& g, bool valid)
        {
            if (valid || !g.chance(1, 2))
                return {anyText(g, g.chance(1, 30) ? 3000 : 24)};
            Fields f(oddCount(g));
            for (auto& s : f)
                s = anyText(g);
            return f;
        }
    };
    template<>
    struct Conv<coil::String> : ConvString<coil::String>
    {
        static std::string canon(coil::String const& v) { return "s:" + ss(v); }
        static std::string text(coil::String const& v) { return ss(v); }
        static coil::String value(vh::Gen& g) { return cs(anyText(g)); }
    };
    template<>
    struct Conv<coil::StringView> : ConvString<coil::StringView>
    {
        static std::string canon(coil::StringView v) { return "s:" + ss(v); }
        static std::string text(coil::StringView v) { return ss(v); }
        static coil::StringView value(vh::Gen& g)
        {
            static char const* const some[] = {"", "a", "text with spaces", "100%", "%s%n", "quote'\"", "é"};
            return g.pick(some);
        }
    };
    template<>
    struct Conv<std::string> : ConvString<std::string>
    {
        static std::string canon(std::string const& v) { return "s:" + v; }
        static std::string text(std::string const& v) { return v; }
        static std::string value(vh::Gen& g) { return anyText(g); }
    };
    template<>
    struct Conv<std::string_view> : ConvString<std::string_view>
    {
        static std::string canon(std::string_view v) { return "s:" + std::string(v); }
        static std::string text(std::string_view v) { return std::string(v); }
        static std::string_view value(vh::Gen& g)
        {
            static std::string_view const some[] = {{}, "", "a", "text with spaces", "100%", std::string_view("\0b", 2), "%s%n"};
            return g.pick(some);
        }
    };
    template<>
    struct Conv<coil::Value>
    {
        static std::string name() { return "coil::Value"; }
        static CR conv(Fields const& f)
        {
            std::string r = "v";
            for (auto& s : f)
                r += "<" + s + ">";
            return good(r);
        }
        static std::string canon(coil::Value const& v)
        {
            std::string r = "v";
            for (auto const& s : v.subvalues)
                r += "<" + ss(s) + ">";
            return r;
        }
        static std::string text(coil::Value const& v)
        {
            Fields f;
            for (auto const& s : v.subvalues)
                f.push_back(ss(s));
            return join(f);
        }
        static Fields fields(vh::Gen& g, bool)
        {
            Fields f(g.coin() ? 1 : g.below(6));
            for (auto& s : f)
                s = anyText(g);
            return f;
        }
    };
    template<typename T>
    struct Conv<std::vector<T>>
    {
        static std::string name() { return "vector<" + Conv<T>::name() + ">"; }
        static CR conv(Fields const& f)
        {
            std::string c = "[";
            CR acc = good("");
            for (auto& s : f)
            {
                CR r = Conv<T>::conv({s});
                if (r.open)
                    acc.open = true;
                if (!r.ok)
                {
                    CR b = bad(f, name(), r.err);
                    b.hasNul = b.hasNul || r.hasNul;
                    b.open = acc.open;
                    return b;
                }
                c += r.canon + ";";
            }
            acc.canon = c + "]";
            return acc;
        }
        static std::string canon(std::vector<T> const& v)
        {
            std::string c = "[";
            for (auto const& e : v)
                c += Conv<T>::canon(e) + ";";
            return c + "]";
        }
        static std::string text(std::vector<T> const& v)
        {
            std::string c = "[";
            bool first = true;
            for (auto const& e : v)
            {
                c += (first ? "" : ", ") + Conv<T>::text(e);
                first = false;
            }
            return c + "]";
        }
        static std::vector<T> value(vh::Gen& g)
        {
            std::vector<T> v;
            size_t n = g.chance(1, 10) ? g.logsize(60) : g.below(5);
            for (size_t i = 0; i < n; i++)
                v.push_back(Conv<T>::value(g));
            return v;
        }
        static Fields fields(vh::Gen& g, bool valid)
        {
            Fields f(g.chance(1, 10) ? g.logsize(60) : g.below(6));
            for (auto& s : f)
                for (int tries = 0; tries < 10; tries++)
                {
                    Fields one = Conv<T>::fields(g, valid || !g.chance(1, 4));
                    if (one.size() == 1 && (!valid || Conv<T>::conv(one).ok))
                    {
                        s = one[0];
                        break;
                    }
                    if (tries == 9)
                        s = "1";
                }
            return f;
        }
    };
    template<typename T>
    struct Conv<std::optional<T>>
    {
        static std::string name() { return "optional<" + Conv<T>::name() + ">"; }
        static CR conv(Fields const& f)
        {
            if (f.empty() || (f.size() == 1 && f[0].empty()))
                return good("none");
            CR r = Conv<T>::conv(f);
            if (r.ok)
            {
                CR k = good("some(" + r.canon + ")");
                k.open = r.open;
                return k;
            }
            CR b = bad(f, name(), r.err);
            b.hasNul = b.hasNul || r.hasNul;
            return b;
        }
        static std::string canon(std::optional<T> const& v) { return v ? "some(" + Conv<T>::canon(*v) + ")" : "none"; }
        static std::string text(std::optional<T> const& v) { return v ? Conv<T>::text(*v) : ""; }
        static std::optional<T> value(vh::Gen& g) { return g.coin() ? std::optional<T>(Conv<T>::value(g)) : std::nullopt; }
        static Fields fields(vh::Gen& g, bool valid)
        {
            if (g.chance(1, 5))
                return g.coin() ? Fields{} : Fields{""};
            return Conv<T>::fields(g, valid);
        }
    };

    // ---- writing fields as an argument of a command text -------------------------------------
    inline bool isPlain(std::string const& s, bool inGroup)
    {
        if (s.empty())
            return false;
        for (char c : s)
            if (std::string_view(" \t\n\r()'\",;|").find(c) != std::string_view::npos || (c == '=' && !inGroup))
                return false;
        return true;
    }
    inline bool isQuotable(std::string const& s, bool inGroup)
    {
        for (char c : s)
            if (c == '\'' || c == '"' || (inGroup && (c == '(' || c == ')')))
                return false;
        return true;
    }
    // false if the default grammar has no way to write it
    inline bool writeArg(vh::Gen& g, Fields const& f, std::string& out)
    {
        char q = g.coin() ? '\'' : '"';
        if (f.size() == 1 && !g.chance(1, 8))
        {
            if (isPlain(f[0], false) && !g.chance(1, 4))
                out = f[0];
            else if (isQuotable(f[0], false))
                out = q + f[0] + q;
            else
                return false;
            return true;
        }
        out = "(";
        for (size_t i = 0; i < f.size(); i++)
        {
            if (i)
                out += ", ;|\t"[g.below(5)];
            if (isPlain(f[i], true) && !g.chance(1, 4))
                out += f[i];
            else if (isQuotable(f[i], true))
                out += q + f[i] + q;
            else
                return false;
        }
        out += ")";
        return true;
    }

    // Owns the bytes behind a hand-built ExecutionInput
    struct InputBuilder
    {
        std::vector<std::unique_ptr<Exact>> keep;
        coil::StringView view(std::string const& s)
        {
            keep.push_back(std::make_unique<Exact>(s));
            return cv(*keep.back());
        }
        coil::Value value(Fields const& f)
        {
            coil::Vector<coil::StringView> v;
            for (auto& s : f)
                v.pushBack(view(s));
            return coil::Value(coil::move(v));
        }
    };
    inline std::string showFields(Fields const& f) { return "(" + join(f, "|") + ")"; }

    // Runs `name args...` either as a text (if it can be written) or as a prepared input
    struct Exec
    {
        std::string text;
        std::unique_ptr<Exact> exact;
        InputBuilder in;
        bool asText = false;
        coil::ExecutionResult run(vh::Gen& g, coil::Bindings& b, std::string const& name, std::vector<Fields> const& args, std::vector<std::pair<std::string, Fields>> const& named = {}, bool preferText = true)
        {
            // named arguments are written at random places between the positional ones
            text = isPlain(name, false) ? name : "'" + name + "'";
            asText = preferText && isQuotable(name, false) && !g.chance(1, 4);
            size_t ni = 0;
            for (size_t i = 0; asText && i <= args.size(); i++)
            {
                while (asText && ni < named.size() && (i == args.size() || g.chance(1, 3)))
                {
                    std::string k, v;
                    asText = writeArg(g, {named[ni].first}, k) && k[0] != '(' && writeArg(g, named[ni].second, v);
                    static char const* const eq[] = {"=", " = ", "= ", " ="};
                    text += " " + k + g.pick(eq) + v;
                    ni++;
                }
                if (asText && i < args.size())
                {
                    std::string a;
                    asText = writeArg(g, args[i], a);
                    text += " " + a;
                }
            }
            if (asText)
            {
                exact = std::make_unique<Exact>(text);
                return b.execute(cv(*exact));
            }
            coil::ExecutionInput input;
            input.name = in.view(name);
            for (auto& f : args)
                input.arguments.pushBack(in.value(f));
            for (auto& kv : named)
                input.namedArguments.pushBack(coil::NamedValue{in.view(kv.first), in.value(kv.second)});
            text = "<input> " + name;
            for (auto& f : args)
                text += " " + showFields(f);
            for (auto& kv : named)
                text += " " + kv.first + "=" + showFields(kv.second);
            return b.execute(coil::move(input));
        }
    };
}
