// Helpers between coil's public types and the reference models.
#pragma once

#include "coilref.h"

#include <coil/Coil.h>
#include <coil/StdLibCompat.h>
#include <coil/detail/DefaultLexer.h>
#include <coil/detail/StringConv.h>

inline std::string_view sv(coil::StringView s) { return {s.data(), s.length()}; }
inline std::string_view sv(coil::String const& s)
{
    VH_CHECK(s.cStr() != nullptr, "string-null", "a result string has no characters");
    VH_CHECK(s.cStr()[s.length()] == '\0', "string-unterminated", "a result string of length %zu is not NUL-terminated", s.length());
    return {s.cStr(), s.length()};
}
inline std::string ss(coil::StringView s) { return std::string(sv(s)); }
inline std::string ss(coil::String const& s) { return std::string(sv(s)); }
inline coil::StringView cv(std::string_view s) { return s.data() ? coil::StringView(s.data(), s.size()) : coil::StringView(); }
inline coil::StringView cv(ref::Exact const& e) { return coil::StringView(e.p, e.n); }
inline coil::String cs(std::string_view s) { return coil::String(cv(s)); }
template<typename F>
coil::AnyFunctor functor(F f)
{
    coil::Vector<coil::AnyFunctor> v = coil::overloaded(coil::move(f));
    return coil::AnyFunctor(coil::move(v[0]));
}

inline std::string_view sub(std::string_view text, ref::Span s) { return text.substr(s.off, s.len); }

// exact place in the caller's text; for an empty view only emptiness is compared
inline bool sameView(coil::StringView v, char const* base, ref::Span s)
{
    if (v.length() != s.len)
        return false;
    return v.data() == base + s.off; // also where no byte was written: between its quotes, at its bracket
}
inline bool insideText(coil::StringView v, char const* base, size_t n)
{
    return v.length() == 0 || (v.data() >= base && v.data() + v.length() <= base + n);
}

inline std::string show(coil::Value const& v)
{
    std::string r = "[";
    for (auto const& s : v.subvalues)
        r += "<" + ss(s) + ">";
    return r + "]";
}
inline std::string show(coil::ExecutionInput const& in)
{
    std::string r = "name=<" + ss(in.name) + "> args=";
    for (auto const& a : in.arguments)
        r += show(a);
    r += " named=";
    for (auto const& a : in.namedArguments)
        r += "<" + ss(a.key) + ">=" + show(a.value);
    return r;
}
inline std::string show(std::string_view text, ref::Parsed const& p)
{
    if (!p.ok)
        return "error:" + p.error;
    auto val = [&](ref::Val const& v) {
        std::string r = "[";
        for (auto s : v.subs)
            r += "<" + std::string(sub(text, s)) + ">";
        return r + "]";
    };
    std::string r = "name=<" + std::string(p.hasName ? sub(text, p.name) : "") + "> args=";
    for (auto& a : p.args)
        r += val(a);
    r += " named=";
    for (auto& a : p.named)
        r += "<" + std::string(sub(text, a.first)) + ">=" + val(a.second);
    return r;
}
inline std::string show(coil::ExecutionResult const& r)
{
    std::string s = "ret=" + (r.returnValue ? "<" + ss(*r.returnValue) + ">" : std::string("none")) + " out=<" + ss(r.output) + "> errors=";
    for (auto const& e : r.errors)
        s += "<" + ss(e) + ">";
    return s;
}

// Compares a parse with the reference; places==true also demands the very positions in the text.
inline void checkInput(std::string_view text, char const* base, coil::ExecutionInput const& in, ref::Parsed const& p, bool places, char const* key)
{
    auto fail = [&](char const* what) { vh::violation(key, "%s: text \"%s\": got {%s}, expected {%s}", what, vh::esc(text).c_str(), vh::esc(show(in)).c_str(), vh::esc(show(text, p)).c_str()); };
    auto same = [&](coil::StringView v, ref::Span s) { return places ? sameView(v, base, s) : sv(v) == sub(text, s); };
    if (p.hasName ? !same(in.name, p.name) : !in.name.empty())
        fail("command name");
    if (in.arguments.size() != p.args.size())
        fail("number of positional arguments");
    if (in.namedArguments.size() != p.named.size())
        fail("number of named arguments");
    auto val = [&](coil::Value const& v, ref::Val const& w) {
        if (v.subvalues.size() != w.subs.size())
            return false;
        for (size_t k = 0; k < w.subs.size(); k++)
            if (!same(v.subvalues[k], w.subs[k]))
                return false;
        return true;
    };
    for (size_t i = 0; i < p.args.size(); i++)
        if (!val(in.arguments[i], p.args[i]))
            fail("positional argument");
    for (size_t i = 0; i < p.named.size(); i++)
    {
        if (!same(in.namedArguments[i].key, p.named[i].first))
            fail("name of a named argument");
        if (!val(in.namedArguments[i].value, p.named[i].second))
            fail("value of a named argument");
    }
}

// the part of an error message before the first NUL substituted through "%.*s"
inline bool sameError(std::string_view got, ref::Parsed const& p, std::string_view prefix = "")
{
    if (p.errorHasNul)
        return got.substr(0, prefix.size()) == prefix;
    return got.size() == prefix.size() + p.error.size() && got.substr(0, prefix.size()) == prefix && got.substr(prefix.size()) == p.error;
}
