// A model of registries of scripted commands: the same description drives the real library and an independent
// prediction of every result (used by the monitors of C12, C13, C17, C19, C24, C25).
#pragma once

#include "refconv.h"

#include <functional>
#include <memory>
#include <stdexcept>

namespace model
{
    struct Def;
    struct Thrown
    {
        int kind = 0; // 1.. = see throwNow
        std::string what;
        bool std() const { return kind <= 5; }
    };
    constexpr int throwKinds = 10;
    struct Odd
    {
        int v;
    };
    struct OwnException : std::exception
    {
        std::string w;
        explicit OwnException(std::string s) : w(std::move(s)) {}
        char const* what() const noexcept override { return w.c_str(); }
    };
    struct DerivedError : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    [[noreturn]] void throwNow(Thrown const& t);
    Thrown describeCurrent(); // inside a catch block; kind 0 if unknown

    struct Action
    {
        enum Kind
        {
            Log,
            Logline,
            Logf,
            Loglinef,
            Error,
            Errors,
            HasErrors,
            Named,
            Exec,   // text: a command executed on the same registry
            Bind,   // text: name, def: what
            Unbind, // text: name
            Throw,
            EchoArgs,
        } kind = Log;
        std::string text;
        int variant = 0;
        int route = 0; // through which context: the parameter, a copy kept, a new copy, one passed on
        long a = 0;
        double d = 0;
        std::shared_ptr<Def const> def;
        Thrown thrown;
        bool guard = false; // Exec: the script catches what comes out
    };
    enum class Ret
    {
        None,
        Text,
        NullPointer,
        CString,
    };
    constexpr int shapes = 10;
    struct Overload
    {
        int shape = 0;
        bool ctx = false;
        Ret ret = Ret::None;
        int id = 0;
        std::vector<Action> script; // empty without a context
        size_t arity() const;
        std::vector<ref::CR> convert(std::vector<ref::Fields> const& args) const;
        std::vector<ref::Fields> fields(vh::Gen& g, bool valid) const;
    };
    struct Def
    {
        std::vector<std::shared_ptr<Overload const>> overloads;
    };
    using DefPtr = std::shared_ptr<Def const>;

    struct Err
    {
        std::string text;
        bool lenient = false; // contains a NUL put through %s
        std::string prefix;   // required then
    };
    struct Result
    {
        std::vector<Err> errors;
        bool hasRet = false;
        std::string ret;
        std::string out;
        std::optional<Thrown> threw; // escaped
        bool open = false;           // left open by the properties
    };
    using Named = std::vector<std::pair<std::string, ref::Fields>>;

    struct Call
    {
        int id;
        std::string args;
        bool operator==(Call const& r) const { return id == r.id && args == r.args; }
    };

    struct Model
    {
        std::map<std::string, DefPtr> cmds;
        bool catches = COIL_CONFIG_CATCH_EXCEPTIONS;
        ref::LexCfg cfg;
        std::vector<Call> calls;
        std::vector<std::string> running;
        int maxDepth = 4;
        size_t maxCalls = static_cast<size_t>(-1);
        std::vector<std::string> texts; // every text executed, also by commands

        Result execute(std::string const& name, std::vector<ref::Fields> const& args, Named const& named);
        Result executeText(std::string const& text);
        bool isRunning(std::string const& n) const
        {
            for (auto& r : running)
                if (r == n)
                    return true;
            return false;
        }
    };

    // the real side
    struct Env
    {
        coil::Bindings b;
        std::vector<Call> calls;
        std::vector<std::string> running;
        int maxDepth = 4;
        size_t maxCalls = static_cast<size_t>(-1);
        unsigned spin = 0;   // C18: provoke preemption inside of commands
        bool shared = false; // C18: several threads execute; what is recorded stays with the thread
        bool customLexer = false;
        std::vector<Call>& callLog();
        std::vector<std::string>& runLog();

        void bind(std::string const& name, DefPtr const& def);
        void unbind(std::string const& name);
        bool isRunning(std::string const& n) const
        {
            for (auto& r : const_cast<Env*>(this)->runLog())
                if (r == n)
                    return true;
            return false;
        }
    };
    coil::AnyFunctor makeFunctor(Env* env, std::string const& name, std::shared_ptr<Overload const> o);

    // a formatted action: what coil::sprintf makes of it, and what it should be
    coil::String realSprintf(Action const& a);
    std::string refFormat(Action const& a);
    extern int const formats;
    std::string render(Result const& r);                // what a script logs about a nested result
    std::string render(coil::ExecutionResult const& r);
    std::string showDef(DefPtr const& d);

    struct Options
    {
        bool nuls = true;     // NULs in logged and reported texts
        bool errors = true;
        bool throws = false;
        bool nest = false;    // Exec, Bind, Unbind
        bool readOnly = false; // nesting without binding and unbinding
        bool simple = false;  // mostly commands without arguments and with a context
        std::vector<std::string> const* names = nullptr; // for nesting
        size_t maxText = 40;
        size_t maxActions = 6;
    };
    Action genAction(vh::Gen& g, Options const& o, int depth = 0);
    DefPtr genDef(vh::Gen& g, Options const& o, int depth = 0);
    extern thread_local int nextId;

    // arguments for a command (which may not exist), as fields
    void genArgs(vh::Gen& g, DefPtr const& d, std::vector<ref::Fields>& args, Named& named, unsigned validNum = 3, unsigned validDen = 4);

    // nullptr or a description of the first difference
    std::string difference(coil::ExecutionResult const& r, Result const& w);
    inline void compare(coil::ExecutionResult const& r, Result const& w, std::string const& what, char const* key)
    {
        if (w.open)
            return;
        std::string d = difference(r, w);
        VH_CHECK(d.empty(), key, "%s: %s; got {%s}, expected {%s}", what.c_str(), d.c_str(), vh::esc(show(r)).c_str(), vh::esc(render(w)).c_str());
    }
}
