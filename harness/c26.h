// C26: metadata.
#pragma once
#include "regnames.h"
#include "refconv.h"

#include <functional>
#include <tuple>

namespace c26
{
    struct Shade // a user type
    {
        int v = 0;
    };
    struct Lazy // a user type whose name is made when it is first asked for
    {
        std::string v;
    };
}
COIL_CREATE_TYPE_NAME(c26::Shade, "Shade of %s");
template<>
struct coil::TypeName<c26::Lazy>
{
    static StringView name()
    {
        static std::string n = "lazily<made, " + std::string(300, 'n') + ">";
        return {n.data(), n.size()};
    }
};
namespace coil
{
    template<>
    struct TypeSerializer<c26::Shade>
    {
        static Expected<c26::Shade, String> fromString(Value const& input)
        {
            c26::Shade s;
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<c26::Shade>(input, 1);
            if (!coil::fromString(input.subvalues[0], s.v))
                return errors::createGenericError<c26::Shade>(input);
            return s;
        }
        static String toString(c26::Shade const& s) { return coil::toString(s.v); }
    };
    template<>
    struct TypeSerializer<c26::Lazy>
    {
        static Expected<c26::Lazy, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<c26::Lazy>(input, 1);
            c26::Lazy l;
            l.v = coil::toStdString(input.subvalues[0]);
            return l;
        }
        static String toString(c26::Lazy const& l) { return coil::fromStdString(l.v); }
    };
}
namespace ref
{
    template<>
    struct Conv<c26::Shade>
    {
        static std::string name() { return "Shade of %s"; }
        static CR conv(Fields const& f)
        {
            if (f.size() != 1)
                return badCount(f, name());
            CR r = Conv<int>::conv(f);
            return r.ok ? r : bad(f, name());
        }
        static Fields fields(vh::Gen& g, bool valid) { return Conv<int>::fields(g, valid); }
    };
    template<>
    struct Conv<c26::Lazy>
    {
        static std::string name() { return "lazily<made, " + std::string(300, 'n') + ">"; }
        static CR conv(Fields const& f) { return f.size() == 1 ? good("") : badCount(f, name()); }
        static Fields fields(vh::Gen& g, bool valid) { return Conv<coil::String>::fields(g, valid); }
    };
}
namespace c26
{
    struct Param
    {
        std::string type;
        ref::CR (*conv)(ref::Fields const&);
        ref::Fields (*fields)(vh::Gen&, bool);
    };
    struct Meta
    {
        std::vector<Param> params;
        std::string ret;
        int id = 0;
        bool own = false; // the id belongs to this very functor
    };
    extern int lastCalled; // the id of the overload which ran last

    // makes the functors of one kind of callable, and what their metadata should be
    struct Proto
    {
        char const* kind;
        std::function<coil::Vector<coil::AnyFunctor>(int id)> make;
        std::vector<Meta> meta;
    };
    std::vector<Proto>& protos();

    template<typename R>
    struct Result // a value to return
    {
        using V = std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<R>>>>;
        static R get()
        {
            static V v{};
            if constexpr (std::is_pointer_v<std::remove_reference_t<R>>)
            {
                static std::remove_cv_t<std::remove_reference_t<R>> p = &v;
                return p;
            }
            else if constexpr (std::is_rvalue_reference_v<R>)
                return std::move(v);
            else
                return v;
        }
        static std::string name()
        {
            if constexpr (std::is_void_v<V>)
                return "void";
            else
                return ref::Conv<V>::name();
        }
    };
    template<>
    struct Result<void>
    {
        static void get() {}
        static std::string name() { return "void"; }
    };

    template<typename T>
    Param param()
    {
        return {ref::Conv<T>::name(), &ref::Conv<T>::conv, &ref::Conv<T>::fields};
    }

    template<typename R, typename... Ts>
    struct Sig
    {
        struct Obj
        {
            int id = 0;
            R method(Ts...) { return lastCalled = id, Result<R>::get(); }
            R constMethod(coil::Context, Ts const&...) const noexcept { return lastCalled = id, Result<R>::get(); }
            R volatileMethod(Ts...) volatile { return lastCalled = const_cast<Obj*>(this)->id, Result<R>::get(); }
        };
        static Obj& obj(int id)
        {
            static std::map<int, std::unique_ptr<Obj>> objs;
            auto& o = objs[id % 200];
            if (!o)
                o = std::make_unique<Obj>();
            o->id = id;
            return *o;
        }
        struct Mutable
        {
            int id;
            R operator()(coil::Context const&, Ts const... )
            {
                lastCalled = id;
                return Result<R>::get();
            }
        };
        static inline int staticId = 0;
        static R freeFunction(Ts const&...) { return lastCalled = staticId, Result<R>::get(); }
        static R freeContext(coil::Context, Ts...) noexcept { return lastCalled = staticId, Result<R>::get(); }

        static void add()
        {
            Meta m;
            m.params = {param<Ts>()...};
            m.ret = Result<R>::name();
            auto one = [&](char const* kind, auto make) { protos().push_back({kind, [make](int id) { return coil::overloaded(make(id)); }, {m}}); };
            one("lambda", [](int id) { return [id](Ts...) -> R { return lastCalled = id, Result<R>::get(); }; });
            one("lambda with const references", [](int id) { return [id](coil::Context, Ts const&...) -> R { return lastCalled = id, Result<R>::get(); }; });
            one("lambda with const values", [](int id) { return [id](coil::Context const, Ts const...) mutable -> R { return lastCalled = id, Result<R>::get(); }; });
            one("mutable functor", [](int id) { return Mutable{id}; });
            one("function", [](int id) { return staticId = id, &freeFunction; });
            one("noexcept function with context", [](int id) { return staticId = id, &freeContext; });
            one("method", [](int id) { return coil::bind(&Obj::method, &obj(id)); });
            one("const method", [](int id) { return coil::bind(&Obj::constMethod, static_cast<Obj const*>(&obj(id))); });
            one("volatile method", [](int id) { return coil::bind(&Obj::volatileMethod, &obj(id)); });
            one("std::function", [](int id) { return std::function<R(coil::Context, Ts...)>([id](coil::Context, Ts const&...) -> R { return lastCalled = id, Result<R>::get(); }); });
        }
    };

    template<typename T>
    struct Var
    {
        static void add()
        {
            Meta get, set, setAny;
            get.ret = set.ret = setAny.ret = ref::Conv<T>::name();
            set.params = {param<T>()};
            setAny.params = {param<coil::Value>()};
            static T v{};
            auto two = [&](char const* kind, auto make, Meta const& s) { protos().push_back({kind, [make](int) { return make(); }, {get, s}}); };
            two("variable", [] { return coil::variable(&v); }, set);
            two("const variable", [] { return coil::variable(static_cast<T const*>(&v)); }, set);
            two("property", [] { return coil::property([]() -> T const& { return v; }, [](T const&) {}); }, set);
            two("property by value", [] { return coil::property([] { return v; }, [](T const&) {}); }, set);
            two("read-only property", [] { return coil::property([]() -> T& { return v; }); }, setAny);
            struct O
            {
                T const& get() const { return v; }
                T getCopy() { return v; }
                void set(T const&) {}
            };
            static O o;
            two("bound property", [] { return coil::bindProperty(&O::get, &O::set, &o); }, set);
            two("bound property by value", [] { return coil::bindProperty(&O::getCopy, &O::set, &o); }, set);
            two("bound read-only property", [] { return coil::bindProperty(&O::get, static_cast<O const*>(&o)); }, set);
        }
    };
    void part1();
    void part2();
    void part3();
    void part4();
}
