// Element types for the container monitors (C20, C22, C23): each is made from a number and gives it back.
#pragma once
#include "tracked.h"
#include "coilcmp.h"

#include <memory>

namespace elem
{
    // text of a number; every third is long enough to live on the heap of any string type, some contain NULs
    inline std::string text(long v)
    {
        std::string r = std::to_string(v);
        if (v % 3 == 1)
            r += std::string(static_cast<size_t>(20 + v % 50), static_cast<char>('a' + v % 26));
        if (v % 5 == 2)
            r += std::string("\0x", 2);
        return r;
    }

    struct Big
    {
        long v = -5;
        long pad[30] = {};
    };
    inline bool operator==(Big const& a, Big const& b) { return a.v == b.v; }
    inline bool operator!=(Big const& a, Big const& b) { return a.v != b.v; }
    struct Empty
    {
        bool operator==(Empty const&) const { return true; }
        bool operator!=(Empty const&) const { return false; }
    };

    // knows its own address, but needs no destructor
    struct Pinned
    {
        long v = -6;
        Pinned const* self = this;
        Pinned() = default;
        explicit Pinned(long n) : v(n) {}
        Pinned(Pinned const& r) : v(r.read()) {}
        Pinned& operator=(Pinned const& r)
        {
            v = r.read();
            return *this;
        }
        long read() const { return self == this ? v : -997; }
    };
    inline bool operator==(Pinned const& a, Pinned const& b) { return a.read() == b.read(); }
    inline bool operator!=(Pinned const& a, Pinned const& b) { return !(a == b); }
    // owns memory and can only be copied, also where a move would do
    struct CopyOnly
    {
        long* p;
        CopyOnly() : p(new long(-7)) {}
        explicit CopyOnly(long n) : p(new long(n)) {}
        CopyOnly(CopyOnly const& r) : p(new long(*r.p)) {}
        CopyOnly& operator=(CopyOnly const& r)
        {
            *p = *r.p;
            return *this;
        }
        ~CopyOnly() { delete p; }
        long read() const { return *p; }
    };
    inline bool operator==(CopyOnly const& a, CopyOnly const& b) { return a.read() == b.read(); }
    inline bool operator!=(CopyOnly const& a, CopyOnly const& b) { return !(a == b); }
    // of an odd size
    struct Odd
    {
        unsigned char b[5] = {1, 2, 3, 4, 5};
        long read() const { return b[3] == 4 && b[4] == static_cast<unsigned char>(b[0] ^ b[1] ^ b[2]) ? b[0] | b[1] << 8 | b[2] << 16 : b[4] == 5 && b[0] == 1 ? -8 : -996; }
    };
    inline bool operator==(Odd const& a, Odd const& b) { return a.read() == b.read(); }
    inline bool operator!=(Odd const& a, Odd const& b) { return !(a == b); }

    template<typename T>
    struct Elem;

#define ELEM_NUMBER(T)                                                          \
    template<>                                                                  \
    struct Elem<T>                                                              \
    {                                                                           \
        static constexpr bool copyable = true, comparable = true, tracked = false; \
        static constexpr char const* name = #T;                                 \
        static T make(long v) { return static_cast<T>(v); }                     \
        static long norm(long v) { return static_cast<long>(static_cast<T>(v)); } \
        static long read(T const& t) { return static_cast<long>(t); }           \
        static long def() { return 0; }                                         \
    }
    ELEM_NUMBER(int);
    ELEM_NUMBER(char);
    ELEM_NUMBER(long);
    ELEM_NUMBER(double);
    ELEM_NUMBER(bool);

    template<>
    struct Elem<Big>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "Big";
        static Big make(long v)
        {
            Big b;
            b.v = v;
            for (long& p : b.pad)
                p = v;
            return b;
        }
        static long norm(long v) { return v; }
        static long read(Big const& t)
        {
            if (t.v != -5)
                for (long p : t.pad)
                    if (p != t.v)
                        return -999;
            return t.v;
        }
        static long def() { return -5; }
    };
    template<>
    struct Elem<Pinned>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "Pinned";
        static Pinned make(long v) { return Pinned(v); }
        static long norm(long v) { return v; }
        static long read(Pinned const& t) { return t.read(); }
        static long def() { return -6; }
    };
    template<>
    struct Elem<CopyOnly>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "CopyOnly";
        static CopyOnly make(long v) { return CopyOnly(v); }
        static long norm(long v) { return v; }
        static long read(CopyOnly const& t) { return t.read(); }
        static long def() { return -7; }
    };
    template<>
    struct Elem<Odd>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "Odd";
        static Odd make(long v)
        {
            Odd o;
            o.b[0] = static_cast<unsigned char>(v);
            o.b[1] = static_cast<unsigned char>(v >> 8);
            o.b[2] = static_cast<unsigned char>(v >> 16);
            o.b[4] = static_cast<unsigned char>(o.b[0] ^ o.b[1] ^ o.b[2]);
            return o;
        }
        static long norm(long v) { return v & 0xffffff; }
        static long read(Odd const& t) { return t.read(); }
        static long def() { return -8; }
    };
    template<>
    struct Elem<Empty>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "Empty";
        static Empty make(long) { return {}; }
        static long norm(long) { return 0; }
        static long read(Empty const&) { return 0; }
        static long def() { return 0; }
    };
    inline long textRead(std::string const& s)
    {
        if (s.empty())
            return -3;
        long v = strtol(s.c_str(), nullptr, 10);
        return s == text(v) ? v : -998;
    }
    template<>
    struct Elem<coil::String>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "String";
        static coil::String make(long v) { return cs(text(v)); }
        static long norm(long v) { return v; }
        static long read(coil::String const& t) { return textRead(std::string(t.data(), t.length())); }
        static long def() { return -3; }
    };
    template<>
    struct Elem<std::string>
    {
        static constexpr bool copyable = true, comparable = true, tracked = false;
        static constexpr char const* name = "std::string";
        static std::string make(long v) { return text(v); }
        static long norm(long v) { return v; }
        static long read(std::string const& t) { return textRead(t); }
        static long def() { return -3; }
    };
    template<>
    struct Elem<vh::Tracked>
    {
        static constexpr bool copyable = true, comparable = true, tracked = true;
        static constexpr char const* name = "Tracked";
        static vh::Tracked make(long v) { return vh::Tracked(v); }
        static long norm(long v) { return v; }
        static long read(vh::Tracked const& t) { return t.check(); }
        static long def() { return 0; }
    };
    template<>
    struct Elem<coil::UniquePtr<vh::Tracked>>
    {
        using T = coil::UniquePtr<vh::Tracked>;
        static constexpr bool copyable = false, comparable = false, tracked = true;
        static constexpr char const* name = "UniquePtr<Tracked>";
        static T make(long v) { return coil::makeUnique<vh::Tracked>(v); }
        static long norm(long v) { return v; }
        static long read(T const& t) { return t ? t->check() : -3; }
        static long def() { return -3; }
    };
    template<>
    struct Elem<std::unique_ptr<vh::Tracked>>
    {
        using T = std::unique_ptr<vh::Tracked>;
        static constexpr bool copyable = false, comparable = false, tracked = true;
        static constexpr char const* name = "std::unique_ptr<Tracked>";
        static T make(long v) { return std::make_unique<vh::Tracked>(v); }
        static long norm(long v) { return v; }
        static long read(T const& t) { return t ? t->check() : -3; }
        static long def() { return -3; }
    };
    template<typename U>
    struct Elem<coil::Vector<U>>
    {
        using T = coil::Vector<U>;
        static constexpr bool copyable = Elem<U>::copyable, comparable = false, tracked = Elem<U>::tracked;
        static constexpr char const* name = "Vector<...>";
        // a number of elements which depends on the number
        static T make(long v)
        {
            T t;
            for (long i = 0; i <= v % 4; i++)
                t.pushBack(Elem<U>::make(v));
            return t;
        }
        static long norm(long v) { return Elem<U>::norm(v); }
        static long read(T const& t)
        {
            if (t.empty())
                return -3;
            long v = Elem<U>::read(t[0]);
            if (static_cast<long>(t.size()) != v % 4 + 1)
                return -997;
            for (auto const& u : t)
                if (Elem<U>::read(u) != v)
                    return -996;
            return v;
        }
        static long def() { return -3; }
    };
    template<>
    struct Elem<coil::Vector<char>>; // unused: numbers would wrap
}
