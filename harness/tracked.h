// Instance ledger: every construction, copy, move and destruction of a tracked object is checked and recorded.
#pragma once
#include "vh.h"

namespace vh
{
    struct Instances
    {
        // address -> logical id (or husk after being moved from)
        std::map<void const*, long, std::less<void const*>, MA<std::pair<void const* const, long>>> live;
        std::map<long, long, std::less<long>, MA<std::pair<long const, long>>> holders; // logical id -> live holders
        long copies = 0, moves = 0, constructed = 0, destroyed = 0;
        long throwIn = -1; // the n-th copy or move from now throws
        bool throwOnMove = false;
        long nextId = 1;
        void reset()
        {
            live.clear();
            holders.clear();
            copies = moves = constructed = destroyed = 0;
            throwIn = -1;
            throwOnMove = false;
        }
        long holdersOf(long id)
        {
            auto it = holders.find(id);
            return it == holders.end() ? 0 : it->second;
        }
    };
    inline Instances& inst()
    {
        static Instances i;
        return i;
    }
    struct Boom
    {
    };

    static constexpr long husk = -1;

    struct Tracked
    {
        long id;
        void* self; // detects bitwise relocation
        explicit Tracked(long i) : id(i), self(this) { enter(); }
        Tracked() : id(0), self(this) { enter(); }
        Tracked(Tracked const& r) : id(r.check()), self(this)
        {
            maybeThrow();
            inst().copies++;
            enter();
        }
        Tracked(Tracked&& r) : id(r.check()), self(this)
        {
            if (inst().throwOnMove)
                maybeThrow();
            inst().moves++;
            r.become(husk);
            enter();
        }
        Tracked& operator=(Tracked const& r)
        {
            long v = r.check();
            check();
            maybeThrow();
            inst().copies++;
            become(v);
            return *this;
        }
        Tracked& operator=(Tracked&& r)
        {
            long v = r.check();
            check();
            if (inst().throwOnMove)
                maybeThrow();
            inst().moves++;
            if (&r != this)
            {
                r.become(husk);
                become(v);
            }
            return *this;
        }
        ~Tracked()
        {
            auto it = inst().live.find(this);
            VH_CHECK(it != inst().live.end(), "destroyed-twice", "an object which does not exist is destroyed (id %ld)", id);
            VH_CHECK(self == this, "relocated", "an object was relocated without its constructor");
            drop(it->second);
            inst().live.erase(it);
            inst().destroyed++;
            id = -77;
            self = nullptr;
        }
        long check() const
        {
            auto it = inst().live.find(this);
            VH_CHECK(it != inst().live.end(), "used-dead", "an object which does not exist is used");
            VH_CHECK(self == this && it->second == id, "corrupted", "an object was overwritten");
            return id;
        }
        bool operator==(Tracked const& r) const { return check() == r.check(); }
        bool operator!=(Tracked const& r) const { return check() != r.check(); }

    private:
        static void maybeThrow()
        {
            if (inst().throwIn == 0)
            {
                inst().throwIn = -1;
                throw Boom{};
            }
            if (inst().throwIn > 0)
                inst().throwIn--;
        }
        static void drop(long v)
        {
            if (v == husk)
                return;
            auto& h = inst().holders;
            auto it = h.find(v);
            if (it != h.end() && --it->second == 0)
                h.erase(it);
        }
        void enter()
        {
            bool fresh = inst().live.emplace(this, id).second;
            VH_CHECK(fresh, "constructed-twice", "an object is constructed over a live one");
            if (id != husk)
                inst().holders[id]++;
            inst().constructed++;
        }
        void become(long v)
        {
            drop(id);
            id = v;
            inst().live[this] = v;
            if (v != husk)
                inst().holders[v]++;
        }
    };
}
