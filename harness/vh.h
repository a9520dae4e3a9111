// Common runtime for the monitors: seeded generation, violation reporting, evidence counters,
// allocation ledger with fault injection.  Every harness defines
//     void vh_case(vh::Gen& g);          one workload + its online/offline oracle
// and optionally extra modes through vh_mode().
#pragma once

#include <cctype>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto const* c = static_cast<unsigned char const*>(p);
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 1099511628211ull;
        return mix(h ^ n);
    }
    inline uint64_t hashStr(std::string const& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

    // the monitor's own bookkeeping stays out of the ledger
    template<typename T>
    struct MA
    {
        using value_type = T;
        MA() = default;
        template<typename U>
        MA(MA<U> const&) {}
        T* allocate(size_t n)
        {
            void* p = malloc(n * sizeof(T) + 1);
            if (!p)
                abort();
            return static_cast<T*>(p);
        }
        void deallocate(T* p, size_t) { free(p); }
        template<typename U>
        bool operator==(MA<U> const&) const { return true; }
        template<typename U>
        bool operator!=(MA<U> const&) const { return false; }
    };
    using mstring = std::basic_string<char, std::char_traits<char>, MA<char>>;
    struct CStrLess
    {
        bool operator()(char const* a, char const* b) const { return strcmp(a, b) < 0; }
    };

    // --- allocation ledger ---------------------------------------------------------------------
    // Lives outside the heap blocks (so that ASan's redzones stay adjacent to the user data).
    struct Ledger
    {
        struct Slot
        {
            void* p;
            size_t size;
            unsigned char kind;
        };
        static constexpr size_t cap = size_t(1) << 21;
        Slot* slots = nullptr;
        long liveBlocks = 0;
        long long liveBytes = 0;
        long long totalBytes = 0;
        long totalBlocks = 0;
        long failAt = -1; // the n-th allocation from now fails (0 = the next one)
        long failed = 0;
        bool failArmed = false;
        int fill = -1; // heap fill pattern
        size_t used = 0;
        long long maxSingle = 0;
    };
    inline Ledger& ledger()
    {
        static Ledger l;
        return l;
    }

    [[noreturn]] void violation(char const* key, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

    // --- generator -----------------------------------------------------------------------------
    struct Gen
    {
        uint64_t s = 0;
        uint8_t const* bytes = nullptr; // when set, decisions come from the fuzzer's bytes
        size_t left = 0;
        bool fuzz = false;

        explicit Gen(uint64_t seed) : s(seed) {}
        Gen(uint8_t const* d, size_t n) : bytes(d), left(n), fuzz(true) {}

        bool exhausted() const { return fuzz && left == 0; }

        uint64_t raw()
        {
            s += 0x9e3779b97f4a7c15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) // [0, n)
        {
            if (n <= 1)
                return 0;
            if (!fuzz)
                return raw() % n;
            uint64_t v = 0;
            uint64_t range = n - 1;
            while (range)
            {
                v = (v << 8) | next8();
                range >>= 8;
            }
            return v % n;
        }
        uint8_t next8()
        {
            if (!fuzz)
                return static_cast<uint8_t>(raw() >> 24);
            if (!left)
                return 0;
            left--;
            return *bytes++;
        }
        uint64_t u64()
        {
            if (!fuzz)
                return raw();
            uint64_t v = 0;
            for (int i = 0; i < 8; i++)
                v = (v << 8) | next8();
            return v;
        }
        int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
        bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // false when the fuzzer's bytes ran out
        bool coin() { return chance(1, 2); }
        template<typename C>
        auto const& pick(C const& c) { return c[below(std::size(c))]; }
        // log-uniform with a bias to powers of two and their neighbours
        size_t logsize(size_t max)
        {
            if (max == 0)
                return 0;
            unsigned bits = 0;
            while ((size_t(1) << bits) <= max)
                bits++;
            unsigned b = static_cast<unsigned>(below(bits + 1));
            if (b == 0)
                return 0;
            size_t base = size_t(1) << (b - 1);
            size_t v;
            if (chance(1, 3))
                v = base + static_cast<size_t>(range(-1, 1));
            else
                v = base + below(base);
            return v > max ? max : v;
        }
    };

    // --- global state of a run -----------------------------------------------------------------
    struct Progress
    {
        uint64_t caseIndex;
        uint64_t stage;
    };
    struct State
    {
        uint64_t seed = 1;
        uint64_t caseIndex = 0;
        uint64_t evaluations = 0;
        uint64_t nontrivialSeen = 0;
        std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<uint64_t>> distinct;
        std::map<char const*, uint64_t, CStrLess, MA<std::pair<char const* const, uint64_t>>> counters; // keys are literals
        std::vector<mstring, MA<mstring>> samples;
        Progress* progress = nullptr;
        Progress dummy{};
        char const* property = "C00";
        std::string mode = "cases";
        bool thorough = false;
        mstring note; // description of the running case, printed with a violation
        bool verbose = false;
        mstring transcript; // C24
        bool wantTranscript = false;
    };
    inline State& st()
    {
        static State s;
        return s;
    }
    inline void count(char const* name, uint64_t n = 1) { st().counters[name] += n; }
    inline void observe(uint64_t h, bool nontrivial = true)
    {
        if (!nontrivial)
            return;
        st().nontrivialSeen++;
        if (st().distinct.size() < 400000)
            st().distinct.insert(h);
    }
    inline void sample(std::string const& s)
    {
        if (st().samples.size() < 4)
            st().samples.emplace_back(s.data(), s.size() < 400 ? s.size() : 400);
    }
    inline std::string esc(std::string_view s)
    {
        std::string r;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '\\')
                r += "\\\\";
            else if (c >= 32 && c < 127)
                r += static_cast<char>(c);
            else
            {
                snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            }
            if (r.size() > 6000)
                return r + "...";
        }
        return r;
    }
    inline std::string fmt(char const* f, ...)
    {
        va_list a;
        va_start(a, f);
        char b[8192];
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }

    inline void violation(char const* key, char const* f, ...)
    {
        ledger().failArmed = false;
        va_list a;
        va_start(a, f);
        static char b[16384];
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        fflush(stdout);
        fprintf(stderr, "VH-VIOLATION\t%s\tcase=%llu\t%s\n", key, static_cast<unsigned long long>(st().caseIndex), b);
        if (!st().note.empty())
            fprintf(stderr, "VH-NOTE\t%s\n", st().note.c_str());
        fflush(stderr);
#ifdef VH_FUZZ
        abort();
#else
        _exit(86);
#endif
    }

#define VH_CHECK(cond, key, ...)             \
    do                                       \
    {                                        \
        if (!(cond))                         \
            ::vh::violation(key, __VA_ARGS__); \
    } while (0)

    // --- leak / consistency of the ledger -------------------------------------------------------
    struct LiveMark
    {
        long blocks;
        long long bytes;
    };
    inline LiveMark mark() { return {ledger().liveBlocks, ledger().liveBytes}; }

    // fail the n-th allocation made inside a scope
    struct FailScope
    {
        FailScope(long n)
        {
            ledger().failAt = n;
            ledger().failed = 0;
            ledger().failArmed = true;
        }
        ~FailScope() { ledger().failArmed = false; }
        bool fired() const { return ledger().failed > 0; }
    };
}

void vh_case(vh::Gen& g);
void vh_warmup();                       // one-time statics, before leak accounting
bool vh_mode(std::string const& mode, uint64_t from, uint64_t to); // extra modes; return false if unknown

#ifndef VH_NO_MAIN_DEFS

    #ifndef VH_NO_LEDGER
namespace vh
{
    inline void ledgerInit()
    {
        auto& l = ledger();
        if (!l.slots)
        {
            void* p = mmap(nullptr, sizeof(Ledger::Slot) * Ledger::cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED)
                abort();
            l.slots = static_cast<Ledger::Slot*>(p);
        }
    }
    inline size_t ledgerHash(void* p) { return mix(reinterpret_cast<uintptr_t>(p)) & (Ledger::cap - 1); }
    inline void* ledgerAlloc(size_t n, unsigned char kind, bool nothrow)
    {
        auto& l = ledger();
        if (!l.slots)
            ledgerInit();
        if (l.failArmed)
        {
            if (l.failAt == 0)
            {
                l.failAt = -1;
                l.failed++;
                if (nothrow)
                    return nullptr;
                throw std::bad_alloc{};
            }
            if (l.failAt > 0)
                l.failAt--;
        }
        if (n > (size_t(1) << 40) || l.liveBytes + static_cast<long long>(n) > (1ll << 30))
            violation("memory-runaway", "allocation of %zu bytes with %lld bytes live", n, l.liveBytes);
        void* p = malloc(n ? n : 1);
        if (!p)
            abort();
        if (l.fill >= 0)
            memset(p, l.fill, n);
        size_t i = ledgerHash(p);
        while (l.slots[i].p && l.slots[i].p != reinterpret_cast<void*>(1))
            i = (i + 1) & (Ledger::cap - 1);
        if (!l.slots[i].p)
            l.used++;
        if (l.used > Ledger::cap / 4 * 3)
        {
            // rebuild: drop the tombstones
            auto* old = l.slots;
            l.slots = nullptr;
            ledgerInit();
            l.used = 0;
            for (size_t k = 0; k < Ledger::cap; k++)
                if (old[k].p && old[k].p != reinterpret_cast<void*>(1))
                {
                    size_t j = ledgerHash(old[k].p);
                    while (l.slots[j].p)
                        j = (j + 1) & (Ledger::cap - 1);
                    l.slots[j] = old[k];
                    l.used++;
                }
            munmap(old, sizeof(Ledger::Slot) * Ledger::cap);
            i = ledgerHash(p);
            while (l.slots[i].p)
                i = (i + 1) & (Ledger::cap - 1);
            l.used++;
        }
        l.slots[i] = {p, n, kind};
        l.liveBlocks++;
        l.liveBytes += static_cast<long long>(n);
        l.totalBlocks++;
        l.totalBytes += static_cast<long long>(n);
        if (static_cast<long long>(n) > l.maxSingle)
            l.maxSingle = static_cast<long long>(n);
        return p;
    }
    inline void ledgerFree(void* p, unsigned char kind, size_t size, bool sized)
    {
        if (!p)
            return;
        auto& l = ledger();
        if (!l.slots)
            ledgerInit();
        size_t i = ledgerHash(p);
        while (l.slots[i].p && l.slots[i].p != p)
            i = (i + 1) & (Ledger::cap - 1);
        if (!l.slots[i].p)
            violation("bad-free", "delete of %p, which is not a live block (double delete or a pointer that was not allocated)", p);
        if (l.slots[i].kind != kind)
            violation("mismatched-delete", "block of %zu bytes allocated with %s is released with %s", l.slots[i].size, l.slots[i].kind == 1 ? "new" : "new[]", kind == 1 ? "delete" : "delete[]");
        if (sized && l.slots[i].size != size)
            violation("sized-delete", "block of %zu bytes released as %zu bytes", l.slots[i].size, size);
        l.liveBlocks--;
        l.liveBytes -= static_cast<long long>(l.slots[i].size);
        l.slots[i].p = reinterpret_cast<void*>(1);
        if (l.fill >= 0)
            memset(p, 0xDD, l.slots[i].size);
        free(p);
    }
}
void* operator new(size_t n) { return vh::ledgerAlloc(n, 1, false); }
void* operator new[](size_t n) { return vh::ledgerAlloc(n, 2, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return vh::ledgerAlloc(n, 1, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return vh::ledgerAlloc(n, 2, true); }
void operator delete(void* p) noexcept { vh::ledgerFree(p, 1, 0, false); }
void operator delete[](void* p) noexcept { vh::ledgerFree(p, 2, 0, false); }
void operator delete(void* p, size_t n) noexcept { vh::ledgerFree(p, 1, n, true); }
void operator delete[](void* p, size_t n) noexcept { vh::ledgerFree(p, 2, n, true); }
void operator delete(void* p, std::nothrow_t const&) noexcept { vh::ledgerFree(p, 1, 0, false); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { vh::ledgerFree(p, 2, 0, false); }
    #endif

namespace vh
{
    inline uint64_t caseSeed(uint64_t i) { return mix(mix(st().seed * 1000003ull + 17) ^ hashStr(st().property) ^ mix(i + 0x51ed27ull)); }

    inline void runCase(Gen g)
    {
    #ifndef VH_NO_LEDGER
        Gen copy = g;
        LiveMark before = mark();
        vh_case(g);
        LiveMark after = mark();
        if (after.blocks != before.blocks)
        {
            // possibly a lazily initialised static: only a leak which repeats is one
            for (int attempt = 0; attempt < 3; attempt++)
            {
                LiveMark b2 = mark();
                Gen c2 = copy;
                vh_case(c2);
                if (mark().blocks == b2.blocks)
                    return;
            }
            violation("leak", "%ld heap blocks (%lld bytes) still live after the case, each time it runs", after.blocks - before.blocks, after.bytes - before.bytes);
        }
    #else
        vh_case(g);
    #endif
    }

    inline void onAlarm(int)
    {
        static char const m[] = "VH-HANG\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(87);
    }

    inline std::string jsonEsc(std::string_view s)
    {
        std::string r;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c >= 32 && c < 127)
                r += static_cast<char>(c);
            else
            {
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
        }
        return r;
    }

    inline void writeSummary(std::string const& path)
    {
        if (path.empty())
            return;
        FILE* f = fopen(path.c_str(), "w");
        if (!f)
            _exit(2);
        fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"counters\": {", static_cast<unsigned long long>(st().evaluations), static_cast<unsigned long long>(st().nontrivialSeen));
        bool first = true;
        for (auto& [k, v] : st().counters)
        {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEsc(k).c_str(), static_cast<unsigned long long>(v));
            first = false;
        }
        fprintf(f, "}, \"samples\": [");
        first = true;
        for (auto& s : st().samples)
        {
            fprintf(f, "%s\"%s\"", first ? "" : ", ", jsonEsc(s).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((path + ".hashes").c_str(), "wb");
        for (uint64_t h : st().distinct)
            fwrite(&h, 8, 1, f);
        fclose(f);
    }
}

    #ifdef VH_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    vh::st().property = VH_PROPERTY;
    vh_warmup();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* d, size_t n)
{
    vh::runCase(vh::Gen(d, n));
    vh::st().samples.clear();
    return 0;
}
    #else
int main(int argc, char** argv)
{
    using namespace vh;
    uint64_t from = 0, to = 100;
    std::string progress, summary;
    st().property = VH_PROPERTY;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() -> char const* {
            if (i + 1 >= argc)
                exit(2);
            return argv[++i];
        };
        if (a == "--from")
            from = strtoull(val(), nullptr, 10);
        else if (a == "--to")
            to = strtoull(val(), nullptr, 10);
        else if (a == "--seed")
            st().seed = strtoull(val(), nullptr, 10);
        else if (a == "--progress")
            progress = val();
        else if (a == "--summary")
            summary = val();
        else if (a == "--mode")
            st().mode = val();
        else if (a == "--thorough")
            st().thorough = true;
        else if (a == "--verbose")
            st().verbose = true;
        else if (a == "--fill")
            ledger().fill = atoi(val());
        else if (a == "--bytes")
            ; // handled by the fuzz build
        else
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    st().progress = &st().dummy;
    if (!progress.empty())
    {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0)
            return 2;
        void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            return 2;
        st().progress = static_cast<Progress*>(p);
        close(fd);
    }
    signal(SIGALRM, onAlarm);
    setvbuf(stderr, nullptr, _IOLBF, 1 << 16);
    st().distinct.reserve(100000);
    vh_warmup();
    if (st().mode == "cases")
    {
        for (uint64_t i = from; i < to; i++)
        {
            st().caseIndex = i;
            st().progress->caseIndex = i;
            st().note.clear();
            alarm(VH_ALARM);
            st().evaluations++;
            runCase(Gen(caseSeed(i)));
        }
    }
    else
    {
        alarm(600);
        if (!vh_mode(st().mode, from, to))
            return 2;
    }
    alarm(0);
    writeSummary(summary);
    printf("VH-DONE %llu\n", static_cast<unsigned long long>(st().evaluations));
    return 0;
}
    #endif
#endif
