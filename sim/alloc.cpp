// operator new and delete: filled and guarded blocks, injected failures.
#include "internal.hpp"
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <sys/mman.h>

namespace sim
{
    int backtraceInto(void** f, int n) { return backtrace(f, n); }
}

namespace
{
    using sim::u64;
    constexpr size_t head = 80, before = 16, tail = 32;
    constexpr u64 alive = 0xA11FEA11FEA11FEull, dead = 0xDEADDEADDEADDEADull;
    constexpr unsigned char gone = 0xDD;
    constexpr u64 limit = 3ull << 30;

    struct Header
    {
        u64 size, state, offset, total; // offset of the user's block from the start of the malloc'ed one
        u64 noise;
        u64 library; // asked for by the library, not by the harness
    };

    u64 blocks = 0;

    // What a block holds before it is written, and what surrounds it: floats between 0.5 and 1 that differ from block to
    // block, so that a value read there makes a difference. The same in every execution of a plan.
    u64 noisy(u64& x)
    {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return (x & 0x007fffff007fffffull) | 0x3f0000003f000000ull;
    }

    void fill(char* at, size_t n, u64 x)
    {
        for (; n >= 8; n -= 8, at += 8)
        {
            const u64 v = noisy(x);
            memcpy(at, &v, 8);
        }
        if (n > 0)
        {
            const u64 v = noisy(x);
            memcpy(at, &v, n);
        }
    }

    bool filled(const char* at, size_t n, u64 x)
    {
        for (; n >= 8; n -= 8, at += 8)
        {
            const u64 v = noisy(x);
            if (memcmp(at, &v, 8) != 0)
                return false;
        }
        return true;
    }

    u64 live = 0, peak = 0, liveLibrary = 0;
    u64 noiseSeed = 0;
    bool zeroes = false;

    // Which bytes of the arena belong to a block in use: per 8 bytes, how many of the first ones.
    constexpr uintptr_t shadowBase = 0x200000000000ull;
    auto* const shadow = reinterpret_cast<unsigned char*>(shadowBase);
    bool shadowOn = false;
    struct Old { char* user; size_t size; };
    Old ring[512];
    unsigned ringNext = 0;
    int lock = 0;

    struct Lock
    {
        Lock() { while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) {} }
        ~Lock() { __atomic_store_n(&lock, 0, __ATOMIC_RELEASE); }
    };

    // An arena of its own at a fixed address, so that addresses (and what depends on their order) are the same in every
    // execution of a plan. Blocks are never returned to the system, those of a size class are used again.
    constexpr uintptr_t arenaBase = 0x100000000000ull;
    constexpr size_t arenaSize = 24ull << 30;
    bool arenaOn = false;
    char* arenaNext = nullptr;
    struct Free { Free* next; };
    Free* freeLists[160];

    int sizeClass(size_t n, size_t& size) // four classes per power of two
    {
        size = 64;
        int k = 0;
        while (size < n)
        {
            ++k;
            const int p = k / 4, q = k % 4;
            size = (64ull << p) + (16ull << p) * static_cast<size_t>(q);
        }
        return k;
    }

    char* arenaGet(size_t n)
    {
        size_t size;
        const int k = sizeClass(n, size);
        Lock l;
        if (auto* f = freeLists[k])
        {
            freeLists[k] = f->next;
            return reinterpret_cast<char*>(f);
        }
        size = (size + 63) & ~size_t{63};
        if (arenaNext + size > reinterpret_cast<char*>(arenaBase) + arenaSize)
            return nullptr;
        char* r = arenaNext;
        arenaNext += size;
        return r;
    }

    void arenaPut(char* raw, size_t n)
    {
        size_t size;
        const int k = sizeClass(n, size);
        if (size > 4u << 20)
            madvise(raw, size, MADV_DONTNEED);
        Lock l;
        auto* f = reinterpret_cast<Free*>(raw);
        f->next = freeLists[k];
        freeLists[k] = f;
    }

    bool inArena(const void* p)
    {
        const auto a = reinterpret_cast<uintptr_t>(p);
        return a >= arenaBase && a < arenaBase + arenaSize;
    }

    void mark(const char* user, size_t n, bool used)
    {
        if (!shadowOn || !inArena(user))
            return;
        unsigned char* s = shadow + (reinterpret_cast<uintptr_t>(user) - arenaBase) / 8;
        memset(s, used ? 8 : 0, n / 8);
        if (n % 8)
            s[n / 8] = used ? static_cast<unsigned char>(n % 8) : 0;
    }

    Header* headerOf(void* p) { return reinterpret_cast<Header*>(static_cast<char*>(p) - head); }

    void* allocate(size_t n, size_t align, bool nothrow)
    {
        if (!nothrow && sim::allocationFails())
            throw std::bad_alloc();
        if (n > limit || live + n > limit)
        {
            peak = ~u64{0};
            if (nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
        if (align < 64)
            align = 64;
        const size_t total = n + head + tail + align;
        char* raw = arenaOn ? arenaGet(total) : static_cast<char*>(malloc(total));
        if (raw == nullptr)
        {
            if (nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
        char* user = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(raw) + head + align - 1) & ~(align - 1));
        auto* h = headerOf(user);
        h->size = n;
        h->state = alive;
        h->offset = static_cast<u64>(user - raw);
        h->total = total;
        h->noise = (__atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED) + 77) * 0x9E3779B97F4A7C15ull ^ noiseSeed;
        h->library = sim::inLibrary();
        if (h->library)
            __atomic_fetch_add(&liveLibrary, n, __ATOMIC_RELAXED);
        mark(user, n, true);
        fill(user - before, before, h->noise);
        if (n <= 1 << 20)
        {
            if (zeroes)
                memset(user, 0, n);
            else
                fill(user, n, h->noise + 1);
        }
        fill(user + n, tail, h->noise + 2);
        if (const u64 l = __atomic_add_fetch(&live, n, __ATOMIC_RELAXED); l > peak)
            peak = l;
        return user;
    }

    void giveBack(char* user)
    {
        auto* h = headerOf(user);
        char* raw = user - h->offset;
        if (inArena(raw))
            arenaPut(raw, h->total);
        else
            free(raw);
    }

    void release(void* p)
    {
        if (p == nullptr)
            return;
        auto* h = headerOf(p);
        char* user = static_cast<char*>(p);
        if (h->state != alive)
        {
            if (sim::on)
                sim::dieAt("heap", h->state == dead ? "a block is freed twice" : "a corrupted block is freed");
            return;
        }
        if (!filled(user + h->size, tail, h->noise + 2) && sim::on)
            sim::dieAt("heap", "a write past the end of a block of " + std::to_string(h->size) + " bytes");
        if (!filled(user - before, before, h->noise) && sim::on)
            sim::dieAt("heap", "a write before the start of a block of " + std::to_string(h->size) + " bytes");
        h->state = dead;
        __atomic_fetch_sub(&live, h->size, __ATOMIC_RELAXED);
        if (h->library)
            __atomic_fetch_sub(&liveLibrary, h->size, __ATOMIC_RELAXED);
        mark(user, h->size, false);
        if (h->size > 1 << 16)
        {
            giveBack(user);
            return;
        }
        memset(user, gone, h->size);
        Old old;
        {
            Lock l;
            old = ring[ringNext];
            ring[ringNext] = {user, h->size};
            ringNext = (ringNext + 1) % 512;
        }
        if (old.user != nullptr)
        {
            for (size_t i = 0; i < old.size; ++i)
                if (static_cast<unsigned char>(old.user[i]) != gone)
                {
                    if (sim::on)
                        sim::dieAt("heap", "a write into a freed block of " + std::to_string(old.size) + " bytes");
                    break;
                }
            giveBack(old.user);
        }
    }
}

namespace sim
{
    u64 liveBytes() { return live; }
    u64 libraryBytes() { return liveLibrary; }
    void setNoise(u64 n)
    {
        noiseSeed = n;
        zeroes = n == 0;
    }

    void* noisy(void* p, size_t n)
    {
        if (zeroes)
            memset(p, 0, n);
        else
            fill(static_cast<char*>(p), n, (__atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED) + 77) * 0x9E3779B97F4A7C15ull ^ noiseSeed);
        return p;
    }

    void watchHeap()
    {
        if (mmap(reinterpret_cast<void*>(shadowBase), arenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != reinterpret_cast<void*>(shadowBase))
            error("no shadow");
        shadowOn = true;
        disposed.assign(arenaLen / 64, 0);
        heapLo = arenaBase;
        heapLen = static_cast<uintptr_t>(arenaNext - reinterpret_cast<char*>(arenaBase)); // what was allocated before is not known
        heapLo += heapLen;
        heapLen = arenaSize - heapLen;
    }

    void checkHeap(uintptr_t a, size_t n, bool write)
    {
        const uintptr_t first = (a - arenaBase) / 8, last = (a + n - 1 - arenaBase) / 8;
        for (uintptr_t g = first; g <= last; ++g)
            if (shadow[g] < (g == last ? (a + n - 1) % 8 + 1 : 8))
            {
                std::string where = "memory that is not allocated";
                // the nearest block before it
                for (uintptr_t d = 0; d < 1 << 14 && d <= first; ++d)
                    if (shadow[first - d] == 8 || (d > 0 && shadow[first - d] != 0))
                    {
                        where += ", " + std::to_string(8 * d) + " to " + std::to_string(8 * d + 8) + " bytes past the nearest block before it";
                        break;
                    }
                badAccess(std::string(write ? "a write of " : "a read of ") + std::to_string(n) + " bytes in " + where);
                return;
            }
    }

    u64 peakBytes() { return peak; }
    void resetPeak() { peak = live; }

    void startArena()
    {
        if (mmap(reinterpret_cast<void*>(arenaBase), arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0)
            != reinterpret_cast<void*>(arenaBase))
            error("no arena");
        arenaNext = reinterpret_cast<char*>(arenaBase);
        memset(ring, 0, sizeof ring);
        ringNext = 0;
        blocks = 0;
        arenaOn = true;
    }
}

void* operator new(size_t n) { return allocate(n, 0, false); }
void* operator new[](size_t n) { return allocate(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a), false); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
