#pragma once
#include "sim.hpp"
#include <pthread.h>

namespace sim
{
    enum Kind : u64 { kRead = 1, kWrite, kAtomic, kCoarse, kCall, kHarness };

    struct Th
    {
        int id;
        u64 key, children = 0;
        std::map<u64, u64> draws;
        pthread_t real{};
        bool hasReal = false;
        int baton = 0;
        enum { Runnable, Sleeping, Blocked, Done } st = Runnable;
        i64 wake = 0;
        const void* waitOn = nullptr;
        bool timedOut = false;
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        void* ret = nullptr;
        bool detached = false;
        int quiet = 0;
        u64 yields = 0;
        u64 sleeps = 0;
        i64 lastWake = 0;
        bool asked = false; // the sleep was asked for
        i64 doneAt = -1;
        i64 injected = 0;
        u64 sinceSwitch = 0, lastActive = 0;
        i64 prio = 0;
        std::function<void()> harness;
    };

    extern bool on;
    extern __thread Th* me;
    extern int coarseLeft, coarseEvery;
    void sleepFor(i64 ns);
    void crashNow() __attribute__((noreturn));
    extern uintptr_t arenaLo, arenaLen, globLo, globLen;

    void yield(u64 kind);
    // blocks the calling thread on an object until woken or until the deadline (< 0: none); false if timed out
    bool block(const void* object, i64 deadline);
    void wakeOne(const void* object);
    void wakeAll(const void* object);
    void sleepUntil(i64 t, bool countAsSleep);
    int createThread(pthread_t* out, void* (*fn)(void*), void* arg, bool detached);
    int joinThread(pthread_t t, void** ret);
    int detachThread(pthread_t t);
    i64 realtime();
    u64 drawSeed(const void* device = nullptr);
    bool allocationFails();
    bool threadCreationFails();
    bool inLibrary(); // not in the harness
    extern uintptr_t heapLo, heapLen; // watched
    extern std::vector<unsigned char> disposed; // per 64 bytes of the watched objects, empty if they are not watched for that
    void checkHeap(uintptr_t a, size_t n, bool write);
    void badAccess(const std::string& msg);
    int backtraceInto(void** frames, int n);
    void dieAt(const std::string& kind, const std::string& msg) __attribute__((noreturn));
}
