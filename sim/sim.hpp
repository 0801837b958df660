// Deterministic simulator: one real thread runs at a time, which one is decided by the plan (seed + fault lines).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
    using u64 = uint64_t;
    using i64 = int64_t;

    inline u64 mix(u64 a, u64 b = 0)
    {
        u64 z = a + 0x9E3779B97F4A7C15ull * (b + 1);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    struct Rng // the only generator used by the scheduler and the workloads
    {
        u64 s;
        explicit Rng(u64 seed) : s(mix(seed, 77)) {}
        u64 next() { return s = mix(s, 1); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        int range(int a, int b) { return a + static_cast<int>(below(static_cast<u64>(b - a + 1))); }
        float real(float a, float b) { return a + (b - a) * (static_cast<float>(next() >> 40) / 16777216.0f); }
        bool chance(int percent) { return below(100) < static_cast<u64>(percent); }
    };

    // ------------------------------------------------------------------ plan
    struct Line
    {
        std::string key;
        std::vector<std::string> args;
        i64 num(size_t i, i64 def = 0) const;
        std::string str(size_t i, const std::string& def = "") const { return i < args.size() ? args[i] : def; }
    };

    struct Plan
    {
        std::string text;
        std::vector<Line> lines;
        static Plan parse(const std::string& text);
        i64 num(const std::string& key, i64 def = 0) const;         // first "key value"
        std::string str(const std::string& key, const std::string& def = "") const;
        bool has(const std::string& key) const;
        std::vector<Line> all(const std::string& key) const;
    };

    // ------------------------------------------------------------------ result of a run
    struct Shared // shared between the server and the simulated processes of one run
    {
        char verdict[32];      // "", "ok", "violation", "error"
        char kind[64];         // class of the violation, used by the minimiser
        char msg[4096];
        u64 hash, schedHash, steps, switches, coarse;
        i64 simNs;
        char counters[8192];   // "name=value ..." faults fired and probes
        u64 blobSize;
        char blob[6 << 20];    // what a phase leaves to the next one (the simulator's own knowledge, not durable state)
        u64 devSize;
        char devs[2 << 20];    // recorded preemptions
        bool wantNextPhase;
        bool crashed;
    };

    extern Shared* shared;
    extern bool verbose;

    // ------------------------------------------------------------------ life of a simulated process
    void begin(const Plan& plan, int phase); // the calling thread becomes simulated thread 0
    [[noreturn]] void finishOk();
    [[noreturn]] void fail(const std::string& kind, const std::string& msg); // a violation
    [[noreturn]] void error(const std::string& msg);                        // an error of the harness
    [[noreturn]] void nextPhase();                                          // end this process, run the next one
    extern std::function<bool(const std::string& kind)> concerns; // does a hang or a deadlock now concern the property of the run?
    void saveBlob(const std::string& s);
    std::string loadBlob();

    void count(const std::string& name, u64 n = 1); // fault fired or probe reached
    void note(u64 v);                               // folds an observation into the run's hash
    void note(const std::string& s);
    void log(const std::string& s);                 // replay output only

    // ------------------------------------------------------------------ time and threads
    i64 now();        // ns since the beginning of the process, monotonic
    u64 steps();
    int self();       // id of the calling simulated thread
    void pause();     // a scheduling point
    void consume(i64 ns); // the calling thread works for that long (the others run meanwhile)
    u64 sleepsDone(int thread);
    i64 lastWake(int thread);   // end of its last sleep asked by the library
    u64 yieldsOf(int thread);   // scheduling points it went through
    bool waiting(int thread);   // blocked, or asleep because it asked for it
    i64 doneAt(int thread);     // when it finished, -1 if it has not
    i64 delayInjected(int thread); // total of stalls and oversleeps injected in that thread
    int liveThreads(); // simulated threads not finished, the caller included
    int threadCount(); // simulated threads created so far
    u64 deaths();

    int spawn(u64 key, std::function<void()> fn); // a harness thread, with its own random stream
    void join(int thread);
    bool finished(int thread);
    u64 setKey(u64 key); // random stream of the calling thread

    struct Quiet // harness code called back by the library: no scheduling point, no injected fault
    {
        Quiet();
        ~Quiet();
    };

    struct Loud // a call of the library from quiet harness code
    {
        int saved;
        Loud();
        ~Loud();
    };

    // ------------------------------------------------------------------ memory
    void* noisy(void* p, size_t n); // as memory is before it is written
    void* arena(size_t size); // memory whose accesses are scheduling points
    void forget(void* p, size_t n); // an object there was destroyed
    template <class T>
    void dispose(T* t)
    {
        t->~T();
        forget(t, sizeof(T));
    }

    template <class T, class... A>
    T* make(A&&... a) { return new (noisy(arena(sizeof(T)), sizeof(T))) T(std::forward<A>(a)...); }

    void armOom(i64 k, i64 count = 1); // the k-th allocation from now fails (k >= 1), and the count - 1 next ones
    bool oomFired();
    bool disarmOom();                  // true if it fired
    u64 allocations();                 // so far, by library code
    u64 liveBytes();
    u64 libraryBytes();                // of those allocated by library code
    void watchHeap();                  // from now on, accesses of the library to memory that is not in use are violations
    void setNoise(u64 seed);           // what blocks hold before they are written (0: zeroes)
    u64 peakBytes(); // since the last reset; the largest number if more than 3 GB were asked for
    void resetPeak();
    void startArena(); // allocations at addresses that depend on the execution only

    // ------------------------------------------------------------------ faults on files and threads
    void armIo(bool on); // the "io", "full" and "iocrash" lines apply while armed, counted from the first arming
    u64 ioOps();
    u64 ioFired(); // injected i/o errors so far
    std::vector<std::string> writtenFiles(); // names of all files opened for writing by this process
    void armThreadFailure(i64 k);
    bool threadFailureFired();
    void armCrash(u64 n); // the process is killed n scheduling points from now
    void disarmCrash();
}
