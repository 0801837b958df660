#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sim
{
    Shared* shared = nullptr;
    bool verbose = false;
    bool on = false;
    __thread Th* me = nullptr;
    int coarseLeft = 64;
    int coarseEvery = 64;
    uintptr_t arenaLo = 0, arenaLen = 0, globLo = 0, globLen = 0;
    uintptr_t heapLo = 0, heapLen = 0;
    std::vector<unsigned char> disposed;

    namespace
    {
        std::vector<Th*> threads;
        i64 nowNs = 0, tickNs = 500;
        u64 stepCount = 0, stepCap = 3000000, switchCount = 0, schedHash = 0, runHash = 0, coarse = 0;
        u64 seed = 1;
        enum { PolDev, PolRand, PolRr, PolPct } policy = PolDev;
        u64 polArg = 0;
        Rng polRng(1);
        std::vector<u64> pctChange;
        u64 fairness = 20000;
        i64 nextWake = INT64_MAX;
        struct Event { enum { Stall, Dev } what; i64 arg; };
        std::map<int, std::map<u64, std::vector<Event>>> events; // thread -> yield number -> events
        std::vector<std::pair<u64, i64>> jumps;                  // step -> ns, applied to the realtime clock
        i64 realtimeOffset = 0;
        u64 crashStep = 0;
        std::map<std::string, u64> counters;
        bool ending = false;
        i64 oomAt = 0, oomCount = 0;
        bool oomHit = false;
        u64 allocCount = 0;
        std::map<u64, i64> oversleep; // k-th sleep -> ns
        u64 sleepCount = 0;
        i64 thFailAt = 0;
        char* arenaNext = nullptr;
        char* arenaEnd = nullptr;
        u64 deathCount = 0;
        std::string phaseText;

        long rawFutex(int* a, int op, int v)
        {
            long r;
            register long r10 __asm__("r10") = 0;
            register long r8 __asm__("r8") = 0;
            register long r9 __asm__("r9") = 0;
            __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
            return r;
        }

        void waitBaton(Th* t)
        {
            while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
                rawFutex(&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
            __atomic_store_n(&t->baton, 0, __ATOMIC_RELEASE);
        }

        void giveBaton(Th* t)
        {
            __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
            rawFutex(&t->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
        }

        inline void fold(u64 v) { runHash = (runHash ^ v) * 0x100000001B3ull; runHash ^= runHash >> 29; }

        void setRunnable(Th* t);

        void wakeDue()
        {
            if (nowNs < nextWake)
                return;
            nextWake = INT64_MAX;
            for (auto* t : threads)
            {
                const bool timed = t->st == Th::Sleeping || (t->st == Th::Blocked && t->wake >= 0);
                if (!timed)
                    continue;
                if (t->wake <= nowNs)
                {
                    t->timedOut = t->st == Th::Blocked;
                    setRunnable(t);
                    t->waitOn = nullptr;
                }
                else
                    nextWake = std::min(nextWake, t->wake);
            }
        }

        std::string describeThreads()
        {
            std::string s;
            for (auto* t : threads)
                s += " t" + std::to_string(t->id) + (t->st == Th::Runnable ? ":runnable" : t->st == Th::Sleeping ? ":sleeping" : t->st == Th::Blocked ? ":blocked" : ":done");
            return s;
        }

        Th* nextRoundRobin(Th* from)
        {
            const int n = static_cast<int>(threads.size());
            for (int i = 1; i <= n; ++i)
            {
                Th* t = threads[(from->id + i) % n];
                if (t->st == Th::Runnable)
                    return t;
            }
            return nullptr;
        }

        void setRunnable(Th* t)
        {
            t->st = Th::Runnable;
            t->lastActive = stepCount;
        }

        Th* starved(const Th* current)
        {
            Th* best = nullptr;
            for (auto* t : threads)
                if (t != current && t->st == Th::Runnable && t->lastActive + fairness <= stepCount && (best == nullptr || t->lastActive < best->lastActive))
                    best = t;
            return best;
        }

        int runnableCount()
        {
            int n = 0;
            for (auto* t : threads)
                n += t->st == Th::Runnable;
            return n;
        }

        Th* highestPriority()
        {
            Th* best = nullptr;
            for (auto* t : threads)
                if (t->st == Th::Runnable && (best == nullptr || t->prio > best->prio))
                    best = t;
            return best;
        }

        void record(Th* from, Th* to)
        {
            char line[64];
            const int n = snprintf(line, sizeof line, "dev %d %llu %d\n", from->id, static_cast<unsigned long long>(from->yields), to->id);
            if (shared->devSize + n < sizeof shared->devs)
            {
                memcpy(shared->devs + shared->devSize, line, n);
                shared->devSize += n;
            }
            else
                shared->devSize = sizeof shared->devs; // too many to be minimised
        }

        void transfer(Th* to)
        {
            Th* from = me;
            if (to == from)
                return;
            ++switchCount;
            schedHash = mix(schedHash, (static_cast<u64>(from->id) << 40) ^ (static_cast<u64>(to->id) << 32) ^ from->yields);
            from->sinceSwitch = 0;
            from->lastActive = stepCount;
            to->sinceSwitch = 0;
            giveBaton(to);
            if (from->st != Th::Done)
                waitBaton(from);
        }

        // the calling thread cannot go on (or is done): choose another one
        void reschedule()
        {
            Th* from = me;
            ++from->yields;
            for (;;)
            {
                wakeDue();
                const int n = runnableCount();
                if (n > 0)
                    break;
                if (nextWake == INT64_MAX)
                {
                    bool allDone = true;
                    for (auto* t : threads)
                        allDone = allDone && t->st == Th::Done;
                    if (allDone)
                        error("no thread left");
                    dieAt("deadlock", "every thread is blocked:" + describeThreads());
                }
                nowNs = std::max(nowNs, nextWake);
                if (nowNs > 1000000000ll * 3600 * 24 * 16000)
                    dieAt("hang", "16000 simulated days have passed");
            }
            Th* def = nextRoundRobin(from);
            Th* to = def;
            if (policy == PolRand || policy == PolRr)
            {
                if (policy == PolRand)
                {
                    int k = static_cast<int>(polRng.below(runnableCount()));
                    for (auto* t : threads)
                        if (t->st == Th::Runnable && k-- == 0)
                        {
                            to = t;
                            break;
                        }
                }
            }
            else if (policy == PolPct)
                to = highestPriority();
            else
            {
                auto it = events.find(from->id);
                if (it != events.end())
                {
                    auto e = it->second.find(from->yields);
                    if (e != it->second.end())
                        for (auto& ev : e->second)
                            if (ev.what == Event::Dev && ev.arg < static_cast<i64>(threads.size()) && threads[ev.arg]->st == Th::Runnable)
                                to = threads[ev.arg];
                }
            }
            if (to != def)
                record(from, to);
            fold(0xB10C + to->id);
            transfer(to);
        }

        void writeResult(const char* verdict, const std::string& kind, const std::string& msg)
        {
            std::string c;
            for (auto& [k, v] : counters)
                c += k + "=" + std::to_string(v) + " ";
            strncpy(shared->kind, kind.c_str(), sizeof shared->kind - 1);
            strncpy(shared->msg, msg.c_str(), sizeof shared->msg - 1);
            const std::string all = std::string(shared->counters) + c;
            strncpy(shared->counters, all.c_str(), sizeof shared->counters - 1);
            fold(mix(stepCount, static_cast<u64>(nowNs)));
            for (char ch : kind)
                fold(static_cast<u64>(ch));
            shared->hash = mix(shared->hash, runHash);
            shared->schedHash = mix(shared->schedHash, schedHash);
            shared->steps += stepCount;
            shared->switches += switchCount;
            shared->simNs += nowNs;
            shared->coarse += coarse;
            strncpy(shared->verdict, verdict, sizeof shared->verdict - 1);
        }

        void onSignal(int s, siginfo_t* info, void*)
        {
            static volatile int once = 0;
            if (once++)
                _exit(99);
            on = false;
            char msg[256];
            snprintf(msg, sizeof msg, "the process received signal %d (%s) in thread %d", s, strsignal(s), me ? me->id : -1);
            strncpy(shared->kind, "signal", sizeof shared->kind - 1);
            strncpy(shared->msg, msg, sizeof shared->msg - 1);
            if (verbose)
            {
                void* frames[64];
                const int n = backtraceInto(frames, 64);
                for (int i = 0; i < n; ++i)
                {
                    Dl_info d{};
                    dladdr(frames[i], &d);
                    dprintf(2, "  #%d %s\n", i, d.dli_sname ? d.dli_sname : "?");
                }
            }
            shared->hash = mix(shared->hash, mix(runHash, stepCount));
            shared->steps += stepCount;
            shared->switches += switchCount;
            shared->simNs += nowNs;
            strncpy(shared->verdict, "violation", sizeof shared->verdict - 1);
            _exit(98);
        }

        void onTerminate()
        {
            ending = true;
            std::string what = "no exception";
            if (auto e = std::current_exception())
            {
                try
                {
                    std::rethrow_exception(e);
                }
                catch (const std::exception& x)
                {
                    what = std::string(typeid(x).name()) + ": " + x.what();
                }
                catch (...)
                {
                    what = "unknown exception";
                }
            }
            dieAt("terminate", "the process terminated by an uncaught exception in thread " + std::to_string(me ? me->id : -1) + ": " + what);
        }

        void* trampoline(void* p)
        {
            Th* t = static_cast<Th*>(p);
            waitBaton(t);
            me = t;
            t->ret = t->harness ? (t->harness(), nullptr) : t->fn(t->arg);
            ++t->quiet;
            t->st = Th::Done;
            t->doneAt = nowNs;
            ++deathCount;
            wakeAll(t);
            fold(0xD0E + t->id);
            me->quiet = 1;
            reschedule();
            me = nullptr;
            return t->ret;
        }
    }

    // ------------------------------------------------------------------ plan
    i64 Line::num(size_t i, i64 def) const { return i < args.size() ? strtoll(args[i].c_str(), nullptr, 10) : def; }

    Plan Plan::parse(const std::string& text)
    {
        Plan p;
        p.text = text;
        std::istringstream in(text);
        std::string l;
        while (std::getline(in, l))
        {
            std::istringstream ls(l);
            Line line;
            if (!(ls >> line.key) || line.key[0] == '#')
                continue;
            std::string a;
            while (ls >> a)
                line.args.push_back(a);
            p.lines.push_back(line);
        }
        return p;
    }

    i64 Plan::num(const std::string& key, i64 def) const
    {
        for (auto& l : lines)
            if (l.key == key)
                return l.num(0, def);
        return def;
    }

    std::string Plan::str(const std::string& key, const std::string& def) const
    {
        for (auto& l : lines)
            if (l.key == key)
                return l.str(0, def);
        return def;
    }

    bool Plan::has(const std::string& key) const
    {
        for (auto& l : lines)
            if (l.key == key)
                return true;
        return false;
    }

    std::vector<Line> Plan::all(const std::string& key) const
    {
        std::vector<Line> r;
        for (auto& l : lines)
            if (l.key == key)
                r.push_back(l);
        return r;
    }

    // ------------------------------------------------------------------ life
    void setupIo(const Plan& plan);

    void begin(const Plan& plan, int phase)
    {
        startArena();
        phaseText = std::to_string(phase);
        seed = static_cast<u64>(plan.num("seed", 1));
        tickNs = plan.num("tick", 500);
        stepCap = static_cast<u64>(plan.num("stepcap", 3000000));
        coarseEvery = static_cast<int>(plan.num("coarse", 64));
        coarseLeft = coarseEvery;
        fairness = static_cast<u64>(plan.num("fairness", 20000));
        if (tickNs > 0)
            fairness = std::min(fairness, static_cast<u64>(10000000 / tickNs)); // 10 ms
        polRng = Rng(mix(seed, 4242 + phase));
        for (auto& l : plan.all("sched"))
        {
            const auto k = l.str(0);
            policy = k == "rand" ? PolRand : k == "rr" ? PolRr : k == "pct" ? PolPct : PolDev;
            polArg = static_cast<u64>(l.num(1, 100));
            if (policy == PolPct)
                for (int i = 0; i < l.num(1, 3); ++i)
                    pctChange.push_back(polRng.below(static_cast<u64>(l.num(2, 20000))));
        }
        std::sort(pctChange.begin(), pctChange.end());
        for (auto& l : plan.lines)
        {
            if (l.key == "dev")
                events[static_cast<int>(l.num(0))][static_cast<u64>(l.num(1))].push_back({Event::Dev, l.num(2)});
            else if (l.key == "stall" && l.num(3, 1) == phase)
                events[static_cast<int>(l.num(0))][static_cast<u64>(l.num(1))].push_back({Event::Stall, l.num(2)});
            else if (l.key == "jump")
                jumps.emplace_back(static_cast<u64>(l.num(0)), l.num(1));
            else if (l.key == "crashstep" && phase == 1)
                crashStep = static_cast<u64>(l.num(0));
            else if (l.key == "oversleep")
                oversleep[static_cast<u64>(l.num(0))] = l.num(1);
            else if (l.key == "thfail")
                thFailAt = l.num(0);
        }
        std::sort(jumps.begin(), jumps.end());
        if (phase != 1)
        {
            crashStep = 0;
            for (auto& [t, m] : events)
                for (auto& [n, v] : m)
                    std::erase_if(v, [](const Event& e) { return e.what == Event::Dev; });
        }
        const size_t arenaSize = 1 << 22;
        arenaNext = static_cast<char*>(mmap(reinterpret_cast<void*>(0x0F0000000000ull), arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
        arenaEnd = arenaNext + arenaSize;
        memset(arenaNext, 0xA5, arenaSize);
        arenaLo = reinterpret_cast<uintptr_t>(arenaNext);
        arenaLen = arenaSize;
        globLo = reinterpret_cast<uintptr_t>(&__data_start);
        globLen = static_cast<uintptr_t>(&_end - &__data_start);

        static char altStack[1 << 16];
        stack_t ss{};
        ss.ss_sp = altStack;
        ss.ss_size = sizeof altStack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = onSignal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
            sigaction(s, &sa, nullptr);
        std::set_terminate(onTerminate);

        auto* t = new Th{};
        t->id = 0;
        t->key = mix(seed, 1000 + phase);
        t->prio = static_cast<i64>(polRng.below(1000000));
        threads.push_back(t);
        me = t;
        setupIo(plan);
        on = true;
    }

    void finishOk()
    {
        on = false;
        writeResult("ok", "", "");
        _exit(0);
    }

    void dieAt(const std::string& kind, const std::string& msg)
    {
        on = false;
        if ((kind == "hang" || kind == "deadlock") && concerns && !concerns(kind))
            writeResult("ok", "other." + kind, msg);
        else
            writeResult("violation", kind, msg);
        _exit(0);
    }

    void armCrash(u64 n) { crashStep = stepCount + n; }
    void disarmCrash() { crashStep = 0; }

    void fail(const std::string& kind, const std::string& msg) { dieAt(kind, msg); }

    void error(const std::string& msg)
    {
        on = false;
        writeResult("error", "harness", msg);
        _exit(0);
    }

    void crashNow()
    {
        on = false;
        shared->crashed = true;
        counters["fault.crash"]++;
        writeResult("", "", "");
        _exit(77);
    }

    void nextPhase()
    {
        on = false;
        shared->wantNextPhase = true;
        writeResult("", "", "");
        _exit(0);
    }

    void saveBlob(const std::string& s)
    {
        if (s.size() > sizeof shared->blob)
            error("the blob is too large");
        memcpy(shared->blob, s.data(), s.size());
        shared->blobSize = s.size();
    }

    std::string loadBlob() { return {shared->blob, shared->blobSize}; }

    void count(const std::string& name, u64 n)
    {
        Quiet q;
        counters[name] += n;
    }

    void note(u64 v) { fold(mix(v, 5)); }

    void note(const std::string& s)
    {
        for (char c : s)
            fold(static_cast<unsigned char>(c));
        fold(s.size() + 0x5000);
    }

    void log(const std::string& s)
    {
        if (!verbose)
            return;
        Quiet q;
        dprintf(2, "[p%s step %llu t%d %.3f ms] %s\n", phaseText.c_str(), static_cast<unsigned long long>(stepCount), me ? me->id : -1,
                    static_cast<double>(nowNs) / 1e6, s.c_str());
    }

    // ------------------------------------------------------------------ scheduling
    i64 now() { return nowNs; }
    u64 steps() { return stepCount; }
    int self() { return me ? me->id : -1; }
    void pause() { yield(kHarness); }
    u64 sleepsDone(int t) { return threads[t]->sleeps; }
    i64 lastWake(int t) { return threads[t]->lastWake; }
    u64 yieldsOf(int t) { return threads[t]->yields; }
    bool waiting(int t) { return threads[t]->st == Th::Blocked || (threads[t]->st == Th::Sleeping && threads[t]->asked); }
    i64 doneAt(int t) { return threads[t]->doneAt; }
    std::function<bool(const std::string&)> concerns;
    i64 delayInjected(int t) { return threads[t]->injected; }
    u64 deaths() { return deathCount; }

    i64 realtime() { return 1700000000ll * 1000000000ll + nowNs + realtimeOffset; }

    int threadCount() { return static_cast<int>(threads.size()); }

    int liveThreads()
    {
        int n = 0;
        for (auto* t : threads)
            n += t->st != Th::Done;
        return n;
    }

    void yield(u64 kind)
    {
        if (!on || me == nullptr || me->quiet)
            return;
        Th* t = me;
        Quiet inSimulator;
        ++t->yields;
        ++t->sinceSwitch;
        ++stepCount;
        nowNs += tickNs;
        fold((static_cast<u64>(t->id) << 8) ^ kind);
        if (kind == kCoarse)
            ++coarse;
        if (stepCount > stepCap)
            dieAt("hang", "no end after " + std::to_string(stepCap) + " steps:" + describeThreads());
        if (!jumps.empty() && jumps.front().first <= stepCount)
        {
            Quiet q;
            realtimeOffset += jumps.front().second;
            jumps.erase(jumps.begin());
            counters["fault.clockjump"]++;
            log("the system's clock jumps");
        }
        if (crashStep != 0 && stepCount == crashStep)
            crashNow();
        Th* dev = nullptr;
        if (!events.empty())
        {
            auto it = events.find(t->id);
            if (it != events.end())
            {
                auto e = it->second.find(t->yields);
                if (e != it->second.end())
                    for (auto& ev : e->second)
                    {
                        if (ev.what == Event::Stall)
                        {
                            {
                                Quiet q;
                                counters["fault.stall"]++;
                            }
                            t->injected += ev.arg;
                            log("thread stalled for " + std::to_string(ev.arg) + " ns");
                            sleepUntil(nowNs + ev.arg, false);
                        }
                        else if (ev.arg < static_cast<i64>(threads.size()))
                            dev = threads[ev.arg];
                    }
            }
        }
        wakeDue();
        if (threads.size() == 1)
            return;
        Th* to = t;
        switch (policy)
        {
        case PolDev:
            if (dev != nullptr && dev->st == Th::Runnable)
                to = dev;
            break;
        case PolRand:
            if (polRng.below(polArg) == 0)
            {
                int k = static_cast<int>(polRng.below(runnableCount()));
                for (auto* x : threads)
                    if (x->st == Th::Runnable && k-- == 0)
                    {
                        to = x;
                        break;
                    }
            }
            break;
        case PolRr:
            if (t->sinceSwitch >= polArg)
                to = nextRoundRobin(t);
            break;
        case PolPct:
            if (!pctChange.empty() && pctChange.front() <= stepCount)
            {
                pctChange.erase(pctChange.begin());
                t->prio = -static_cast<i64>(stepCount);
            }
            to = highestPriority();
            break;
        }
        if ((stepCount & 127) == 0)
            if (Th* s = starved(t))
            {
                t->prio = -static_cast<i64>(stepCount);
                log("switch (fairness) to t" + std::to_string(s->id));
                transfer(s);
                return;
            }
        if (to != t)
        {
            record(t, to);
            log("preempted for t" + std::to_string(to->id)); // whether it is verbose or not: a string takes memory
            transfer(to);
        }
    }

    void sleepUntil(i64 t, bool countAsSleep)
    {
        Th* self = me;
        self->st = Th::Sleeping;
        self->asked = countAsSleep;
        self->wake = t;
        nextWake = std::min(nextWake, t);
        reschedule();
        if (countAsSleep)
        {
            ++self->sleeps;
            self->lastWake = nowNs;
        }
    }

    void sleepFor(i64 ns)
    {
        i64 extra = 0;
        ++sleepCount;
        auto it = oversleep.find(sleepCount);
        if (it != oversleep.end())
        {
            extra = it->second;
            me->injected += extra;
            count("fault.oversleep");
        }
        sleepUntil(nowNs + std::max<i64>(ns, 0) + extra, true);
    }

    void consume(i64 ns)
    {
        if (!on || me == nullptr)
            return;
        if (ns <= 0)
        {
            const int q = me->quiet;
            me->quiet = 0;
            yield(kHarness);
            me->quiet = q;
            return;
        }
        const int q = me->quiet;
        me->quiet = 0;
        sleepUntil(nowNs + ns, false);
        me->quiet = q;
    }

    bool block(const void* object, i64 deadline)
    {
        Th* self = me;
        self->st = Th::Blocked;
        self->waitOn = object;
        self->timedOut = false;
        self->wake = deadline;
        if (deadline >= 0)
            nextWake = std::min(nextWake, deadline);
        reschedule();
        return !self->timedOut;
    }

    void wakeOne(const void* object)
    {
        for (auto* t : threads)
            if (t->st == Th::Blocked && t->waitOn == object)
            {
                setRunnable(t);
                t->waitOn = nullptr;
                t->wake = -1;
                return;
            }
    }

    void wakeAll(const void* object)
    {
        for (auto* t : threads)
            if (t->st == Th::Blocked && t->waitOn == object)
            {
                setRunnable(t);
                t->waitOn = nullptr;
                t->wake = -1;
            }
    }

    namespace
    {
        Th* newThread()
        {
            auto* t = new Th{};
            t->id = static_cast<int>(threads.size());
            t->key = mix(me->key, ++me->children);
            t->lastActive = stepCount;
            t->prio = static_cast<i64>(polRng.below(1000000));
            return t;
        }
    }

    int createThread(pthread_t* out, void* (*fn)(void*), void* arg, bool detached)
    {
        using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
        Th* t;
        {
            Quiet q;
            t = newThread();
            t->fn = fn;
            t->arg = arg;
            t->detached = detached;
            const int r = real(&t->real, nullptr, trampoline, t);
            if (r != 0)
                error("the simulator cannot create a thread");
            t->hasReal = true;
            threads.push_back(t);
            *out = t->real;
            fold(0x7E3 + t->id);
        }
        yield(kCall);
        return 0;
    }

    int spawn(u64 key, std::function<void()> fn)
    {
        Th* t;
        {
            using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
            static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
            Quiet q;
            t = newThread();
            t->key = key;
            t->harness = std::move(fn);
            if (real(&t->real, nullptr, trampoline, t) != 0)
                error("the simulator cannot create a thread");
            t->hasReal = true;
            threads.push_back(t);
        }
        yield(kHarness);
        return t->id;
    }

    static void waitDone(Th* t)
    {
        while (t->st != Th::Done)
            block(t, -1);
        using F = int (*)(pthread_t, void**);
        static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_join"));
        if (t->hasReal)
        {
            t->hasReal = false;
            real(t->real, nullptr); // its thread_local destructors
        }
    }

    void join(int thread) { waitDone(threads[thread]); }
    bool finished(int thread) { return threads[thread]->st == Th::Done; }

    u64 setKey(u64 key)
    {
        const u64 old = me->key;
        me->key = key;
        me->draws.clear();
        me->children = 0;
        return old;
    }

    int joinThread(pthread_t p, void** ret)
    {
        yield(kCall);
        for (auto* t : threads)
            if (t->hasReal && pthread_equal(t->real, p))
            {
                if (t->detached)
                    return EINVAL;
                if (t == me)
                    return EDEADLK;
                waitDone(t);
                if (ret)
                    *ret = t->ret;
                yield(kCall);
                return 0;
            }
        return ESRCH;
    }

    int detachThread(pthread_t p)
    {
        for (auto* t : threads)
            if (t->hasReal && pthread_equal(t->real, p))
            {
                t->detached = true;
                yield(kCall);
                return 0;
            }
        return ESRCH;
    }

    u64 drawSeed(const void* device)
    {
        if (!on || me == nullptr)
            return 0x5EED;
        Quiet q;
        // one stream per thread and device, whatever the order in which they are used
        const u64 id = static_cast<u64>(reinterpret_cast<uintptr_t>(device) - globLo);
        const u64 n = me->draws[id]++;
        fold(0xD2A + n);
        return mix(mix(me->key, 1 + id), n) & 0xFFFFFFFFu;
    }

    Quiet::Quiet()
    {
        if (me)
            ++me->quiet;
    }

    Quiet::~Quiet()
    {
        if (me)
            --me->quiet;
    }

    Loud::Loud() : saved(me ? me->quiet : 0)
    {
        if (me)
            me->quiet = 0;
    }

    Loud::~Loud()
    {
        if (me)
            me->quiet = saved;
    }

    bool inLibrary() { return on && me != nullptr && !me->quiet; }

    void badAccess(const std::string& msg)
    {
        if (!on || me == nullptr)
            return;
        Quiet q;
        dieAt("memory", msg);
    }

    void forget(void* p, size_t n)
    {
        if (disposed.empty())
            return;
        const auto a = reinterpret_cast<uintptr_t>(p) - arenaLo;
        for (size_t i = a >> 6; i <= (a + n - 1) >> 6; ++i)
            disposed[i] = 1;
    }

    void* arena(size_t size)
    {
        arenaNext = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(arenaNext) + 63) & ~static_cast<uintptr_t>(63));
        char* p = arenaNext;
        arenaNext += size;
        if (arenaNext > arenaEnd)
            error("the arena is full");
        return p;
    }

    // ------------------------------------------------------------------ allocation and thread failures
    void armOom(i64 k, i64 n)
    {
        oomAt = k;
        oomCount = n;
        oomHit = false;
    }

    bool oomFired() { return oomHit; }

    bool disarmOom()
    {
        oomAt = 0;
        return oomHit;
    }

    u64 allocations() { return allocCount; }

    bool allocationFails()
    {
        if (!on || me == nullptr || me->quiet)
            return false;
        ++allocCount;
        if (oomAt > 0)
        {
            if (oomAt == 1)
            {
                if (--oomCount <= 0)
                    oomAt = 0;
                if (!oomHit)
                    log("an allocation fails");
                oomHit = true;
                Quiet q;
                counters["fault.oom"]++;
                return true;
            }
            --oomAt;
        }
        return false;
    }

    static bool thFired = false;
    void armThreadFailure(i64 k)
    {
        thFailAt = k;
        thFired = false;
    }
    bool threadFailureFired() { return thFired; }

    bool threadCreationFails()
    {
        if (thFailAt > 0 && --thFailAt == 0)
        {
            count("fault.thread");
            thFired = true;
            log("a thread cannot be created");
            return true;
        }
        return false;
    }
}
