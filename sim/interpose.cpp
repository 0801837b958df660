// The seams: what the library calls in libc is answered by the simulator.
#include "internal.hpp"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

#define REAL(ret, name, ...) \
    using F_##name = ret (*)(__VA_ARGS__); \
    static F_##name real = reinterpret_cast<F_##name>(dlsym(RTLD_NEXT, #name))
#define SIMULATED (on && me != nullptr)

namespace
{
    constexpr i64 sec = 1000000000ll;

    timespec toSpec(i64 ns) { return {static_cast<time_t>(ns / sec), static_cast<long>(ns % sec)}; }
    i64 fromSpec(const timespec& t) { return t.tv_sec * sec + t.tv_nsec; }
    constexpr i64 monotonicBase = 100000 * sec;

    i64 clockNow(clockid_t c)
    {
        switch (c)
        {
        case CLOCK_REALTIME:
        case CLOCK_REALTIME_COARSE:
        case CLOCK_TAI:
            return realtime();
        default:
            return monotonicBase + now();
        }
    }

    // a deadline on a clock as simulated time
    i64 deadlineOf(clockid_t c, const timespec* t)
    {
        const i64 left = fromSpec(*t) - clockNow(c);
        return now() + (left > 0 ? left : 0);
    }

    // ---------------------------------------------------------------- mutexes and the like, by address
    struct Mutex { Th* owner = nullptr; int count = 0; int readers = 0; };
    std::map<const void*, Mutex>* mutexes;
    std::map<const void*, int>* onces;     // 1: running, 2: done
    std::map<const void*, u64>* semaphores;

    Mutex& mutexOf(const void* m)
    {
        if (!mutexes)
            mutexes = new std::map<const void*, Mutex>;
        return (*mutexes)[m];
    }

    struct In // simulator code
    {
        In() { ++me->quiet; }
        ~In() { --me->quiet; }
    };

    int lockMutex(pthread_mutex_t* m, i64 deadline, bool tryOnly)
    {
        yield(kCall);
        In in;
        const int type = m->__data.__kind & 127;
        for (;;)
        {
            Mutex& x = mutexOf(m);
            if (x.owner == nullptr)
            {
                x.owner = me;
                x.count = 1;
                return 0;
            }
            if (x.owner == me)
            {
                if (type == PTHREAD_MUTEX_RECURSIVE)
                {
                    ++x.count;
                    return 0;
                }
                if (type == PTHREAD_MUTEX_ERRORCHECK)
                    return EDEADLK;
            }
            if (tryOnly)
                return EBUSY;
            if (!block(m, deadline))
                return ETIMEDOUT;
        }
    }

    int unlockMutex(pthread_mutex_t* m)
    {
        {
            In in;
            Mutex& x = mutexOf(m);
            if (x.count > 0 && --x.count == 0)
            {
                x.owner = nullptr;
                wakeOne(m);
            }
        }
        yield(kCall);
        return 0;
    }

    int waitCond(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline)
    {
        yield(kCall);
        bool signaled;
        {
            In in;
            Mutex& x = mutexOf(m);
            x.owner = nullptr;
            x.count = 0;
            wakeOne(m);
            signaled = block(c, deadline);
        }
        lockMutex(m, -1, false);
        return signaled ? 0 : ETIMEDOUT;
    }

    int lockRw(const void* m, bool write, i64 deadline, bool tryOnly)
    {
        yield(kCall);
        In in;
        for (;;)
        {
            Mutex& x = mutexOf(m);
            if (x.owner == nullptr && (!write || x.readers == 0))
            {
                if (write)
                    x.owner = me;
                else
                    ++x.readers;
                return 0;
            }
            if (tryOnly)
                return EBUSY;
            if (!block(m, deadline))
                return ETIMEDOUT;
        }
    }

    // ---------------------------------------------------------------- files
    struct IoFault { std::string op; u64 k; bool persistent; std::string what; i64 arg; };
    std::vector<IoFault>* faults;
    bool armed = false;
    std::map<std::string, u64>* opCount;
    u64 opsTotal = 0, fired = 0;
    i64 diskLeft = -1;
    u64 crashOp = 0;
    std::string crashWhen;
    i64 crashBytes = 0;
    std::set<int>* files;
    std::set<std::string>* written;

    void noteWritten(const char* path)
    {
        if (!written)
            written = new std::set<std::string>;
        written->insert(path);
    }

    bool inScope(const char* path) { return path != nullptr && strncmp(path, "/proc", 5) != 0 && strncmp(path, "/dev", 4) != 0 && strncmp(path, "/sys", 4) != 0 && strncmp(path, "/etc", 4) != 0 && strncmp(path, "/usr", 4) != 0; }
    bool tracked(int fd) { return files != nullptr && files->contains(fd); }

    void track(int fd)
    {
        if (!files)
            files = new std::set<int>;
        files->insert(fd);
    }

    int errnoOf(const std::string& s)
    {
        static const std::map<std::string, int> m{{"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENOENT", ENOENT},
                                                  {"EXDEV", EXDEV}, {"EROFS", EROFS}, {"EDQUOT", EDQUOT}, {"EINTR", EINTR}, {"EPERM", EPERM}, {"ENFILE", ENFILE}, {"EFBIG", EFBIG}};
        auto it = m.find(s);
        return it == m.end() ? EIO : it->second;
    }

    struct Outcome { int err = 0; i64 shortTo = -1; bool crashAfter = false; bool crashPart = false; };

    // called before an operation; decides its fate
    const char* detail(const char* format, ...) // allocates nothing that may fail
    {
        static thread_local char text[1000];
        va_list ap;
        va_start(ap, format);
        vsnprintf(text, sizeof text, format, ap);
        va_end(ap);
        return text;
    }

    Outcome operation(const char* op, const char* detail, i64 bytes)
    {
        yield(kCall);
        In in;
        Outcome o;
        note(op);
        note(static_cast<u64>(bytes));
        if (!armed || me->quiet > 1)
        {
            log(std::string("io ") + op + " " + detail);
            return o;
        }
        ++opsTotal;
        if (!opCount)
            opCount = new std::map<std::string, u64>;
        const u64 k = ++(*opCount)[op];
        count(std::string("op.") + op);
        if (crashOp != 0 && opsTotal == crashOp)
        {
            if (crashWhen == "before")
            {
                log(std::string("the process is killed before ") + op + " " + detail);
                crashNow();
            }
            o.crashAfter = crashWhen == "after";
            o.crashPart = crashWhen == "part";
        }
        if (faults)
            for (auto& f : *faults)
                if (f.op == op && (f.persistent ? k >= f.k : k == f.k))
                {
                    if (f.what == "short")
                    {
                        if (bytes > 1)
                        {
                            o.shortTo = std::max<i64>(1, std::min(f.arg, bytes - 1));
                            count("fault." + std::string(op) + ".short");
                        }
                    }
                    else
                    {
                        o.err = errnoOf(f.what);
                        count("fault." + std::string(op) + "." + f.what);
                        if (f.what != "EINTR" || (f.op != "read" && f.op != "write")) // these are repeated
                            ++fired;
                    }
                }
        if (o.err == 0 && std::string(op) == "write" && diskLeft >= 0)
        {
            if (diskLeft == 0 && bytes > 0)
            {
                o.err = ENOSPC;
                count("fault.diskfull");
                ++fired;
            }
            else if (bytes > diskLeft)
            {
                o.shortTo = diskLeft;
            }
        }
        log(std::string("io ") + op + " " + detail + (o.err ? std::string(" -> ") + strerror(o.err) : o.shortTo >= 0 ? " -> short " + std::to_string(o.shortTo) : ""));
        return o;
    }

    void after(const Outcome& o)
    {
        if (o.crashAfter)
        {
            log("the process is killed right after this operation");
            crashNow();
        }
        yield(kCall);
    }
}

namespace sim
{
    void setupIo(const Plan& plan)
    {
        faults = new std::vector<IoFault>;
        const bool phase1 = !shared->crashed && !shared->wantNextPhase;
        crashOp = 0;
        diskLeft = -1;
        if (!phase1)
        {
            for (auto& l : plan.all("io2"))
            {
                std::string k = l.str(1, "1");
                const bool p = !k.empty() && k.back() == '+';
                faults->push_back({l.str(0), strtoull(k.c_str(), nullptr, 10), p, l.str(2, "EIO"), l.num(3)});
            }
            return;
        }
        for (auto& l : plan.lines)
        {
            if (l.key == "io")
            {
                std::string k = l.str(1, "1");
                const bool p = !k.empty() && k.back() == '+';
                faults->push_back({l.str(0), strtoull(k.c_str(), nullptr, 10), p, l.str(2, "EIO"), l.num(3)});
            }
            else if (l.key == "full")
                diskLeft = l.num(0);
            else if (l.key == "iocrash")
            {
                crashOp = static_cast<u64>(l.num(0));
                crashWhen = l.str(1, "before");
                crashBytes = l.num(2);
            }
        }
    }

    void armIo(bool a) { armed = a; }
    u64 ioOps() { return opsTotal; }
    u64 ioFired() { return fired; }
    std::vector<std::string> writtenFiles() { return written ? std::vector<std::string>(written->begin(), written->end()) : std::vector<std::string>(); }
}

extern "C"
{
    // ---------------------------------------------------------------- threads
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
            return real(t, a, fn, arg);
        }
        if (threadCreationFails())
            return EAGAIN;
        int detach = PTHREAD_CREATE_JOINABLE;
        if (a)
            pthread_attr_getdetachstate(a, &detach);
        return createThread(t, fn, arg, detach == PTHREAD_CREATE_DETACHED);
    }

    int pthread_join(pthread_t t, void** ret)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_join, pthread_t, void**);
            return real(t, ret);
        }
        return joinThread(t, ret);
    }

    int pthread_detach(pthread_t t)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_detach, pthread_t);
            return real(t);
        }
        return detachThread(t);
    }

    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_mutex_lock, pthread_mutex_t*);
            return real(m);
        }
        return lockMutex(m, -1, false);
    }

    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
            return real(m);
        }
        return lockMutex(m, -1, true);
    }

    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
            return real(m, t);
        }
        return lockMutex(m, deadlineOf(CLOCK_REALTIME, t), false);
    }

    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*);
            return real(m, c, t);
        }
        return lockMutex(m, deadlineOf(c, t), false);
    }

    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
            return real(m);
        }
        return unlockMutex(m);
    }

    int pthread_mutex_destroy(pthread_mutex_t* m)
    {
        if (SIMULATED && mutexes)
        {
            In in;
            mutexes->erase(m);
        }
        return 0;
    }

    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
            return real(c, m);
        }
        return waitCond(c, m, -1);
    }

    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
            return real(c, m, t);
        }
        return waitCond(c, m, deadlineOf(CLOCK_REALTIME, t));
    }

    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
            return real(c, m, k, t);
        }
        return waitCond(c, m, deadlineOf(k, t));
    }

    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_signal, pthread_cond_t*);
            return real(c);
        }
        {
            In in;
            wakeOne(c);
        }
        yield(kCall);
        return 0;
    }

    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_broadcast, pthread_cond_t*);
            return real(c);
        }
        {
            In in;
            wakeAll(c);
        }
        yield(kCall);
        return 0;
    }

    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_cond_destroy, pthread_cond_t*);
            return real(c);
        }
        return 0;
    }

    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
            return real(m);
        }
        return lockRw(m, false, -1, false);
    }

    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
            return real(m);
        }
        return lockRw(m, false, -1, true);
    }

    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
            return real(m);
        }
        return lockRw(m, true, -1, false);
    }

    int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
            return real(m);
        }
        return lockRw(m, true, -1, true);
    }

    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
            return real(m);
        }
        {
            In in;
            Mutex& x = mutexOf(m);
            if (x.owner == me)
                x.owner = nullptr;
            else if (x.readers > 0)
                --x.readers;
            wakeAll(m);
        }
        yield(kCall);
        return 0;
    }

    int pthread_once(pthread_once_t* o, void (*fn)())
    {
        if (!SIMULATED)
        {
            REAL(int, pthread_once, pthread_once_t*, void (*)());
            return real(o, fn);
        }
        // a control already completed before the simulation began is 2 in glibc
        if (*reinterpret_cast<int*>(o) == 2)
            return 0;
        {
            In in;
            if (!onces)
                onces = new std::map<const void*, int>;
            for (;;)
            {
                const int s = (*onces)[o];
                if (s == 2)
                    return 0;
                if (s == 0)
                    break;
                block(o, -1);
            }
            (*onces)[o] = 1;
        }
        try
        {
            fn();
        }
        catch (...)
        {
            In in;
            (*onces)[o] = 0;
            wakeAll(o);
            throw;
        }
        In in;
        (*onces)[o] = 2;
        *reinterpret_cast<int*>(o) = 2;
        wakeAll(o);
        return 0;
    }

    static u64& semaphoreOf(sem_t* s)
    {
        if (!semaphores)
            semaphores = new std::map<const void*, u64>;
        auto it = semaphores->find(s);
        if (it == semaphores->end())
        {
            int v = 0;
            sem_getvalue(s, &v);
            it = semaphores->emplace(s, static_cast<u64>(v)).first;
        }
        return it->second;
    }

    static int waitSemaphore(sem_t* s, i64 deadline, bool tryOnly)
    {
        yield(kCall);
        In in;
        for (;;)
        {
            u64& v = semaphoreOf(s);
            if (v > 0)
            {
                --v;
                return 0;
            }
            if (tryOnly)
            {
                errno = EAGAIN;
                return -1;
            }
            if (!block(s, deadline))
            {
                errno = ETIMEDOUT;
                return -1;
            }
        }
    }

    int sem_init(sem_t* s, int p, unsigned v)
    {
        REAL(int, sem_init, sem_t*, int, unsigned);
        if (SIMULATED && semaphores)
        {
            In in;
            semaphores->erase(s);
        }
        return real(s, p, v);
    }

    int sem_wait(sem_t* s)
    {
        if (!SIMULATED)
        {
            REAL(int, sem_wait, sem_t*);
            return real(s);
        }
        return waitSemaphore(s, -1, false);
    }

    int sem_trywait(sem_t* s)
    {
        if (!SIMULATED)
        {
            REAL(int, sem_trywait, sem_t*);
            return real(s);
        }
        return waitSemaphore(s, -1, true);
    }

    int sem_timedwait(sem_t* s, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, sem_timedwait, sem_t*, const timespec*);
            return real(s, t);
        }
        return waitSemaphore(s, deadlineOf(CLOCK_REALTIME, t), false);
    }

    int sem_clockwait(sem_t* s, clockid_t c, const timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, sem_clockwait, sem_t*, clockid_t, const timespec*);
            return real(s, c, t);
        }
        return waitSemaphore(s, deadlineOf(c, t), false);
    }

    int sem_post(sem_t* s)
    {
        if (!SIMULATED)
        {
            REAL(int, sem_post, sem_t*);
            return real(s);
        }
        {
            In in;
            ++semaphoreOf(s);
            wakeOne(s);
        }
        yield(kCall);
        return 0;
    }

    // static local variables: a thread can be preempted in the middle of an initialisation
    int __cxa_guard_acquire(long long* g)
    {
        char* done = reinterpret_cast<char*>(g);
        for (;;)
        {
            if (done[0])
                return 0;
            if (!done[1])
            {
                done[1] = 1;
                return 1;
            }
            if (!SIMULATED)
                abort();
            In in;
            block(g, -1);
        }
    }

    void __cxa_guard_release(long long* g)
    {
        char* done = reinterpret_cast<char*>(g);
        done[0] = 1;
        done[1] = 0;
        if (SIMULATED)
        {
            In in;
            wakeAll(g);
        }
    }

    void __cxa_guard_abort(long long* g)
    {
        reinterpret_cast<char*>(g)[1] = 0;
        if (SIMULATED)
        {
            In in;
            wakeAll(g);
        }
    }

    // std::atomic::wait, std::future and the like
    long syscall(long n, ...)
    {
        va_list ap;
        va_start(ap, n);
        long a[6];
        for (auto& x : a)
            x = va_arg(ap, long);
        va_end(ap);
        if (SIMULATED && n == SYS_futex)
        {
            const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
            int* addr = reinterpret_cast<int*>(a[0]);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                yield(kCall);
                In in;
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2]))
                {
                    errno = EAGAIN;
                    return -1;
                }
                i64 deadline = -1;
                const auto* t = reinterpret_cast<const timespec*>(a[3]);
                if (t != nullptr)
                {
                    if (op == FUTEX_WAIT)
                        deadline = now() + fromSpec(*t);
                    else
                        deadline = deadlineOf((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
                }
                if (!block(addr, deadline))
                {
                    errno = ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                {
                    In in;
                    if (a[2] == 1)
                        wakeOne(addr);
                    else
                        wakeAll(addr);
                }
                yield(kCall);
                return 1;
            }
        }
        REAL(long, syscall, long, ...);
        return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    }

    int sched_yield()
    {
        if (!SIMULATED)
        {
            REAL(int, sched_yield);
            return real();
        }
        In in;
        sleepUntil(now() + 1, false);
        return 0;
    }

    // ---------------------------------------------------------------- time
    int clock_gettime(clockid_t c, timespec* t)
    {
        if (!SIMULATED)
        {
            REAL(int, clock_gettime, clockid_t, timespec*);
            return real(c, t);
        }
        yield(kCall);
        *t = toSpec(clockNow(c));
        return 0;
    }

    int gettimeofday(timeval* t, void*)
    {
        timespec s;
        clock_gettime(CLOCK_REALTIME, &s);
        t->tv_sec = s.tv_sec;
        t->tv_usec = s.tv_nsec / 1000;
        return 0;
    }

    time_t time(time_t* t)
    {
        timespec s;
        clock_gettime(CLOCK_REALTIME, &s);
        if (t)
            *t = s.tv_sec;
        return s.tv_sec;
    }

    clock_t clock()
    {
        timespec s;
        clock_gettime(CLOCK_MONOTONIC, &s);
        return static_cast<clock_t>(fromSpec(s) / 1000);
    }

    int nanosleep(const timespec* t, timespec* left)
    {
        if (!SIMULATED)
        {
            REAL(int, nanosleep, const timespec*, timespec*);
            return real(t, left);
        }
        In in;
        sleepFor(fromSpec(*t));
        return 0;
    }

    int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* left)
    {
        if (!SIMULATED)
        {
            REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
            return real(c, flags, t, left);
        }
        In in;
        sleepFor((flags & TIMER_ABSTIME) ? fromSpec(*t) - clockNow(c) : fromSpec(*t));
        return 0;
    }

    int usleep(useconds_t us)
    {
        const timespec t = toSpec(static_cast<i64>(us) * 1000);
        return nanosleep(&t, nullptr);
    }

    unsigned sleep(unsigned s)
    {
        const timespec t = toSpec(static_cast<i64>(s) * sec);
        nanosleep(&t, nullptr);
        return 0;
    }

    // ---------------------------------------------------------------- randomness
    int getentropy(void* p, size_t n)
    {
        if (!SIMULATED)
        {
            memset(p, 0x5E, n);
            return 0;
        }
        for (size_t i = 0; i < n; ++i)
            static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(drawSeed());
        return 0;
    }

    ssize_t getrandom(void* p, size_t n, unsigned)
    {
        getentropy(p, n);
        return static_cast<ssize_t>(n);
    }

    // ---------------------------------------------------------------- files
    static FILE* openStream(const char* path, const char* mode, bool wide)
    {
        REAL(FILE*, fopen64, const char*, const char*);
        if (!SIMULATED || !inScope(path))
            return real(path, mode);
        const auto o = operation("open", detail("%s %s", path, mode), 0);
        if (o.err)
        {
            errno = o.err;
            return nullptr;
        }
        FILE* f;
        {
            In in;
            f = real(path, mode);
            if (f)
                track(fileno(f));
            if (f && *mode != 'r')
                noteWritten(path);
        }
        const int e = errno;
        after(o);
        errno = e;
        return f;
    }

    // a close that fails (other than by a signal) tells that what was written last has not reached the disk
    static void loseTail(int fd, int err)
    {
        const int mode = fcntl(fd, F_GETFL);
        if (err == 0 || err == EINTR || mode < 0 || (mode & O_ACCMODE) == O_RDONLY)
            return;
        const off_t size = lseek(fd, 0, SEEK_END);
        if (size > 0 && ftruncate(fd, size - std::min<off_t>(size, 512)) == 0)
            count("fault.lostwrite");
    }

    FILE* fopen(const char* path, const char* mode) { return openStream(path, mode, false); }
    FILE* fopen64(const char* path, const char* mode) { return openStream(path, mode, true); }

    int fclose(FILE* f)
    {
        REAL(int, fclose, FILE*);
        const int fd = f ? fileno(f) : -1;
        if (!SIMULATED || !tracked(fd))
            return real(f);
        const auto o = operation("close", "", 0);
        int r;
        {
            In in;
            files->erase(fd);
            loseTail(fd, o.err);
            r = real(f);
        }
        int e = errno;
        after(o);
        if (o.err)
        {
            e = o.err;
            r = EOF;
        }
        errno = e;
        return r;
    }

    static int openFd(const char* path, int flags, mode_t mode)
    {
        REAL(int, open64, const char*, int, ...);
        if (!SIMULATED || !inScope(path))
            return real(path, flags, mode);
        const auto o = operation("open", path, 0);
        if (o.err)
        {
            errno = o.err;
            return -1;
        }
        const int fd = real(path, flags, mode);
        const int e = errno;
        if (fd >= 0)
        {
            In in;
            track(fd);
            if ((flags & O_ACCMODE) != O_RDONLY)
                noteWritten(path);
        }
        after(o);
        errno = e;
        return fd;
    }

    int open(const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        const mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        return openFd(path, flags, mode);
    }

    int open64(const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        const mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        return openFd(path, flags, mode);
    }

    int close(int fd)
    {
        REAL(int, close, int);
        if (!SIMULATED || !tracked(fd))
            return real(fd);
        const auto o = operation("close", "", 0);
        {
            In in;
            files->erase(fd);
            loseTail(fd, o.err);
        }
        int r = real(fd);
        int e = errno;
        after(o);
        if (o.err)
        {
            e = o.err;
            r = -1;
        }
        errno = e;
        return r;
    }

    static ssize_t transferOut(int fd, const char* p, size_t n)
    {
        REAL(ssize_t, write, int, const void*, size_t);
        if (!SIMULATED || !tracked(fd))
            return real(fd, p, n);
        const auto o = operation("write", detail("%zu", n), static_cast<i64>(n));
        if (o.crashPart)
        {
            const size_t k = std::min<size_t>(n, static_cast<size_t>(std::max<i64>(0, crashBytes)));
            real(fd, p, k);
            In in;
            log("the process is killed after " + std::to_string(k) + " of these bytes");
            crashNow();
        }
        if (o.err)
        {
            errno = o.err;
            return -1;
        }
        if (o.shortTo >= 0)
            n = std::min<size_t>(n, static_cast<size_t>(o.shortTo));
        const ssize_t r = real(fd, p, n);
        const int e = errno;
        if (armed && diskLeft >= 0 && r > 0)
            diskLeft -= r;
        {
            In in;
            note(static_cast<u64>(r));
        }
        after(o);
        errno = e;
        return r;
    }

    ssize_t write(int fd, const void* p, size_t n) { return transferOut(fd, static_cast<const char*>(p), n); }

    ssize_t writev(int fd, const iovec* v, int c)
    {
        REAL(ssize_t, writev, int, const iovec*, int);
        if (!SIMULATED || !tracked(fd))
            return real(fd, v, c);
        std::string s;
        {
            In in;
            for (int i = 0; i < c; ++i)
                s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        }
        return transferOut(fd, s.data(), s.size());
    }

    ssize_t read(int fd, void* p, size_t n)
    {
        REAL(ssize_t, read, int, void*, size_t);
        if (!SIMULATED || !tracked(fd))
            return real(fd, p, n);
        const auto o = operation("read", detail("%zu", n), static_cast<i64>(n));
        if (o.err)
        {
            errno = o.err;
            return -1;
        }
        if (o.shortTo >= 0)
            n = std::min<size_t>(n, static_cast<size_t>(o.shortTo));
        const ssize_t r = real(fd, p, n);
        const int e = errno;
        after(o);
        errno = e;
        return r;
    }

    static int pathOperation(const char* name, const char* a, const char* b, int (*f)(const char*, const char*))
    {
        if (!SIMULATED || !inScope(a))
            return f(a, b);
        const auto o = operation(name, detail("%s%s%s", a, b ? " " : "", b ? b : ""), 0);
        if (o.err)
        {
            errno = o.err;
            return -1;
        }
        const int r = f(a, b);
        const int e = errno;
        after(o);
        errno = e;
        return r;
    }

    int rename(const char* a, const char* b)
    {
        REAL(int, rename, const char*, const char*);
        static F_rename r = real;
        return pathOperation("rename", a, b, [](const char* x, const char* y) { return r(x, y); });
    }

    int unlink(const char* a)
    {
        REAL(int, unlink, const char*);
        static F_unlink r = real;
        return pathOperation("unlink", a, nullptr, [](const char* x, const char*) { return r(x); });
    }

    int remove(const char* a)
    {
        REAL(int, remove, const char*);
        static F_remove r = real;
        return pathOperation("unlink", a, nullptr, [](const char* x, const char*) { return r(x); });
    }

    int fsync(int fd)
    {
        REAL(int, fsync, int);
        if (!SIMULATED || !tracked(fd))
            return real(fd);
        const auto o = operation("fsync", "", 0);
        after(o);
        if (o.err)
        {
            errno = o.err;
            return -1;
        }
        return 0;
    }

    int fdatasync(int fd) { return fsync(fd); }
}

// every random_device is seeded by the plan and the thread
std::random_device::result_type std::random_device::_M_getval() { return static_cast<result_type>(drawSeed(this)); }
