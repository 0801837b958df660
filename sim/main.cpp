// Server: runs plans one after the other, each in processes of its own (a second one after a simulated crash or restart).
#include "harness.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace
{
    void clean(const std::string& dir)
    {
        DIR* d = opendir(dir.c_str());
        if (!d)
            return;
        while (auto* e = readdir(d))
        {
            const std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            const std::string p = dir + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
                clean(p);
            else
                ::unlink(p.c_str());
        }
        closedir(d);
        rmdir(dir.c_str());
    }

    int runPhase(const Plan& plan, int phase, const std::string& dir)
    {
        fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0)
        {
            struct rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            if (chdir(dir.c_str()) != 0)
                _exit(97);
            freopen("/dev/null", "w", stdout);
            struct rlimit cpu{20, 25};
            setrlimit(RLIMIT_CPU, &cpu);
            alarm(600);
            begin(plan, phase);
            runScenario(plan, phase);
            finishOk();
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        return status;
    }

    std::string run(const std::string& text, const std::string& scratch)
    {
        static int number = 0;
        const Plan plan = Plan::parse(text);
        const std::string dir = scratch + "/r" + std::to_string(getpid()) + "_" + std::to_string(number++);
        mkdir(dir.c_str(), 0755);
        shared->verdict[0] = shared->kind[0] = shared->msg[0] = shared->counters[0] = 0;
        shared->hash = shared->schedHash = shared->steps = shared->switches = shared->coarse = 0;
        shared->simNs = 0;
        shared->blobSize = shared->devSize = 0;
        shared->wantNextPhase = shared->crashed = false;
        int phase = 1;
        for (;; ++phase)
        {
            const bool before = shared->wantNextPhase;
            shared->verdict[0] = 0;
            bool wasNext = false;
            const int status = runPhase(plan, phase, dir);
            if (WIFSIGNALED(status))
            {
                snprintf(shared->verdict, sizeof shared->verdict, "%s", "timeout");
                snprintf(shared->kind, sizeof shared->kind, "signal%d", WTERMSIG(status));
                snprintf(shared->msg, sizeof shared->msg, "the simulated process was ended by signal %d", WTERMSIG(status));
                break;
            }
            const int code = WEXITSTATUS(status);
            wasNext = shared->verdict[0] == 0 && (code == 77 || code == 0);
            if (!wasNext)
            {
                if (shared->verdict[0] == 0)
                {
                    // the library ended the process by itself
                    snprintf(shared->verdict, sizeof shared->verdict, "violation");
                    snprintf(shared->kind, sizeof shared->kind, "exit");
                    snprintf(shared->msg, sizeof shared->msg, "the process ended with code %d", code);
                }
                break;
            }
            (void)before;
            if (phase > 8)
                break;
        }
        clean(dir);
        std::ostringstream o;
        o << "verdict " << shared->verdict << "\nkind " << shared->kind << "\nmsg " << shared->msg << "\nhash " << std::hex << shared->hash
          << "\nsched " << shared->schedHash << std::dec << "\nsteps " << shared->steps << "\nswitches " << shared->switches << "\nsimns " << shared->simNs
          << "\nphases " << phase << "\ncounters " << shared->counters << "\n";
        if (plan.has("wantdevs"))
            o << "devs " << (shared->devSize >= sizeof shared->devs ? -1 : static_cast<long>(shared->devSize)) << "\n"
              << (shared->devSize >= sizeof shared->devs ? std::string() : std::string(shared->devs, shared->devSize));
        return o.str();
    }
}

int main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && getenv("SNNSIM_NOASLR") == nullptr)
    {
        setenv("SNNSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string mode = argc > 1 ? argv[1] : "", file, scratch = "/tmp";
    int cpu = -1;
    for (int i = 2; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "-v")
            verbose = true;
        else if (a == "--scratch" && i + 1 < argc)
            scratch = argv[++i];
        else if (a == "--cpu" && i + 1 < argc)
            cpu = atoi(argv[++i]);
        else
            file = a;
    }
    if (cpu >= 0)
    {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET(cpu, &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    if (mode == "run")
    {
        std::ifstream in(file);
        std::stringstream ss;
        ss << in.rdbuf();
        std::cout << run(ss.str(), scratch) << std::flush;
        return 0;
    }
    if (mode == "server")
    {
        std::string head;
        while (std::getline(std::cin, head))
        {
            const size_t n = strtoull(head.c_str(), nullptr, 10);
            std::string text(n, 0);
            std::cin.read(text.data(), static_cast<std::streamsize>(n));
            const std::string r = run(text, scratch);
            std::cout << r.size() << "\n" << r << std::flush;
        }
        return 0;
    }
    std::cerr << "usage: snnsim run PLAN [-v] [--scratch DIR] | snnsim server [--scratch DIR] [--cpu N]\n";
    return 2;
}
