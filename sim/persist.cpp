// Scenario "persist": saves and loads, across restarts and crashes of the process and failures of the file system.
#include "unit.hpp"
#include <algorithm>
#include <locale>
#include <set>
#include <sys/stat.h>

namespace sim
{
    namespace
    {
        // ------------------------------------------------------------------ what a phase leaves to the next one
        std::string pack(const std::vector<std::string>& v)
        {
            std::string s;
            for (auto& x : v)
                s += std::to_string(x.size()) + ":" + x;
            return s;
        }

        std::vector<std::string> unpack(const std::string& s)
        {
            std::vector<std::string> v;
            for (size_t i = 0; i < s.size();)
            {
                const size_t c = s.find(':', i);
                const size_t n = strtoull(s.c_str() + i, nullptr, 10);
                v.push_back(s.substr(c + 1, n));
                i = c + 1 + n;
            }
            return v;
        }

        std::string difference(const std::string& a, const std::string& b)
        {
            size_t c = 0;
            while (c < a.size() && c < b.size() && a[c] == b[c])
                ++c;
            const size_t line = a.rfind('\n', c);
            const size_t from = line == std::string::npos ? 0 : line + 1;
            const auto cut = [&](const std::string& s) { return s.substr(std::min(from, s.size()), 160); };
            return "\"" + cut(a) + "\" / \"" + cut(b) + "\"";
        }

        // the part of a history before "--" or after it
        std::vector<Line> named(const Plan& plan, const char* key) { return plan.all(key); }

        Unit* makeUnit(const Plan& plan)
        {
            auto* u = new Unit;
            u->netLine = plan.all("net").at(0);
            u->dataLine = plan.all("data").at(0);
            u->dataSeed = static_cast<u64>(plan.num("seed"));
            u->file = "auto.snn";
            u->spied = plan.num("spied", 1) != 0;
            u->rec.keep = false;
            for (auto& l : plan.all("pass"))
                u->rec.script.push_back({static_cast<int>(l.num(0)), strtof(l.str(1).c_str(), nullptr), strtof(l.str(2).c_str(), nullptr)});
            if (plan.has("naneval"))
            {
                const auto l = plan.all("naneval").at(0);
                u->rec.nanPass = static_cast<int>(l.num(0));
                u->rec.nanEval = static_cast<int>(l.num(1));
            }
            return u;
        }

        Net* load(const std::string& path, std::string& err)
        {
            Net* n = nullptr;
            err = thrown([&] { n = &Net::loadFrom(path); });
            return err.empty() ? n : nullptr;
        }

        void drop(Net* n)
        {
            Loud loud;
            delete n;
        }

        bool nan(const Net& n)
        {
            Loud loud;
            return n.hasNan();
        }

        bool equal(const Net& a, const Net& b)
        {
            Loud loud;
            return a == b && !(a != b);
        }

        // ------------------------------------------------------------------ C08
        // the continued life of a network: in the first process and, loaded, in the last one
        std::vector<std::string> continued(const Plan& plan, Unit* u)
        {
            u->digests.clear();
            u->rec.passes = 0; // of the script
            u->rec.nanPass = -1;
            together({{800, [&]
            {
                Quiet q;
                u->build(false); // data of its own
                u->runAll(named(plan, "op2"));
            }}}, true);
            return u->digests;
        }

        void roundTrip(const Plan& plan, int phase)
        {
            const std::string path = plan.str("file", "net.snn");
            const int generations = static_cast<int>(plan.num("generations", 1));
            auto* u = makeUnit(plan);
            if (phase == 1)
            {
                together({{500, [&]
                {
                    Quiet q;
                    u->build();
                    u->runAll(named(plan, "op"));
                }}}, true);
                if (!u->net)
                    return;
                auto err = thrown([&] { u->net->saveAs(path); });
                require(err.empty(), "C08", "threw", "saveAs of an idle network threw " + err);
                if (!err.empty())
                    return;
                const auto o = observable(*u->net);
                if (Net* n = load(path, err))
                {
                    require(observable(*n) == o, "C08", "observable", "the loaded network is different: " + difference(o, observable(*n)));
                    if (!nan(*u->net))
                        require(equal(*n, *u->net), "C08", "equality", "the loaded network is not equal to the saved one");
                    count("probe.loads");
                    drop(n);
                }
                else
                    violated("C08", "threw", "loadFrom of a saved network threw " + err);
                const auto file = readFile(path);
                std::vector<std::string> blob{o, nan(*u->net) ? "nan" : ""};
                if (!nan(*u->net))
                {
                    u->build(false);
                    blob.push_back("outputs " + bits(u->use(4, plan.num("fresh") != 0)));
                    const auto d = continued(plan, u);
                    blob.insert(blob.end(), d.begin(), d.end());
                    if (nan(*u->net))
                        blob[1] = "nan";
                }
                writeFile(plan.num("moved") ? "moved.snn" : path, file); // it is the auto save file of the network that went on
                saveBlob(pack(blob));
                nextPhase();
            }
            const auto blob = unpack(loadBlob());
            u->rec.nanPass = -1;
            u->build(false);
            std::string err;
            Net* n = load(phase == 2 && plan.num("moved") ? "moved.snn" : path, err);
            require(n != nullptr, "C08", "threw", "loadFrom in a new process threw " + err);
            if (!n)
                return;
            require(observable(*n) == blob[0], "C08", "observable", "the network loaded in a new process is different: " + difference(blob[0], observable(*n)));
            {
                Loud loud;
                require(n->isValid() == 0 || blob[1] == "nan", "C08", "invalid", "the loaded network is not valid");
            }
            count("probe.loads");
            u->replace(n, true);
            if (phase <= generations)
            {
                err = thrown([&] { u->net->saveAs(path); });
                require(err.empty(), "C08", "threw", "saveAs of a loaded network threw " + err);
                nextPhase();
            }
            if (blob[1] == "nan")
                return;
            std::vector<std::string> now{"outputs " + bits(u->use(4, plan.num("fresh") != 0))};
            const auto d = continued(plan, u);
            now.insert(now.end(), d.begin(), d.end());
            for (size_t i = 0; i < std::max(now.size(), blob.size() - 2); ++i)
            {
                const std::string a = i + 2 < blob.size() ? blob[i + 2] : "(nothing)", b = i < now.size() ? now[i] : "(nothing)";
                require(a == b, "C08", "evolution", "the network loaded in a new process does not continue like the saved one, step " + std::to_string(i) + " (" + a.substr(0, a.find('\n')) + "): " + difference(a, b));
            }
            count("probe.compared", now.size());
            require(u->problem.empty(), "C08", "threw", u->problem);
            u->destroy();
        }

        // ------------------------------------------------------------------ C09
        void tornSave(const Plan& plan, int phase)
        {
            const std::string path = "net.snn";
            auto* u = makeUnit(plan);
            const bool autosave = plan.num("auto") != 0;
            if (phase == 1)
            {
                together({{500, [&]
                {
                    Quiet q;
                    u->build();
                    u->runAll(named(plan, "op"));
                    std::string before;
                    bool existed = false;
                    if (plan.num("first"))
                    {
                        const auto err = thrown([&] { u->net->saveAs(path); });
                        if (!err.empty())
                            return;
                        before = readFile(path);
                        existed = true;
                    }
                    if (plan.num("debris"))
                        writeFile(path + ".tmp", std::string(static_cast<size_t>(plan.num("debris")), 'x'));
                    if (autosave)
                    {
                        // any of the auto saves of a training is interrupted
                        saveBlob(pack({existed ? "1" : "0", before, "", "auto"}));
                        u->file = path;
                        u->net->autoSaveFilePath = path;
                        u->net->autoSaveWhenBetter = true;
                        armIo(true);
                        if (plan.has("crashafter"))
                            armCrash(static_cast<u64>(plan.num("crashafter")));
                        u->runAll(named(plan, "op2"));
                        nextPhase();
                    }
                    u->runAll(named(plan, "op2"));
                    if (!u->net)
                        return;
                    const auto saves = std::max<i64>(1, plan.num("saves", 1));
                    for (i64 i = 0; i < saves; ++i)
                    {
                        // saveAs makes the file the auto save file
                        const std::string other = u->net->autoSaveFilePath;
                        u->net->autoSaveFilePath = path;
                        const auto B = observable(*u->net);
                        u->net->autoSaveFilePath = other;
                        existed = exists(path); // it may have been auto saved meanwhile
                        before = existed ? readFile(path) : "";
                        saveBlob(pack({existed ? "1" : "0", before, B, "saving"}));
                        armIo(true);
                        if (i == 0 && plan.has("crashafter"))
                            armCrash(static_cast<u64>(plan.num("crashafter")));
                        const auto err = thrown([&] { u->net->saveAs(path); });
                        armIo(false);
                        require(err.empty(), "C09", "threw", "saveAs threw " + err);
                        before = readFile(path);
                        existed = true;
                        saveBlob(pack({"1", before, B, "saved"}));
                        if (i + 1 >= saves || !u->usable())
                            break;
                        saveBlob(pack({"1", before, "", "auto"}));
                        u->runAll(named(plan, "op3"));
                    }
                    disarmCrash();
                    count("probe.notcrashed");
                    nextPhase();
                }}}, true);
                return;
            }
            if (loadBlob().empty()) // killed before the save
            {
                count("probe.early");
                return;
            }
            const auto blob = unpack(loadBlob());
            const bool existed = blob[0] == "1";
            const bool there = exists(path);
            const auto content = there ? readFile(path) : "";
            std::string err;
            count(shared->crashed ? "probe.aftercrash" : "probe.afterexit");
            if (existed)
                require(there, "C09", "lost", "the previous file has disappeared after a crash in a save");
            Net* n = nullptr;
            if (there)
            {
                n = load(path, err);
                if (!n)
                {
                    violated("C09", "torn", "after a crash during a save, the file of " + std::to_string(content.size()) + " bytes is not loadable: " + err);
                    return;
                }
                const bool isOld = existed && content == blob[1];
                if (blob[3] == "saving")
                {
                    if (isOld)
                        count("probe.old");
                    else
                    {
                        require(observable(*n) == blob[2], "C09", "mixed", "after a crash during a save, the file is neither the previous one nor the new one: " + difference(blob[2], observable(*n)));
                        count("probe.new");
                    }
                }
                else if (blob[3] == "saved")
                    require(observable(*n) == blob[2], "C09", "lost", "saveAs had returned, and the file of the next process is not that network: " + difference(blob[2], observable(*n)));
                else
                    count(isOld ? "probe.old" : "probe.new");
            }
            else
                count("probe.absent");
            // the next process saves under the same name
            u->rec.nanPass = -1;
            u->build(n == nullptr);
            if (n)
                u->replace(n, true);
            if (u->usable())
            {
                err = thrown([&] { u->net->train(*u->ds->data, snn::operator""_ep(1ull), 1, 1); });
                require(err.empty(), "C09", "threw", "a training after the crash threw " + err);
            }
            err = thrown([&] { u->net->saveAs(path); });
            require(err.empty(), "C09", "later", "the next process cannot save under the same name: " + err);
            Net* m = load(path, err);
            require(m != nullptr, "C09", "later", "the next process cannot load what it saved: " + err);
            require(observable(*m) == observable(*u->net), "C09", "later", "the next process saved and loads another network: " + difference(observable(*u->net), observable(*m)));
            count("probe.later");
        }

        // ------------------------------------------------------------------ C10
        void failedSave(const Plan& plan, int)
        {
            std::string path = "net.snn";
            const std::string place = plan.str("place");
            auto* u = makeUnit(plan);
            u->failing = false;
            together({{500, [&]
            {
                Quiet q;
                u->build();
                u->runAll(named(plan, "op"));
                std::string before;
                bool existed = false;
                if (plan.num("first") && u->net)
                {
                    const auto err = thrown([&] { u->net->saveAs(path); });
                    require(err.empty(), "C10", "threw", "saveAs threw without a fault: " + err);
                    before = readFile(path);
                    existed = true;
                }
                u->runAll(named(plan, "op2"));
                if (!u->net)
                    return;
                if (place == "missing")
                    path = "nowhere/net.snn";
                else if (place == "directory")
                {
                    path = "dir.snn";
                    mkdir(path.c_str(), 0755);
                }
                const i64 tries = std::max<i64>(1, plan.num("tries", 1));
                for (i64 t = 0; t < tries; ++t)
                {
                    const auto B = observable(*u->net, true);
                    const u64 fired = ioFired();
                    if (place.empty()) // it may have been auto saved meanwhile
                    {
                        existed = exists(path);
                        before = existed ? readFile(path) : "";
                    }
                    const auto files = listFiles();
                    armIo(true);
                    if (t == 0 && plan.has("oom"))
                    {
                        const auto l = plan.all("oom").at(0);
                        armOom(l.num(0), l.num(1, 1));
                    }
                    const auto err = thrown([&] { u->net->saveAs(path); });
                    const bool oom = disarmOom();
                    armIo(false);
                    for (auto& f : listFiles())
                        require(f == path || std::find(files.begin(), files.end(), f) != files.end(), "C10", "left", std::string("a save that ") + (err.empty() ? "returned" : "threw") + " has left another file, " + f);
                    std::string lerr;
                    if (err.empty())
                    {
                        count("probe.returned");
                        if (ioFired() > fired)
                            count("probe.tolerated");
                        require(place.empty(), "C10", "silent", "saveAs to " + path + " (" + place + ") returned");
                        Net* n = load(path, lerr);
                        require(n != nullptr, "C10", "silent", "saveAs returned, and the file cannot be loaded: " + lerr);
                        require(observable(*n) == observable(*u->net), "C10", "silent", "saveAs returned, and the file holds another network: " + difference(observable(*u->net), observable(*n)));
                        drop(n);
                        before = readFile(path);
                        existed = true;
                        continue;
                    }
                    count("probe.refused");
                    require(ioFired() > fired || oom || !place.empty(), "C10", "threw", "saveAs threw without a fault: " + err);
                    if (place.empty())
                    {
                        require(exists(path) == existed, "C10", "lost", existed ? "a failed save removed the previous file" : "a failed save left a file");
                        require(!existed || readFile(path) == before, "C10", "damaged", "a failed save damaged the previous file, now " + std::to_string(readFile(path).size()) + " bytes instead of " + std::to_string(before.size()));
                    }
                    require(observable(*u->net, true) == B, "C10", "changed", "a failed save changed the network: " + difference(B, observable(*u->net, true)));
                    if (existed && place.empty())
                    {
                        Net* n = load(path, lerr);
                        require(n != nullptr, "C10", "damaged", "the previous file cannot be loaded after a failed save: " + lerr);
                        drop(n);
                    }
                    if (plan.num("between") && u->usable())
                    {
                        auto e = thrown([&] { u->net->evaluate(*u->ds->data); });
                        require(e.empty(), "C10", "unusable", "after a failed save evaluate throws " + e);
                        e = thrown([&] { u->net->train(*u->ds->data, snn::operator""_ep(1ull), 1, 1); });
                        require(e.empty(), "C10", "unusable", "after a failed save train throws " + e);
                    }
                }
                // the fault is gone
                path = "net.snn";
                auto e = thrown([&] { u->net->saveAs(path); });
                require(e.empty(), "C10", "later", "a save throws after the fault is gone: " + e);
                Net* n = load(path, e);
                require(n != nullptr, "C10", "later", "a file saved after the fault is gone cannot be loaded: " + e);
                require(observable(*n) == observable(*u->net), "C10", "later", "a file saved after the fault is gone holds another network: " + difference(observable(*u->net), observable(*n)));
                if (u->usable())
                    require(equal(*n, *u->net), "C10", "later", "a file saved after the fault is gone holds another network");
                drop(n);
                u->destroy();
            }}}, true);
            require(u->problem.empty(), "C10", "threw", u->problem);
        }

        // ------------------------------------------------------------------ C11
        struct Other // something that is not a network
        {
            int a = 3;
            std::vector<float> b{1, 2, 3};
            template <class Archive>
            void serialize(Archive& ar, unsigned)
            {
                ar & a;
                ar & b;
            }
        };

        std::string text(Rng& r, size_t n, const std::string& alphabet)
        {
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s += alphabet[r.below(alphabet.size())];
            return s;
        }

        // content of a file that does not hold a network, derived from the intact file
        std::string strange(const std::string& kind, u64 seed, const std::string& intact)
        {
            Rng r(seed);
            std::string bytes;
            for (int i = 0; i < 256; ++i)
                bytes += static_cast<char>(i);
            const std::string header = intact.substr(0, std::min<size_t>(intact.size(), intact.find(' ', 30)));
            if (kind == "bytes") return text(r, 1 + r.below(3000), bytes);
            if (kind == "zeros") return std::string(1 + r.below(3000), '\0');
            if (kind == "digits") return text(r, 1 + r.below(3000), "0123456789  ..-\n");
            if (kind == "words") return text(r, 1 + r.below(3000), "abcdefgh ,.\n");
            if (kind == "header") return header;
            if (kind == "headerwords") return header + " " + text(r, 1 + r.below(500), "abcdefgh ,.\n");
            if (kind == "reversed") return {intact.rbegin(), intact.rend()};
            if (kind == "tail") return intact.substr(1 + r.below(intact.size() - 1)); // its beginning is missing
            if (kind == "twice") return intact.substr(0, intact.size() / 2) + intact;
            return "";
        }

        void brokenFile(const Plan& plan, int phase)
        {
            const std::string path = "net.snn";
            auto* u = makeUnit(plan);
            const bool restart = plan.num("restart") != 0;
            std::string original, content;
            if (phase == 1)
            {
                together({{500, [&]
                {
                    Quiet q;
                    u->build();
                    u->runAll(named(plan, "op"));
                    if (!u->net)
                        return;
                    const auto err = thrown([&] { u->net->saveAs(path); });
                    if (!err.empty())
                        return;
                    saveBlob(pack({observable(*u->net), readFile(path), pack(writtenFiles())}));
                    u->destroy();
                }}}, true);
                if (loadBlob().empty())
                    return;
                if (restart)
                    nextPhase();
            }
            const auto blob = unpack(loadBlob());
            original = blob[0];
            content = blob[1];

            // loads of it must fail
            const auto attempt = [&](const std::string& what, bool intact)
            {
                resetPeak();
                const u64 before = liveBytes(), fired = ioFired();
                std::string err;
                armIo(intact);
                Net* n = load(path, err);
                armIo(false);
                const bool oom = disarmOom();
                const u64 used = peakBytes() == ~u64{0} ? peakBytes() : peakBytes() - before;
                count(err.empty() ? "probe.loaded" : "probe.refused");
                require(used < (u64{64} << 20), "C11", "memory", "loadFrom of " + what + " asked for " + (used == ~u64{0} ? std::string("more than 3 GB") : std::to_string(used >> 20) + " MB") + " of memory");
                if (intact) // nothing is wrong with the file itself
                {
                    if (n)
                        require(observable(*n) == original, "C11", "other", "loadFrom with " + what + " returned another network: " + difference(original, observable(*n)));
                    else
                        require(oom || ioFired() > fired, "C11", "threw", "loadFrom of an intact file threw " + err);
                }
                else
                    require(n == nullptr, "C11", "accepted", "loadFrom of " + what + " returned a network");
                if (n)
                    drop(n);
            };
            const auto cut = [&](size_t k)
            {
                writeFile(path, content.substr(0, k));
                attempt("a file cut at byte " + std::to_string(k) + " of " + std::to_string(content.size()), false);
            };

            for (auto& l : plan.all("broken"))
            {
                const auto kind = l.str(0);
                count("fault.file." + kind);
                if (kind == "cut") // in parts per 10000 of its size
                    cut(static_cast<size_t>(l.num(1)) * (content.size() - 1) / 10000);
                else if (kind == "cutend")
                    cut(content.size() - std::min<size_t>(content.size(), static_cast<size_t>(std::max<i64>(1, l.num(1)))));
                else if (kind == "cutnumber") // in or after the k-th value from the end
                {
                    size_t k = content.size() - 1;
                    for (i64 i = 0; i < l.num(1) && k > 0; ++i)
                        k = std::max<size_t>(1, content.find_last_of(" \n", k - 1));
                    cut(std::min(k + static_cast<size_t>(l.num(2)), content.size() - 1));
                }
                else if (kind == "empty")
                    cut(0);
                else if (kind == "missing")
                {
                    ::remove(path.c_str());
                    attempt("a missing file", false);
                }
                else if (kind == "leftover") // the file is missing, and what a killed save may have left behind is not
                {
                    ::remove(path.c_str());
                    std::set<std::string> names;
                    for (auto& name : unpack(blob[2]))
                        names.insert(name);
                    for (const char* suffix : {".tmp", ".bak", ".old", ".new", "~", ".part", "2"})
                        names.insert(path + suffix);
                    names.insert({"other.snn", "net", "net.txt"});
                    names.erase(path);
                    const size_t size = l.num(1) ? content.size() * static_cast<size_t>(l.num(1)) / 10000 : content.size();
                    for (auto& name : names)
                        writeFile(name, content.substr(0, size));
                    attempt("a missing file next to others", false);
                    for (auto& name : names)
                        ::remove(name.c_str());
                }
                else if (kind == "directory")
                {
                    ::remove(path.c_str());
                    mkdir(path.c_str(), 0755);
                    attempt("a directory", false);
                    ::rmdir(path.c_str());
                }
                else if (kind == "archive") // a boost archive of something else
                {
                    std::ostringstream o;
                    o.imbue(std::locale::classic());
                    {
                        Quiet q;
                        boost::archive::text_oarchive ar(o);
                        const Other other;
                        const int i = static_cast<int>(l.num(2, 7));
                        const std::string s = "a text";
                        const Vec v{1.5f, -2};
                        switch (l.num(1))
                        {
                        case 0: ar << i; break;
                        case 1: ar << s; break;
                        case 2: ar << v; break;
                        case 3: ar << other; break;
                        default: ar << i << s << v << other; break;
                        }
                    }
                    writeFile(path, o.str());
                    attempt("a file that holds something else", false);
                }
                else if (kind == "read" || kind == "open") // cannot be read
                {
                    writeFile(path, content);
                    attempt("a file whose " + kind + " fails", true);
                }
                else if (kind == "oom")
                {
                    writeFile(path, content);
                    armOom(l.num(1, 1), l.num(2, 1));
                    attempt("failing allocations", true);
                }
                else
                {
                    const auto s = strange(kind, static_cast<u64>(l.num(1)), content);
                    if (s == content)
                        continue;
                    writeFile(path, s);
                    attempt("a file that does not hold a network (" + kind + ")", false);
                }
                // the process can load an intact file
                if (l.num(9) == 0)
                {
                    ::remove(path.c_str());
                    writeFile(path, content);
                    std::string err;
                    Net* n = load(path, err);
                    require(n != nullptr, "C11", "later", "an intact file cannot be loaded after a broken one (" + kind + "): " + err);
                    require(observable(*n) == original, "C11", "later", "an intact file loads as another network after a broken one (" + kind + "): " + difference(original, observable(*n)));
                    count("probe.later");
                    drop(n);
                }
            }
            (void)phase;
        }

        // ------------------------------------------------------------------ C12
        struct Auto
        {
            std::string path = "auto.snn";
            std::string initial; // the file before
            bool existed = false;
            std::set<std::string> allowed; // what the file may hold now: "absent", "initial", or weights and accuracy
            float best = -1;
            bool pending = false;
            std::string pendingWeights;
            int passesBefore = 0;
            u64 firedBefore = 0;
            std::string lastContent, lastState;

            std::string state() // of the file
            {
                if (!exists(path))
                    return "absent";
                const auto c = readFile(path);
                if (existed && c == initial)
                    return "initial";
                if (c == lastContent)
                    return lastState;
                Quiet q;
                std::string s;
                try
                {
                    Net& n = Net::loadFrom(path);
                    s = describe(held(n), n.getGlobalClusteringRate());
                    if (n.getGlobalClusteringRate() != n.getGlobalClusteringRateMax())
                        s += " and its best accuracy is " + floatText(n.getGlobalClusteringRateMax());
                    delete &n;
                }
                catch (const std::exception& e)
                {
                    s = std::string("not loadable: ") + e.what();
                }
                lastContent = c;
                lastState = s;
                return s;
            }

            // what an evaluation does not change
            static std::string held(Net& n) { return bits(weightsOf(n)) + " epoch " + std::to_string(n.getCurrentEpoch()) + " learned " + std::to_string(n.getNumberOfTraining()); }

            static std::string describe(const std::string& weights, float accuracy) { return "accuracy " + floatText(accuracy) + ", weights " + weights; }

            std::string packed() const
            {
                std::vector<std::string> v{existed ? "1" : "0", initial, pending ? pendingWeights : ""};
                v.insert(v.end(), allowed.begin(), allowed.end());
                return pack(v);
            }
        };

        void autoSaves(const Plan& plan, int phase)
        {
            auto* u = makeUnit(plan);
            u->failing = plan.has("io") || plan.has("full") || plan.has("oomnext");
            Auto a;
            const bool scripted = !u->rec.script.empty();
            if (phase == 1)
            {
                const auto resolve = [&](const std::string& when)
                {
                    if (!u->net)
                        return;
                    if (a.pending && u->rec.passes > a.passesBefore)
                    {
                        const auto acc = statsOf(*u->net).v[0];
                        if (!std::isnan(acc) && acc > a.best)
                        {
                            a.best = acc;
                            const auto s = Auto::describe(a.pendingWeights, acc);
                            if (ioFired() > a.firedBefore || oomFired())
                                a.allowed.insert(s); // the save may have failed
                            else
                                a.allowed = {s};
                            count("probe.better");
                        }
                        a.pending = false;
                        saveBlob(a.packed());
                        count("probe.evaluations");
                    }
                    a.firedBefore = ioFired();
                    const auto s = a.state();
                    if (!a.allowed.contains(s) && !a.pending)
                        violated("C12", "file", "the auto save file is (" + s.substr(0, 120) + "), and the best network so far is (" + a.allowed.rbegin()->substr(0, 120) + ") " + when);
                    else if (!a.pending)
                        a.allowed = {s};
                };
                u->hook = [&](const Event& e)
                {
                    if (e.train || u->rec.evalInPass == 0)
                        resolve("in a training");
                    if (!e.train && u->rec.evalInPass == 0)
                    {
                        a.pending = true;
                        a.pendingWeights = Auto::held(*u->net);
                        a.passesBefore = u->rec.passes;
                        saveBlob(a.packed());
                    }
                    else if (e.train)
                        a.pending = false;
                };
                u->afterOp = [&](const std::string& op) { resolve("after " + op); };
                together({{500, [&]
                {
                    Quiet q;
                    u->build();
                    if (plan.num("first")) // a file of another network
                    {
                        Net* n = makeNet(u->netLine);
                        thrown([&] { n->saveAs(a.path); });
                        dispose(n);
                        a.initial = readFile(a.path);
                        a.existed = true;
                    }
                    a.allowed = {a.existed ? "initial" : "absent"};
                    saveBlob(a.packed());
                    u->net->autoSaveFilePath = a.path;
                    u->net->autoSaveWhenBetter = true;
                    armIo(true);
                    if (plan.has("crashafter"))
                        armCrash(static_cast<u64>(plan.num("crashafter")));
                    int at = 0;
                    for (auto& l : plan.all("op"))
                    {
                        for (auto& f : plan.all("oomnext"))
                            if (f.num(0) == at)
                                armOom(f.num(1), f.num(2, 1));
                        ++at;
                        if (l.str(0) == "load" && a.state().rfind("accuracy", 0) != 0)
                            continue;
                        u->runAll({l});
                        disarmOom();
                        if (l.str(0) == "load")
                            a.best = statsOf(*u->net).v[5]; // older if a save failed
                    }
                    a.pending = false;
                    saveBlob(a.packed());
                    armIo(false);
                    nextPhase();
                }}}, true);
                return;
            }
            const auto blob = unpack(loadBlob());
            if (blob.size() < 3) // killed before the beginning
                return;
            a.existed = blob[0] == "1";
            a.initial = blob[1];
            count(shared->crashed ? "probe.aftercrash" : "probe.afterexit");
            const auto s = a.state();
            bool ok = false;
            for (size_t i = 3; i < blob.size(); ++i)
                ok = ok || blob[i] == s;
            if (!ok && !blob[2].empty()) // in an evaluation, or right after it
                ok = s.rfind("accuracy ", 0) == 0 && s.size() > blob[2].size() && s.find(", weights " + blob[2]) != std::string::npos && s.ends_with(blob[2]);
            require(ok, "C12", "file", "in the next process the auto save file is (" + s.substr(0, 120) + "), and the best network so far was (" + (blob.size() > 3 ? blob[3] : "?").substr(0, 120) + ")");
            if (s.rfind("accuracy", 0) != 0)
                return;
            std::string err;
            Net* n = load(a.path, err);
            require(n != nullptr, "C12", "load", "the auto saved file cannot be loaded: " + err);
            u->rec.script.clear();
            u->rec.nanPass = -1;
            u->spied = false;
            u->build(false);
            u->replace(n, true);
            count("probe.loads");
            {
                Loud loud;
                require(!n->isTraining(), "C12", "idle", "the loaded network is in training");
            }
            const auto stats = statsOf(*n);
            u->failing = false;
            auto e = thrown([&] { n->evaluate(*u->ds->data); });
            require(e.empty(), "C12", "unusable", "evaluate of the loaded network threw " + e);
            if (!scripted && !plan.num("recurrent"))
            {
                const float now = statsOf(*n).v[0];
                require(now == stats.v[0], "C12", "accuracy", "the loaded network has the accuracy " + floatText(stats.v[0]) + " and evaluates to " + floatText(now));
                count("probe.reproduced");
            }
            Net* c = nullptr;
            e = thrown([&] { c = make<Net>(*n); });
            require(e.empty(), "C12", "unusable", "the loaded network cannot be copied: " + e);
            require(!(*n == *n) || (*n == *c && *c == *n), "C12", "unusable", "a copy of the loaded network is not equal to it"); // (a NaN makes it different from itself)
            dispose(c);
            e = thrown([&] { n->saveAs("again.snn"); });
            require(e.empty(), "C12", "unusable", "the loaded network cannot be saved: " + e);
            Net* m = load("again.snn", e);
            require(m != nullptr, "C12", "unusable", "the loaded network saved again cannot be loaded: " + e);
            drop(m);
            const int trained = n->getNumberOfTraining();
            e = thrown([&] { n->train(*u->ds->data, snn::operator""_ep(1ull), 1, 1); });
            require(e.empty(), "C12", "unusable", "the loaded network cannot be trained: " + e);
            if (!n->hasNan())
                require(n->getNumberOfTraining() > trained || u->ds->nature == snn::nature::timeSeries, "C12", "unusable", "the loaded network learned nothing in a training");
            u->destroy();
        }
    }

    namespace
    {
        // the locale the program has chosen: each process its own
        struct Separators final : std::numpunct<char>
        {
            char decimal, thousands;
            Separators(char d, char t) : decimal(d), thousands(t) {}
            char do_decimal_point() const override { return decimal; }
            char do_thousands_sep() const override { return thousands; }
            std::string do_grouping() const override { return "\3"; }
        };

        void chooseLocale(const Plan& plan, int phase)
        {
            if (!plan.has("locale"))
                return;
            const auto l = plan.all("locale").at(0);
            const std::string name = l.args.at(std::min(static_cast<size_t>(phase), l.args.size()) - 1);
            if (name == "classic")
                return;
            const auto c = std::locale::classic();
            std::locale::global(name == "comma" ? std::locale(c, new Separators(',', '.'))
                                : name == "groups" ? std::locale(c, new Separators('.', ',')) : std::locale(c, new Separators(',', ' ')));
            count("locale." + name);
        }
    }

    void scenarioPersist(const Plan& plan, int phase)
    {
        Quiet q;
        chooseLocale(plan, phase);
        concerns = [](const std::string&) { return true; };
        if (theProperty == "C08")
            roundTrip(plan, phase);
        else if (theProperty == "C09")
            tornSave(plan, phase);
        else if (theProperty == "C10")
            failedSave(plan, phase);
        else if (theProperty == "C11")
            brokenFile(plan, phase);
        else if (theProperty == "C12")
            autoSaves(plan, phase);
        else
            error("no persist scenario for " + theProperty);
    }
}
