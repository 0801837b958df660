// Scenario "memory": the same life lived three times in one process, with other values in the memory that is not written
// yet. Its results must not depend on them, and what it took must have been given back.
#include "unit.hpp"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>

namespace sim
{
    namespace
    {
        int openFiles()
        {
            int n = 0;
            for (int fd = 0; fd < 256; ++fd)
                n += fcntl(fd, F_GETFD) != -1;
            return n;
        }

        struct Round
        {
            std::vector<std::string> digests;
            u64 bytes = 0;
            i64 unloaded = 0;
            bool unknown = false;
            int files = 0, threads = 0;
        };

        std::string difference(const std::vector<std::string>& a, const std::vector<std::string>& b)
        {
            for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
            {
                const std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
                if (x == y)
                    continue;
                size_t c = 0;
                while (c < x.size() && c < y.size() && x[c] == y[c])
                    ++c;
                const size_t line = x.rfind('\n', c), from = line == std::string::npos ? 0 : line + 1;
                return "after operation " + std::to_string(i) + " (" + x.substr(0, x.find('\n')) + "): \"" + x.substr(std::min(from, x.size()), 160) + "\" / \"" + y.substr(std::min(from, y.size()), 160) + "\"";
            }
            return "";
        }

        struct Lane
        {
            Unit* u = nullptr;
            std::vector<Line> ops;
            u64 key = 0;
            i64 unloaded = 0;      // taken by loads that failed
            bool unknown = false;  // what it took cannot be told
            bool over = false;     // what follows depends on the schedule
        };

        // operations of this scenario only
        bool special(Lane& lane, const Line& l)
        {
            Unit& u = *lane.u;
            const std::string op = l.str(0);
            const auto said = [&](const std::string& what, const std::string& err) { u.digests.push_back(what + " " + err); };
            if (op == "badload") // the file of this network, cut
            {
                if (!u.net || !thrown([&] { u.net->saveAs(u.file); }).empty())
                    return true;
                const auto text = readFile(u.file);
                const std::string cut = "cut " + u.file;
                writeFile(cut, text.substr(0, text.size() * static_cast<size_t>(l.num(1)) / 10000));
                Net* n = nullptr;
                const auto taken = static_cast<i64>(libraryBytes());
                const auto err = thrown([&] { n = &Net::loadFrom(cut); });
                if (!err.empty())
                    lane.unloaded += static_cast<i64>(libraryBytes()) - taken;
                said("a cut file", err.empty() ? "loaded" : "refused");
                if (n)
                {
                    Loud loud;
                    delete n;
                }
            }
            else if (op == "badnet") // an architecture that is refused
            {
                std::vector<std::string> tokens(l.args.begin() + 1, l.args.end());
                Net* n = nullptr;
                said("a wrong architecture", thrown([&] { n = makeNet(tokens); }));
                if (n)
                {
                    Loud loud;
                    dispose(n);
                }
            }
            else if (op == "wrongdata") // data that do not fit
            {
                auto* d = makeData(Line{"data", {"nt", "reg", l.str(1, "7"), l.str(2, "6"), "4", "2", "5"}}, 3);
                said("data of another shape", u.net ? thrown([&] { u.net->evaluate(*d->data); }) : "");
                said("data of another shape", u.net ? thrown([&] { u.net->train(*d->data, snn::operator""_ep(1ull), 1, 1); }) : "");
                if (u.net && (d->inputs != u.ds->inputs || d->outputs != u.ds->outputs))
                    said("data of another shape", thrown([&] { u.net->startTrainingAsync(*d->data); }));
                said("data of another shape", u.net ? thrown([&] { u.net->saveFilterLayersAsBitmap("filters", *d->data, 0); }) : "");
                said("data of another shape", u.net ? thrown([&] { u.net->saveData2DAsBitmap("inputs", *d->data, 0); }) : "");
                Loud loud;
                dispose(d->data);
            }
            else if (op == "baddata") // data that do not fit together
            {
                if (!u.net)
                    return true;
                const auto& kind = l.str(1);
                const auto which = static_cast<size_t>(l.num(2));
                Vec2 x = u.ds->trainX, y = u.ds->trainY, tx = u.ds->testX, ty = u.ds->testY;
                std::vector<Vec2> sx, stx;
                auto& in = which % 2 ? x : tx;
                auto& out = which % 2 ? y : ty;
                const auto at = (which / 2) % in.size();
                if (kind == "noinputs") in.clear();
                if (kind == "noboth") in.clear(), out.clear();
                if (kind == "nolabels") out.clear();
                if (kind == "lessinputs") in.pop_back();
                if (kind == "lesslabels") out.pop_back();
                if (kind == "moreinputs") in.push_back(in[0]);
                if (kind == "morelabels") out.push_back(out[0]);
                if (kind == "shortinput") in[at].pop_back();
                if (kind == "longinput") in[at].push_back(0.5f);
                if (kind == "shortlabel") out[at].pop_back();
                if (kind == "longlabel") out[at].push_back(1.0f);
                if (kind == "emptyinput") in[at].clear();
                if (kind == "emptylabel") out[at].clear();
                const bool sequences = kind == "emptysequence" || kind == "nosequence" || l.str(3) == "seq";
                if (sequences)
                {
                    sx = {x};
                    stx = {tx};
                    auto& s = which % 2 ? sx : stx;
                    if (kind == "emptysequence") s.insert(s.begin() + static_cast<long>(which / 2 % 2), Vec2());
                    if (kind == "nosequence") s.clear();
                }
                const int R = l.str(3) == "ts" ? 1 : kind == "recurrences" ? static_cast<int>(which) - 2 : 0;
                const auto nature = sequences ? snn::nature::sequential : R != 0 || kind == "recurrences" ? snn::nature::timeSeries : l.str(3) == "flat" ? snn::nature::sequential : snn::nature::nonTemporal;
                Data* d = nullptr;
                const auto err = thrown([&]
                {
                    if (sequences && l.str(4) == "same")
                        d = make<Data>(u.ds->problem, which % 2 ? sx : stx, which % 2 ? y : ty, nature, R);
                    else if (sequences)
                        d = make<Data>(u.ds->problem, sx, y, stx, ty, nature, R);
                    else if (l.str(4) == "same")
                        d = make<Data>(u.ds->problem, in, out, nature, R);
                    else
                        d = make<Data>(u.ds->problem, x, y, tx, ty, nature, R);
                });
                sim::count(d ? "probe.baddata.accepted" : "probe.baddata.refused");
                said("data of kind " + kind, err);
                if (d)
                {
                    said("its use", thrown([&] { d->shuffle(); }));
                    said("its use", thrown([&] { u.net->train(*d, snn::operator""_ep(2ull), 1, 1); }));
                    said("its use", thrown([&] { u.net->train(*d, snn::operator""_ep(2ull), 2, 1); }));
                    said("its use", thrown([&] { u.net->evaluate(*d); }));
                    said("its use", thrown([&] { d->normalize(0, 1); }));
                    Loud loud;
                    dispose(d);
                }
            }
            else if (op == "badindex")
            {
                if (!u.net)
                    return true;
                const int i = static_cast<int>(l.num(1));
                said("bitmaps", thrown([&] { u.net->saveFilterLayersAsBitmap("filters", *u.ds->data, i); }));
                said("bitmaps", thrown([&] { u.net->saveData2DAsBitmap("inputs", *u.ds->data, i); }));
            }
            else if (op == "wrongarguments")
            {
                if (!u.net)
                    return true;
                said("wrong batch size", thrown([&] { u.net->train(*u.ds->data, snn::operator""_ep(1ull), -1, 1); }));
                said("wrong frequency", thrown([&] { u.net->train(*u.ds->data, snn::operator""_ep(1ull), 1, -1); }));
                const size_t in = static_cast<size_t>(u.ds->inputs), out = static_cast<size_t>(u.ds->outputs), d = static_cast<size_t>(l.num(1, 1));
                said("wrong input", thrown([&] { (void)u.net->computeOutput(Vec(in + d, 0.5f)); }));
                said("wrong input", thrown([&] { (void)u.net->computeOutput(Vec(in - 1, 0.5f), true); }));
                said("wrong input", thrown([&] { (void)u.net->computeCluster(Vec(in + d, 0.5f)); }));
                said("wrong input", thrown([&] { u.net->trainOnce(Vec(in + d, 0.5f), Vec(out, 0.5f)); }));
                said("wrong output", thrown([&] { u.net->trainOnce(Vec(in, 0.5f), Vec(out - 1, 0.5f)); }));
            }
            else if (op == "once")
            {
                if (!u.net)
                    return true;
                for (int i = 0; i < l.num(1, 1); ++i)
                    said("one step", thrown([&] { u.net->trainOnce(u.ds->trainX[0], u.ds->trainY[0], i % 2 == 0); }));
                u.record("once");
            }
            else if (op == "changed") // settings changed while it learns
            {
                if (!u.net)
                    return true;
                (void)thrown([&] { u.net->startTrainingAsync(*u.ds->data, 1, static_cast<int>(l.num(2))); });
                for (i64 i = 0; i < l.num(1); ++i)
                {
                    Loud loud;
                    pause();
                }
                {
                    Loud loud;
                    u.net->setNumberOfTrainingsBetweenTwoEvaluations(static_cast<int>(l.num(3)));
                }
                for (i64 i = 0; i < 300; ++i)
                {
                    Loud loud;
                    pause();
                }
                (void)thrown([&] { u.net->stopTrainingAsync(); });
                lane.over = true;
            }
            else if (op == "bitmaps")
            {
                if (!u.net)
                    return true;
                said("bitmaps", thrown([&] { u.net->saveFeatureMapsAsBitmap("maps"); }));
                said("bitmaps", thrown([&] { u.net->saveFilterLayersAsBitmap("filters", *u.ds->data, 0); }));
                said("bitmaps", thrown([&] { u.net->saveData2DAsBitmap("inputs", *u.ds->data, 0); }));
            }
            else
                return false;
            return true;
        }

        void live(const Plan& plan, Lane& lane)
        {
            Quiet q;
            auto* u = lane.u;
            u->build();
            u->record("creation");
            int at = 0;
            for (auto& l : lane.ops)
            {
                bool armed = false;
                if (lane.key == 700)
                    for (auto& f : plan.all("oomnext"))
                        if (f.num(0) == at)
                        {
                            armOom(f.num(1), f.num(2, 1));
                            armed = u->failing = true;
                        }
                ++at;
                if (lane.over && l.str(0) != "destroy")
                    continue;
                if (!special(lane, l))
                {
                    u->runAll({l});
                    if (armed && oomFired() && (l.str(0) == "reload" || l.str(0) == "load"))
                        lane.unknown = true;
                }
                if (armed)
                {
                    disarmOom();
                    u->failing = false;
                }
            }
            u->destroy();
        }

        void cleanDirectory()
        {
            for (auto& f : listFiles())
                unlink(f.c_str());
        }
    }

    void scenarioMemory(const Plan& plan, int)
    {
        Quiet q;
        concerns = [](const std::string&) { return true; };
        watchHeap();
        const auto nets = plan.all("net"), datas = plan.all("data");
        const size_t lanes = nets.size();
        Round rounds[3];
        for (int r = 0; r < 3; ++r)
        {
            setNoise(r == 1 ? 0 : mix(static_cast<u64>(plan.num("seed")), static_cast<u64>(r)));
            std::vector<Lane> all(lanes);
            std::vector<std::pair<u64, std::function<void()>>> fs;
            for (size_t k = 0; k < lanes; ++k)
            {
                auto* u = all[k].u = new Unit;
                u->netLine = nets[k];
                u->dataLine = datas[std::min(k, datas.size() - 1)];
                u->dataSeed = static_cast<u64>(plan.num("seed")) + k;
                u->file = "lane" + std::to_string(k) + ".snn";
                u->spied = plan.num("spied") != 0;
                u->rec.keep = false;
                all[k].ops = plan.all(k == 0 ? "op" : "op" + std::to_string(k + 1));
                all[k].key = 700 + k;
                fs.emplace_back(all[k].key, [&plan, lane = &all[k]] { live(plan, *lane); });
            }
            together(fs, plan.num("parallel") != 0);
            rounds[r].threads = liveThreads();
            for (auto& l : all)
            {
                for (auto& d : l.u->digests)
                    rounds[r].digests.push_back(d);
                rounds[r].digests.push_back(l.u->problem);
                rounds[r].unloaded += l.unloaded;
                rounds[r].unknown |= l.unknown;
                Loud loud;
                for (auto* d : l.u->allData)
                    dispose(d->data);
            }
            rounds[r].bytes = libraryBytes();
            rounds[r].files = openFiles();
            cleanDirectory();
        }
        for (int r = 1; r < 3; ++r)
        {
            if (r == 2 || !plan.has("oomnext")) // the first life may also allocate what lasts as long as the process
                require(rounds[r].digests == rounds[r - 1].digests, "C25", "undefined",
                        "the results depend on what was in memory before it was written, " + difference(rounds[r - 1].digests, rounds[r].digests));
            require(rounds[r].threads == rounds[0].threads, "C25", "threads", std::to_string(rounds[r].threads) + " threads are left, and " + std::to_string(rounds[0].threads) + " one life before");
            require(rounds[r].files == rounds[r - 1].files, "C25", "files", std::to_string(rounds[r].files) + " files are open, and " + std::to_string(rounds[r - 1].files) + " one life before");
        }
        if (rounds[2].unloaded > 0 || rounds[2].unknown)
            count("known.failed-load-leaks");
        const auto kept = static_cast<i64>(rounds[2].bytes) - static_cast<i64>(rounds[1].bytes) - rounds[2].unloaded;
        require(kept == 0 || rounds[2].unknown, "C25", "leak", std::to_string(kept) + " more bytes are in use after a life than before");
        count("probe.lives", 3);
    }
}
