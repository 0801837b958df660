// Scenario "refusals": a history with calls that are refused or fail, against the same history without them.
#include "unit.hpp"

namespace sim
{
    namespace
    {
        Vec2 resized(const Vec2& rows, int by)
        {
            Vec2 r = rows;
            for (auto& x : r)
                x.resize(static_cast<size_t>(std::max<i64>(0, static_cast<i64>(x.size()) + by)), 0.25f);
            return r;
        }

        std::string textOf(const Line& l)
        {
            std::string s;
            for (auto& a : l.args)
                s += a + " ";
            return s;
        }

        struct History
        {
            const Plan& plan;
            Unit& u;
            bool plain; // without the calls that are refused or fail
            std::vector<std::string> digests{};

            void in(u64 key, const std::function<void()>& f)
            {
                together({{key, [&]
                {
                    Quiet q;
                    f();
                }}}, true);
            }

            // everything that can be seen of the data
            std::string data()
            {
                Quiet q;
                std::string s;
                auto& d = *u.ds->data;
                s += std::to_string(d.sets[snn::training].size) + " " + std::to_string(d.sets[snn::testing].size) + "\n";
                for (int i = 0; i < d.sets[snn::training].size; ++i)
                    s += bits(d.getTrainingData(i)) + bits(d.getTrainingOutputs(i)) + std::to_string(d.isFirstTrainingDataOfTemporalSequence(i)) + std::to_string(d.needToLearnOnTrainingData(i)) + "\n";
                for (int i = 0; i < d.sets[snn::testing].size; ++i)
                    s += bits(d.getTestingData(i)) + (d.typeOfProblem == snn::problem::classification ? std::to_string(d.getTestingLabel(i)) : bits(d.getTestingOutputs(i))) + std::to_string(d.isFirstTestingDataOfTemporalSequence(i)) + std::to_string(d.needToEvaluateOnTestingData(i)) + "\n";
                return s;
            }

            void unchanged(const std::string& before, const std::string& dataBefore, const std::string& what, const std::string& err)
            {
                const auto after = observable(*u.net, true);
                size_t c = 0;
                while (c < before.size() && c < after.size() && before[c] == after[c])
                    ++c;
                c = c < 60 ? 0 : c - 60;
                require(after == before, "C30", "changed", what + " threw \"" + err + "\" and the network changed: \"" + after.substr(std::min(c, after.size()), 120) + "\" instead of \"" + before.substr(std::min(c, before.size()), 120) + "\"");
                require(data() == dataBefore, "C30", "data", what + " threw \"" + err + "\" and the data changed");
            }

            // ------------------------------------------------ calls that are always refused
            void refused(const std::string& what, const std::function<void()>& call)
            {
                const auto before = observable(*u.net, true), dataBefore = data();
                const auto files = listFiles();
                const auto err = thrown(call);
                require(!err.empty(), "C30", "accepted", what + " is not refused");
                unchanged(before, dataBefore, what, err);
                require(files == listFiles(), "C30", "files", what + " was refused and changed the files");
                count("probe.refused");
            }

            void wrong(const Line& l)
            {
                const std::string what = l.str(1);
                const int by = static_cast<int>(l.num(2, 1));
                auto& net = *u.net;
                const auto& ds = *u.ds;
                const auto &x = ds.trainX.at(0), &y = ds.trainY.at(0);
                Vec wx = resized({x}, by)[0], wy = resized({y}, by)[0];
                if (what == "output")
                    refused("computeOutput of an input of another size", [&] { (void)net.computeOutput(wx, l.num(3, 0) != 0); });
                else if (what == "cluster")
                    refused("computeCluster of an input of another size", [&] { (void)net.computeCluster(wx, l.num(3, 0) != 0); });
                else if (what == "input")
                    refused("trainOnce of an input of another size", [&] { net.trainOnce(wx, y, l.num(3, 0) != 0); });
                else if (what == "expected")
                    refused("trainOnce of an expected output of another size", [&] { net.trainOnce(x, wy, l.num(3, 0) != 0); });
                else if (what == "batch")
                {
                    const int B = by > 0 ? static_cast<int>(ds.trainX.size()) + by : by;
                    refused("train with a batch of " + std::to_string(B), [&] { net.train(*u.ds->data, snn::operator""_ep(1ull), B); });
                    refused("startTrainingAsync with a batch of " + std::to_string(B), [&] { net.startTrainingAsync(*u.ds->data, B); });
                }
                else if (what == "data")
                {
                    Data* d = nullptr;
                    const bool inputs = l.num(3, 0) != 0;
                    if (!thrown([&]
                    {
                        auto X = resized(ds.trainX, inputs ? by : 0), Y = resized(ds.trainY, inputs ? 0 : std::abs(by)), TX = resized(ds.testX, inputs ? by : 0), TY = resized(ds.testY, inputs ? 0 : std::abs(by));
                        d = make<Data>(snn::problem::regression, X, Y, TX, TY);
                    }).empty())
                        return;
                    refused("evaluate of data of another format", [&] { net.evaluate(*d); });
                    refused("train of data of another format", [&] { net.train(*d, snn::operator""_ep(1ull)); });
                    refused("startTrainingAsync of data of another format", [&] { net.startTrainingAsync(*d); });
                    Loud loud;
                    dispose(d);
                }
                else if (what == "load")
                {
                    writeFile("no.network", l.num(3, 0) != 0 ? "" : "22 serialization::archive 19 0 0 1");
                    refused("loadFrom of a file that holds no network", [&] { (void)Net::loadFrom("no.network"); });
                    refused("loadFrom of a file that does not exist", [&] { (void)Net::loadFrom("nowhere"); });
                }
                else if (what == "index")
                {
                    const int i = by < 0 ? by : static_cast<int>(ds.testX.size()) + by - 1;
                    refused("saveData2DAsBitmap with a wrong index", [&] { net.saveData2DAsBitmap("inputs", *u.ds->data, i); });
                    refused("saveFilterLayersAsBitmap with a wrong index", [&] { net.saveFilterLayersAsBitmap("filters", *u.ds->data, i); });
                }
                else
                    error("unknown refusal " + what);
            }

            // ------------------------------------------------ calls that fail
            void call(const std::string& what, std::string& result)
            {
                auto& net = *u.net;
                const auto& ds = *u.ds;
                u.rec.manual = what != "evaluate";
                u.rec.evalInPass = 0;
                if (what == "output")
                {
                    const auto o = net.computeOutput(ds.testX.at(0), true);
                    result = bits(o);
                }
                else if (what == "cluster")
                    result = std::to_string(net.computeCluster(ds.testX.back(), true));
                else if (what == "evaluate")
                    net.evaluate(*u.ds->data);
                else if (what == "copy")
                {
                    auto* c = make<Net>(net);
                    result = observable(*c, true);
                    Loud loud;
                    dispose(c);
                }
                else if (what == "save")
                    net.saveAs(u.file);
                else if (what == "saveelsewhere")
                    net.saveAs("elsewhere.snn");
                else if (what == "reload")
                {
                    if (!exists("kept.snn"))
                        return;
                    auto* c = &Net::loadFrom("kept.snn");
                    result = observable(*c, true);
                    Loud loud;
                    delete c;
                }
                else if (what == "maps")
                    net.saveFeatureMapsAsBitmap("maps");
                else if (what == "filters")
                    net.saveFilterLayersAsBitmap("filters", *u.ds->data, 0);
                else if (what == "unshuffle")
                    u.ds->data->unshuffle();
                else
                    error("unknown call " + what);
            }

            void failing(const Line& l, u64 key)
            {
                const std::string what = l.str(1), fault = l.str(2);
                std::string result;
                // an evaluation whose automatic save fails is done all the same
                if (plain || (what == "evaluate" && u.net->autoSaveWhenBetter))
                {
                    in(key, [&]
                    {
                        const auto err = thrown([&] { call(what, result); });
                        digests.push_back(what + " " + err + " " + result);
                    });
                    return;
                }
                const auto before = observable(*u.net, true), dataBefore = data();
                bool again = true, fired = false;
                in(key, [&]
                {
                    const u64 io = ioFired();
                    if (fault == "oom")
                        armOom(l.num(3, 1), l.num(4, 1));
                    else
                        armIo(true);
                    const auto err = thrown([&] { call(what, result); });
                    if (fault == "oom")
                        fired = disarmOom();
                    else
                    {
                        armIo(false);
                        fired = ioFired() > io;
                    }
                    again = !err.empty();
                    if (again)
                    {
                        if (fired)
                        {
                            count("probe.failed");
                            unchanged(before, dataBefore, what, err);
                            require(!u.net->isTraining(), "C30", "training", what + " failed and the network is in training");
                        }
                        else
                            again = false; // refused in any case, as the other history shows
                        if (!again)
                            result = "";
                    }
                    else if (fired)
                        count("probe.tolerated");
                    if (!again)
                        digests.push_back(what + " " + err + " " + result);
                });
                if (!again)
                    return;
                in(key, [&]
                {
                    result = "";
                    const auto err = thrown([&] { call(what, result); });
                    digests.push_back(what + " " + err + " " + result);
                });
            }

            // ------------------------------------------------ calls refused while it learns
            void during(const Line& l, u64 key)
            {
                const i64 n = l.num(4, 1);
                i64 seen = 0;
                u.hook = u.rec.onBegin = [&](const Event&)
                {
                    if (plain || ++seen != n)
                        return;
                    const auto was = observable(*u.net, true), dataWas = data();
                    in(key + 1, [&]
                    {
                        for (size_t k = 5; k < l.args.size(); ++k)
                        {
                            const std::string what = l.str(k);
                            const auto err = thrown([&]
                            {
                                auto& net = *u.net;
                                if (what == "evaluate") net.evaluate(*u.ds->data);
                                else if (what == "train") net.train(*u.ds->data, snn::operator""_ep(1ull));
                                else if (what == "copy") { Net copy(net); }
                                else if (what == "save") net.saveAs("other.snn");
                                else if (what == "maps") net.saveFeatureMapsAsBitmap("other");
                                else if (what == "filters") net.saveFilterLayersAsBitmap("other", *u.ds->data, 0);
                                else if (what == "output") (void)net.computeOutput(resized(u.ds->trainX, 1)[0]);
                                else if (what == "once") net.trainOnce(resized(u.ds->trainX, 1)[0], u.ds->trainY[0]);
                                else if (what == "expected") net.trainOnce(u.ds->trainX[0], resized(u.ds->trainY, 1)[0]);
                                else if (what == "batch") net.startTrainingAsync(*u.ds->data, -1);
                                else if (what == "load") (void)Net::loadFrom("nowhere");
                                else error("unknown call " + what);
                            });
                            require(!err.empty(), "C30", "accepted", what + " is not refused while it learns");
                            count("probe.refusedlearning");
                        }
                    });
                    unchanged(was, dataWas, "what is refused while it learns", "");
                };
                in(key, [&]
                {
                    Line t = l;
                    t.args[0] = "train";
                    t.args.resize(4);
                    u.run(t, 0);
                });
                u.hook = nullptr;
                u.rec.onBegin = nullptr;
            }

            void all()
            {
                in(500, [&] { u.build(); });
                if (!u.net)
                    return;
                u64 key = 600;
                for (auto& l : plan.all("op"))
                {
                    key += 10;
                    if (!u.usable())
                        break;
                    if (l.str(0) == "wrong")
                    {
                        if (!plain)
                            in(key, [&] { wrong(l); });
                    }
                    else if (l.str(0) == "failing")
                        failing(l, key);
                    else if (l.str(0) == "during")
                        during(l, key);
                    else
                        in(key, [&] { u.run(l, 0); });
                    if (l.str(0) == "save" && exists(u.file))
                        writeFile("kept.snn", readFile(u.file));
                    digests.push_back("after " + textOf(l) + ": " + observable(*u.net, true) + "\n" + data());
                    if (exists(u.file))
                        digests.push_back("the file " + std::to_string(std::hash<std::string>()(readFile(u.file))));
                    if (exists("elsewhere.snn"))
                        digests.push_back("the other file " + std::to_string(std::hash<std::string>()(readFile("elsewhere.snn"))));
                }
                in(590, [&]
                {
                    if (u.usable())
                        digests.push_back("outputs " + bits(u.use(3, true)));
                });
            }
        };

        std::string difference(const std::string& a, const std::string& b)
        {
            size_t c = 0;
            while (c < a.size() && c < b.size() && a[c] == b[c])
                ++c;
            const size_t from = c < 60 ? 0 : c - 60;
            return "\"" + a.substr(0, a.find(':')).substr(0, 60) + "\" \"..." + a.substr(std::min(from, a.size()), 120) + "...\" instead of \"..." + b.substr(std::min(from, b.size()), 120) + "...\"";
        }
    }

    void scenarioRefusals(const Plan& plan, int)
    {
        Quiet q;
        concerns = [](const std::string&) { return true; };
        std::vector<std::string> digests[2];
        std::string problems[2];
        bool usable[2];
        for (int k = 0; k < 2; ++k)
        {
            auto* u = new Unit;
            u->netLine = plan.all("net").at(0);
            u->dataLine = plan.all("data").at(0);
            u->dataSeed = static_cast<u64>(plan.num("seed"));
            u->file = "net.snn";
            u->spied = true;
            u->rec.keep = false;
            History h{plan, *u, k == 1};
            h.all();
            digests[k] = h.digests;
            problems[k] = u->problem;
            usable[k] = u->usable();
            u->destroy();
            for (auto& f : listFiles())
                unlink(f.c_str());
        }
        if (!usable[0] || !usable[1])
        {
            count("probe.diverged");
            return;
        }
        count("probe.compared");
        require(problems[0] == problems[1], "C30", "threw", "with calls that fail: \"" + problems[0] + "\", without: \"" + problems[1] + "\"");
        for (size_t i = 0; i < std::max(digests[0].size(), digests[1].size()); ++i)
        {
            const auto a = i < digests[0].size() ? digests[0][i] : "nothing", b = i < digests[1].size() ? digests[1][i] : "nothing";
            require(a == b, "C30", "trace", "a call that was refused or failed left a trace: " + difference(a, b));
        }
    }
}
