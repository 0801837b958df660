#include "unit.hpp"

namespace sim
{
    void setLearningRate(Net& net, float lr, float momentum)
    {
        if (auto* s = dynamic_cast<snn::internal::StochasticGradientDescent*>(net.optimizer.get()))
        {
            s->learningRate = lr;
            s->momentum = momentum;
        }
    }

    void Unit::freshData()
    {
        ds = makeData(dataLine, dataSeed);
        allData.push_back(ds);
        rec.testLabels = ds->testY;
        rec.classification = ds->problem == snn::problem::classification;
    }

    void Unit::attach()
    {
        rec.onBegin = hook;
        if (spied && net)
            spyOn(*net, rec, everyLayer);
    }

    void Unit::build(bool withNet)
    {
        freshData();
        if (withNet)
        {
            {
                Loud loud;
                net = makeNet(netLine);
            }
            net->autoSaveFilePath = file;
            loaded = false;
        }
        attach();
    }

    void Unit::destroy()
    {
        if (!net)
            return;
        Loud loud;
        if (loaded)
            delete net;
        else
            dispose(net);
        net = nullptr;
    }

    void Unit::replace(Net* n, bool byLibrary)
    {
        destroy();
        net = n;
        loaded = byLibrary;
        attach();
        if (onChange)
            onChange();
    }

    bool Unit::usable() const { return net && !net->hasNan(); }

    void Unit::record(const std::string& what) { digests.push_back(what + "\n" + observable(*net, true)); }

    std::string Unit::expectNoThrow(const std::string& what, const std::string& err)
    {
        if (!err.empty() && problem.empty() && !failing)
            problem = what + " threw " + err;
        return err;
    }

    Vec Unit::use(int k, bool reset, bool cluster)
    {
        Vec all;
        rec.manual = true;
        for (int i = 0; i < k; ++i)
        {
            const auto& x = ds->testX[static_cast<size_t>(i) % ds->testX.size()];
            wantReset = reset && i == 0;
            expectNoThrow("an inference", thrown([&]
            {
                if (cluster)
                    all.push_back(static_cast<float>(net->computeCluster(x, reset && i == 0)));
                else
                {
                    const auto o = net->computeOutput(x, reset && i == 0);
                    all.insert(all.end(), o.begin(), o.end());
                }
            }));
        }
        rec.manual = false;
        return all;
    }

    void Unit::runAll(const std::vector<Line>& lines, size_t at)
    {
        lane = self();
        for (auto& l : lines)
        {
            run(l, at);
            if (afterOp)
                afterOp(l.str(at));
            ++op;
        }
    }

    void Unit::run(const Line& l, size_t at)
    {
        std::string op = l.str(at);
        const auto num = [&](size_t i, i64 def = 0) { return l.num(at + i, def); };
        bool extra = false;
        if (op == "x") // extra
        {
            if (stripped)
                return;
            extra = true;
            ++at;
            op = l.str(at);
        }
        if (!net && op != "pause")
            return;
        if (op == "train")
        {
            const auto w = parseWait(l.str(at + 1));
            rec.evalInPass = 0;
            expectNoThrow(op, thrown([&] { net->train(*ds->data, w, static_cast<int>(num(2, 1)), stripped ? 0 : static_cast<int>(num(3, 1))); }));
        }
        else if (op == "hold") // an asynchronous training stopped during its n-th presentation
        {
            const i64 n = num(1, 1);
            const bool count = l.str(at + 4) != "all"; // of training examples only
            rec.evalInPass = 0;
            const i64 t0 = rec.trains, e0 = rec.evals;
            bool held = false;
            const int stopper = lane = self();
            rec.onBegin = [&](const Event& e)
            {
                if (hook)
                    hook(e);
                if (held || e.thread == stopper)
                    return;
                const i64 seen = rec.trains - t0 + (count ? 0 : rec.evals - e0);
                if (seen < n || (count && !e.train))
                    return;
                held = true;
                for (int i = 0; i < 20000 && !waiting(stopper); ++i)
                {
                    if (i > 50)
                        consume(1000000);
                    Loud loud;
                    pause();
                }
            };
            auto err = thrown([&] { net->startTrainingAsync(*ds->data, static_cast<int>(num(2, 1)), stripped ? 0 : static_cast<int>(num(3, 1))); });
            expectNoThrow("startTrainingAsync", err);
            if (err.empty())
            {
                for (int i = 0; i < 200000 && !held && net->isTraining(); ++i)
                {
                    if (i > 200)
                        consume(20000);
                    Loud loud;
                    pause();
                }
                expectNoThrow("stopTrainingAsync", thrown([&] { net->stopTrainingAsync(); }));
            }
            rec.onBegin = hook;
        }
        else if (op == "evaluate")
        {
            rec.evalInPass = 0;
            expectNoThrow(op, thrown([&] { net->evaluate(*ds->data); }));
        }
        else if (op == "evalshared")
        {
            rec.evalInPass = 0;
            expectNoThrow(op, thrown([&] { net->evaluate(*shared->data); }));
        }
        else if (op == "use" || op == "cluster")
        {
            const auto o = use(static_cast<int>(num(1, 1)), num(2, 1) != 0, op == "cluster");
            if (!extra)
                digests.push_back(op + " " + bits(o));
            return;
        }
        else if (op == "save")
            expectNoThrow("saveAs", thrown([&] { net->saveAs(file); }));
        else if (op == "reload")
        {
            Net* n = nullptr;
            if (!expectNoThrow("saveAs", thrown([&] { net->saveAs(file); })).empty())
                return;
            if (expectNoThrow("loadFrom", thrown([&] { n = &Net::loadFrom(file); })).empty())
                replace(n, true);
        }
        else if (op == "load")
        {
            Net* n = nullptr;
            if (expectNoThrow("loadFrom", thrown([&] { n = &Net::loadFrom(l.str(at + 1)); })).empty())
            {
                n->autoSaveFilePath = file; // that file is shared
                replace(n, true);
            }
        }
        else if (op == "copy")
        {
            Net* n = nullptr;
            if (expectNoThrow("the copy", thrown([&] { n = make<Net>(*net); })).empty())
            {
                if (extra)
                    dispose(n);
                else
                    replace(n, false);
            }
        }
        else if (op == "lr")
            setLearningRate(*net, static_cast<float>(num(1)) / 1000, static_cast<float>(num(2)) / 1000);
        else if (op == "autosave")
            net->autoSaveWhenBetter = num(1) != 0;
        else if (op == "between")
            net->setNumberOfTrainingsBetweenTwoEvaluations(static_cast<int>(num(1)));
        else if (op == "shuffle")
            expectNoThrow(op, thrown([&] { ds->data->shuffle(); }));
        else if (op == "unshuffle")
            expectNoThrow(op, thrown([&] { ds->data->unshuffle(); }));
        else if (op == "data")
            freshData();
        else if (op == "summary")
        {
            expectNoThrow(op, thrown([&]
            {
                (void)net->summary();
                (void)net->isTraining();
                (void)net->isValid();
            }));
        }
        else if (op == "again") // repeated without learning in between
        {
            if (!usable())
                return;
            rec.evalInPass = 0;
            expectNoThrow("evaluate", thrown([&] { net->evaluate(*ds->data); }));
            const auto a = statsOf(*net);
            const auto o = use(3, true);
            rec.evalInPass = 0;
            expectNoThrow("evaluate", thrown([&] { net->evaluate(*ds->data); }));
            const auto b = statsOf(*net);
            const auto p = use(3, true);
            if (problem.empty() && usable())
            {
                require(same(a, b), "C16", "repeat", "two evaluations without learning in between give " + show(a) + " and " + show(b));
                require(same(o, p), "C16", "repeat", "two inferences without learning in between give " + show(o) + " and " + show(p));
                sim::count("probe.again");
            }
        }
        else if (op == "once") // single examples
        {
            std::string said;
            for (i64 i = 0; i < num(1, 1); ++i)
                said += thrown([&]
                {
                    const auto k = static_cast<size_t>(i) % ds->trainX.size();
                    net->trainOnce(ds->trainX[k], ds->trainY[k], num(2, 0) == 1 || (num(2, 0) == 0 && i == 0)); // 2: in the middle of a sequence
                });
            expectNoThrow("trainOnce", said);
        }
        else if (op == "bitmaps") // refused by networks without what they show
        {
            rec.manual = true;
            std::string said = thrown([&] { net->saveFeatureMapsAsBitmap(file + ".maps"); });
            said += "; " + thrown([&] { net->saveFilterLayersAsBitmap(file + ".filters", *ds->data, 0); });
            said += "; " + thrown([&] { net->saveData2DAsBitmap(file + ".inputs", *ds->data, 0); });
            rec.manual = false;
            op += " " + said;
            if (usable())
                for (auto& f : listFiles())
                    if (f.rfind(file + ".", 0) == 0 && f.ends_with(".bmp"))
                    {
                        u64 h = 0;
                        for (char c : readFile(f))
                            h = mix(h, static_cast<unsigned char>(c));
                        op += "; " + f.substr(file.size()) + " " + std::to_string(h);
                    }
        }
        else if (op == "destroy")
        {
            destroy();
            return;
        }
        else if (op == "pause")
        {
            for (i64 i = 0; i < num(1, 1); ++i)
            {
                Loud loud;
                pause();
            }
            return;
        }
        else
            error("unknown operation " + op);
        if (!extra && net)
            record(op);
    }
}
