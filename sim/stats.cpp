// Scenario "stats": the statistics, read at any instant by any thread, are those of the latest complete evaluation, computed
// again here from the outputs that left the last layer and from the labels that were given.
#include "unit.hpp"
#include <algorithm>

namespace sim
{
    namespace
    {
        enum { ACC, WEIGHTED, F1, MAE, RMSE, COUNT };
        const char* names[COUNT] = {"accuracy", "weighted accuracy", "F1 score", "mean absolute error", "root mean squared error"};

        struct Expected
        {
            double v[COUNT];
            bool sure[COUNT]; // not on the border of a decision
            std::string what;
        };

        bool close(float a, double b)
        {
            return std::isfinite(a) && std::fabs(static_cast<double>(a) - b) <= 1e-5 + 1e-3 * std::fabs(b);
        }

        bool exactSum(float a, float b)
        {
            const double s = static_cast<double>(a) + static_cast<double>(b);
            return static_cast<double>(static_cast<float>(s)) == s;
        }

        struct Watched // a network, the data it is evaluated with, and what its statistics may be now
        {
            Unit* u;
            std::vector<DataSet*> sets;
            std::vector<float> limits; // separator or precision of each
            std::vector<Expected> states;
            size_t low = 0, high = 0; // the current ones are between these two
            bool any = false;         // an evaluation was completed
            bool over = false;        // NaN: what follows is another property
            bool busy = false;        // an operation that the reader may observe is in progress
            bool reading = false;     // and the reader is looking at it
            bool inPass = false;
            std::vector<Vec> outputs; // of the evaluation in progress

            DataSet* ds() const { return u->ds; }

            bool judged(size_t t) const
            {
                const auto* d = ds();
                if (d->nature != snn::nature::sequential)
                    return true;
                return t + 1 == d->testX.size() || std::find(d->testSeq.begin(), d->testSeq.end(), static_cast<int>(t) + 1) != d->testSeq.end();
            }

            Expected expect() const
            {
                Expected e;
                std::fill(e.sure, e.sure + COUNT, true);
                const auto* d = ds();
                const float limit = limits[static_cast<size_t>(std::find(sets.begin(), sets.end(), d) - sets.begin())];
                const auto outs = static_cast<size_t>(d->outputs);
                std::vector<double> tp(outs), fp(outs), fn(outs);
                double error = 0, squared = 0;
                int n = 0, good = 0;
                const bool cls = d->problem == snn::problem::classification, reg = d->problem == snn::problem::regression;
                for (size_t t = 0; t < d->testX.size(); ++t)
                {
                    if (!judged(t))
                        continue;
                    ++n;
                    const auto &y = d->testY[t], &o = outputs[t];
                    bool ok = true;
                    size_t top = 0, label = 0;
                    for (size_t c = 0; c < outs; ++c)
                    {
                        const double diff = static_cast<double>(o[c]) - static_cast<double>(y[c]);
                        error += std::fabs(diff);
                        squared += diff * diff;
                        if (reg)
                        {
                            ok = ok && std::fabs(diff) <= static_cast<double>(limit);
                            // an error that is the precision is within it, where the sums are exact
                            const bool exact = std::fabs(diff) == static_cast<double>(limit) && exactSum(y[c], limit) && exactSum(y[c], -limit) && exactSum(o[c], -y[c]);
                            e.sure[ACC] = e.sure[ACC] && (exact || std::fabs(std::fabs(diff) - static_cast<double>(limit)) > 1e-5 * (1 + std::fabs(o[c])));
                            if (exact)
                                count("probe.limits");
                            continue;
                        }
                        const bool is = cls ? y[c] == 1.0f : y[c] > limit, said = o[c] > limit;
                        const bool border = o[c] != limit && std::fabs(o[c] - limit) < 1e-5f * (1 + std::fabs(o[c]));
                        if (o[c] == limit)
                            count("probe.limits");
                        if (border)
                            e.sure[WEIGHTED] = e.sure[F1] = false;
                        tp[c] += is && said;
                        fp[c] += !is && said;
                        fn[c] += is && !said;
                        if (cls)
                        {
                            label = is ? c : label;
                            top = o[c] > o[top] ? c : top;
                        }
                        else
                        {
                            ok = ok && is == said;
                            e.sure[ACC] = e.sure[ACC] && !border;
                        }
                    }
                    if (cls)
                    {
                        ok = top == label;
                        for (size_t c = 0; c < outs; ++c)
                            if (c != top && o[c] != o[top] && std::fabs(o[c] - o[top]) < 1e-5f * (1 + std::fabs(o[c])))
                                e.sure[ACC] = false;
                    }
                    good += ok;
                }
                e.v[ACC] = static_cast<double>(good) / n;
                e.v[MAE] = error / n;
                e.v[RMSE] = std::sqrt(squared / n);
                e.v[WEIGHTED] = e.v[F1] = 0;
                for (size_t c = 0; c < outs; ++c)
                    if (tp[c] > 0)
                    {
                        e.v[WEIGHTED] += tp[c] / (tp[c] + fn[c]) / static_cast<double>(outs);
                        e.v[F1] += 2 * tp[c] / (2 * tp[c] + fp[c] + fn[c]) / static_cast<double>(outs);
                    }
                if (reg)
                    e.sure[WEIGHTED] = e.sure[F1] = false; // without a meaning
                e.what = "evaluation " + std::to_string(states.size() + 1) + " (" + std::to_string(n) + " examples judged)";
                return e;
            }

            void settle()
            {
                low = high;
                inPass = false;
            }

            void begin(const Event& e)
            {
                if (over || u->rec.manual)
                    return;
                if (high > low || e.train)
                    settle();
                if (!e.train && !inPass)
                {
                    inPass = true;
                    outputs.clear();
                }
            }

            void end(const Event& e)
            {
                if (over || e.train)
                    return;
                bool finite = true;
                for (float f : e.out)
                    finite = finite && std::isfinite(f) && std::fabs(f) < 1e6f;
                if (!finite)
                {
                    over = true;
                    count("probe.diverged");
                    return;
                }
                outputs.push_back(e.out);
                if (outputs.size() == ds()->testX.size())
                {
                    states.push_back(expect());
                    high = states.size() - 1;
                    if (states.size() == 1)
                        low = 0;
                    any = true;
                    inPass = false;
                    count("probe.evaluations");
                }
            }

            float read(int k) const
            {
                Loud loud;
                switch (k)
                {
                case ACC: return u->net->getGlobalClusteringRate();
                case WEIGHTED: return u->net->getWeightedClusteringRate();
                case F1: return u->net->getF1Score();
                case MAE: return u->net->getMeanAbsoluteError();
                default: return u->net->getRootMeanSquaredError();
                }
            }

            bool fits(size_t s, int k, float v) const { return !states[s].sure[k] || close(v, states[s].v[k]); }

            // one of the values, read while anything may happen
            void observe(int k)
            {
                const bool first = states.size() <= 1; // before the first evaluation there is nothing
                const size_t from = low;
                const float v = read(k);
                if (over || first)
                    return;
                count("probe.read");
                for (size_t s = from; s <= high && s < states.size(); ++s)
                    if (fits(s, k, v))
                        return;
                violated("C22", "reader", std::string("the ") + names[k] + " read during an operation is " + floatText(v) + ", that of the latest complete evaluation, " + states[low].what + ", is "
                         + std::to_string(states[low].v[k]) + (high > low ? ", that of the one that is ending " + std::to_string(states[high].v[k]) : ""));
            }

            // nothing is in progress
            void check(const std::string& when, bool failed)
            {
                inPass = false;
                if (over || !any || !u->net)
                    return;
                float v[COUNT];
                for (int k = 0; k < COUNT; ++k)
                    v[k] = read(k);
                const auto all = [&](size_t s)
                {
                    for (int k = 0; k < COUNT; ++k)
                        if (!fits(s, k, v[k]))
                            return false;
                    return true;
                };
                if (failed) // perhaps in the last steps of an evaluation, before or after its results were kept
                {
                    if (high > low && all(low) && !all(high))
                        {
                        states.resize(low + 1);
                        high = low;
                    }
                    else if (states.size() == 1 && v[ACC] == -1.0f)
                    {
                        states.clear();
                        any = false;
                        return;
                    }
                }
                settle();
                count("probe.checked");
                for (int k = 0; k < COUNT; ++k)
                    if (!fits(high, k, v[k]))
                        violated("C22", "statistics", std::string("the ") + names[k] + " is " + floatText(v[k]) + " " + when + " and that of the outputs and labels of the latest complete evaluation, " + states[high].what + ", is "
                                 + std::to_string(states[high].v[k]));
            }
        };
    }

    void scenarioStats(const Plan& plan, int)
    {
        Quiet q;
        concerns = [](const std::string&) { return true; };
        const auto nets = plan.all("net"), datas = plan.all("data");
        const bool shared = plan.num("shared") != 0; // one Data, evaluated by several networks at the same time
        std::vector<Watched*> lanes;
        std::vector<DataSet*> common;
        const auto makeSets = [&]
        {
            std::vector<DataSet*> r;
            for (size_t k = 0; k < datas.size(); ++k)
                r.push_back(makeData(datas[k], static_cast<u64>(plan.num("seed")) + k));
            return r;
        };
        const auto limitOf = [](const DataSet& d)
        {
            return d.problem == snn::problem::regression ? d.data->getPrecision() : d.data->getSeparator();
        };
        for (size_t k = 0; k < nets.size(); ++k)
        {
            auto* w = new Watched;
            auto* u = w->u = new Unit;
            u->netLine = nets[k];
            u->dataLine = datas[0];
            u->file = "net" + std::to_string(k) + ".snn";
            u->spied = true;
            u->rec.keep = false;
            if (plan.has("outputs"))
            {
                const auto l = plan.all("outputs").at(0);
                u->rec.scale = strtof(l.str(0).c_str(), nullptr);
                u->rec.shift = strtof(l.str(1).c_str(), nullptr);
            }
            if (plan.has("steps")) // outputs of a few values only, errors that are multiples of half the precision
                u->rec.adjust = [w](Vec& out)
                {
                    if (w->over || w->u->rec.manual)
                        return;
                    const auto* d = w->ds();
                    const float limit = w->limits[static_cast<size_t>(std::find(w->sets.begin(), w->sets.end(), d) - w->sets.begin())];
                    const bool reg = d->problem == snn::problem::regression && w->outputs.size() < d->testY.size();
                    for (size_t c = 0; c < out.size(); ++c)
                    {
                        const float from = reg ? d->testY[w->outputs.size()][c] : limit, step = reg ? limit / 2 : 0.25f;
                        if (std::isfinite(out[c]) && std::fabs(out[c]) < 1e6f)
                            out[c] = from + std::round((out[c] - from) / step) * step;
                    }
                };
            if (shared && k)
                w->sets = lanes[0]->sets;
            else
                w->sets = makeSets();
            for (auto* d : w->sets)
                w->limits.push_back(limitOf(*d));
            u->hook = [w](const Event& e) { w->begin(e); };
            u->rec.onEnd = [w](const Event& e) { w->end(e); };
            lanes.push_back(w);
        }
        i64 running = static_cast<i64>(lanes.size());
        const auto live = [&](size_t k)
        {
            auto* w = lanes[k];
            auto* u = w->u;
            u->build();
            u->ds = w->sets[0];
            size_t at = 0;
            for (auto& l : plan.all(k == 0 ? "op" : "op" + std::to_string(k + 1)))
            {
                const auto op = l.str(0);
                if (op == "with") // that data from now on
                {
                    u->ds = w->sets[static_cast<size_t>(l.num(1)) % w->sets.size()];
                    continue;
                }
                if (op == "limit")
                {
                    const float v = strtof(l.str(1).c_str(), nullptr);
                    if (u->ds->problem == snn::problem::regression)
                        u->ds->data->setPrecision(v);
                    else
                        u->ds->data->setSeparator(v);
                    w->limits[static_cast<size_t>(std::find(w->sets.begin(), w->sets.end(), u->ds) - w->sets.begin())] = limitOf(*u->ds);
                    continue;
                }
                bool armed = false;
                for (auto& f : plan.all("oomnext"))
                    if (k == 0 && static_cast<size_t>(f.num(0)) == at)
                    {
                        armOom(f.num(1), f.num(2, 1));
                        armed = u->failing = true;
                    }
                ++at;
                const bool observable = op == "train" || op == "hold" || op == "evaluate";
                w->busy = observable;
                u->runAll({l});
                w->busy = false;
                bool failed = false;
                if (armed)
                {
                    failed = disarmOom();
                    u->failing = false;
                    if (failed)
                        count("probe.interrupted");
                }
                for (int i = 0; i < 100000 && w->reading; ++i) // a reader is between two instructions
                {
                    Loud loud;
                    pause();
                }
                if (op == "use")
                    continue;
                w->check("after " + op, failed);
                if (w->over)
                    break;
            }
            --running;
        };
        std::vector<std::pair<u64, std::function<void()>>> fs;
        for (size_t k = 0; k < lanes.size(); ++k)
            fs.emplace_back(500 + k, [&, k] { Quiet q2; live(k); });
        for (i64 r = 0; r < plan.num("readers"); ++r)
            fs.emplace_back(700 + r, [&, r]
            {
                Quiet q2;
                auto* w = lanes[static_cast<size_t>(r) % lanes.size()];
                for (int i = 0; running > 0; ++i)
                {
                    if (w->busy)
                    {
                        w->reading = true;
                        w->observe(i % COUNT);
                        w->reading = false;
                    }
                    if (i > 1000 || !w->busy)
                        consume(i > 200 ? 20000 : 0);
                    Loud loud;
                    pause();
                }
            });
        together(fs, true);
        for (auto* w : lanes)
            require(w->u->problem.empty(), "C22", "threw", w->u->problem);
    }
}
