// Scenarios "steps": a training against its examples learned one by one; "chance": what is drawn at random.
#include "unit.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <snn/neural_network/optimizer/Dropout.hpp>

namespace sim
{
    namespace
    {
        using snn::internal::BaseLayer;
        using snn::internal::Dropout;
        using snn::internal::LayerOptimizer;

        std::vector<std::unique_ptr<LayerOptimizer>>* optimizersOf(BaseLayer* l)
        {
            if (auto* a = dynamic_cast<snn::internal::Layer<snn::internal::SimpleNeuron>*>(l)) return &a->optimizers;
            if (auto* b = dynamic_cast<snn::internal::Layer<snn::internal::RecurrentNeuron>*>(l)) return &b->optimizers;
            if (auto* c = dynamic_cast<snn::internal::Layer<snn::internal::GatedRecurrentUnit>*>(l)) return &c->optimizers;
            return nullptr;
        }

        std::string tokenOf(const Line& net, size_t layer)
        {
            for (auto& t : net.args)
                if (t.rfind("in:", 0) != 0 && t.rfind("lr:", 0) != 0 && t.rfind("mom:", 0) != 0 && layer-- == 0)
                    return t;
            return "";
        }

        float dropoutOf(const Line& net, size_t layer) // as it is declared
        {
            const auto t = tokenOf(net, layer);
            const auto at = t.find(":drop");
            return at == std::string::npos ? 0.0f : strtof(t.c_str() + at + 5, nullptr);
        }

        // ------------------------------------------------------------------ C27
        struct Twin;

        // drops what the dropout of the first network dropped
        class Mask final : public LayerOptimizer
        {
        public:
            Twin* twin;
            size_t at;
            float p;
            bool relu; // learns nothing where its output is 0
            std::vector<char> mask, known;

            Mask(Twin* twin, size_t at, float p, bool relu, const BaseLayer* layer) : LayerOptimizer(layer), twin(twin), at(at), p(p), relu(relu) {}
            std::unique_ptr<LayerOptimizer> clone(const BaseLayer* l) const override { return std::make_unique<Mask>(twin, at, p, relu, l); }
            void applyAfterOutputForTraining(Vec& outputs, bool reset) override;
            void applyAfterOutputForTesting(Vec& outputs) override
            {
                const float keep = 1.0f - p;
                for (auto& o : outputs)
                    o *= keep;
            }
            void applyBeforeBackpropagation(Vec& errors) override
            {
                for (size_t i = 0; i < errors.size() && i < mask.size(); ++i)
                    errors[i] *= static_cast<float>(mask[i]);
            }
            std::string summary() const override { return ""; }
        };

        struct Twin
        {
            Net* net = nullptr;
            const Event* event = nullptr;
            i64 number = 0;
            std::string bad;
            bool ambiguous = false;
            std::vector<Mask*> masks;
        };

        void Mask::applyAfterOutputForTraining(Vec& outputs, bool reset)
        {
            const Vec& target = twin->event->layers.at(at);
            if (mask.size() != outputs.size())
            {
                mask.assign(outputs.size(), 1);
                known.assign(outputs.size(), 0);
            }
            if (reset)
                known.assign(outputs.size(), 0);
            for (size_t i = 0; i < outputs.size() && i < target.size(); ++i)
            {
                if (outputs[i] == 0)
                {
                    twin->ambiguous |= !relu; // whether it is dropped cannot be seen
                    continue;
                }
                const char m = target[i] != 0;
                if (known[i] && mask[i] != m && twin->bad.empty())
                    twin->bad = "output " + std::to_string(i) + " of layer " + std::to_string(at) + " is " + (m ? "not dropped" : "dropped") + " in the middle of a sequence";
                mask[i] = m;
                known[i] = 1;
            }
            for (size_t i = 0; i < outputs.size(); ++i)
                outputs[i] *= static_cast<float>(mask[i]);
        }

        void makeTwin(Unit& u, Twin& t)
        {
            t.net = new Net(*u.net);
            for (size_t l = 0; l < t.net->layers.size(); ++l)
            {
                if (auto* s = dynamic_cast<Spy*>(t.net->layers[l].get()))
                {
                    auto inner = std::move(s->inner);
                    t.net->layers[l] = std::move(inner);
                }
                if (auto* os = optimizersOf(t.net->layers[l].get()))
                    for (auto& o : *os)
                        if (dynamic_cast<Dropout*>(o.get()))
                        {
                            auto m = std::make_unique<Mask>(&t, l, dropoutOf(u.netLine, l), tokenOf(u.netLine, l).rfind("fc:", 0) == 0 && tokenOf(u.netLine, l).find(":relu") != std::string::npos, t.net->layers[l].get());
                            t.masks.push_back(m.get());
                            o = std::move(m);
                        }
            }
        }

        // an expected output for which the error of the output is that one
        float desiredFor(float out, float error)
        {
            const float d = out + error / 2;
            float up = d, down = d;
            for (int i = 0; i < 40; ++i)
            {
                volatile float a = up - out, b = down - out;
                if (2 * a == error)
                    return up;
                if (2 * b == error)
                    return down;
                up = std::nextafterf(up, INFINITY);
                down = std::nextafterf(down, -INFINITY);
            }
            return NAN;
        }

        // the twin is given one by one what the network was presented with
        void replay(Unit& u, Twin& t, bool skipEvaluations, const std::string& after)
        {
            Quiet q;
            i64 n = 0;
            for (auto& e : u.rec.events)
            {
                t.event = &e;
                ++n;
                if (e.nan)
                    return;
                if (!e.train)
                {
                    if (skipEvaluations)
                        continue;
                    const auto o = t.net->computeOutput(e.in, e.reset);
                    require(same(o, e.out), "C27", "inference", "presentation " + std::to_string(n) + " of " + after + ", an inference, gave " + show(e.out) + ", and " + show(o) + " to a network that learned the same examples one by one");
                    continue;
                }
                require(t.masks.empty() || std::find(u.ds->trainX.begin(), u.ds->trainX.end(), e.in) != u.ds->trainX.end() || std::find(u.ds->testX.begin(), u.ds->testX.end(), e.in) == u.ds->testX.end(), "C27", "evaluation",
                        "presentation " + std::to_string(n) + " of " + after + " is that of a test example, as in a training: outputs can be dropped");
                if (e.learned)
                {
                    Vec desired = e.out;
                    for (size_t i = 0; i < desired.size() && i < e.errors.size(); ++i)
                        desired[i] = desiredFor(e.out[i], e.errors[i]);
                    for (float d : desired)
                        if (std::isnan(d))
                        {
                            count("probe.inexact");
                            t.ambiguous = true;
                            return;
                        }
                    t.net->trainOnce(e.in, desired, e.reset);
                    count("probe.steps");
                }
                else
                {
                    Vec o = e.in;
                    for (auto& l : t.net->layers)
                        o = l->outputForTraining(o, e.reset);
                    require(same(o, e.out), "C27", "presentation", "presentation " + std::to_string(n) + " of " + after + " gave " + show(e.out) + ", and " + show(o) + " to a network that learned the same examples one by one");
                }
                if (t.ambiguous)
                {
                    count("probe.ambiguous");
                    return;
                }
                require(t.bad.empty(), "C27", "mask", t.bad + ", in presentation " + std::to_string(n) + " of " + after);
            }
            t.event = nullptr;
        }

        void compare(Unit& u, Twin& t, const std::string& after)
        {
            const auto a = weightsOf(*u.net), b = weightsOf(*t.net);
            size_t i = 0;
            while (i < a.size() && i < b.size() && (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
                ++i;
            require(a.size() == b.size() && i == a.size(), "C27", "weights", "after " + after + ", weight " + std::to_string(i) + " is " + (i < a.size() ? floatText(a[i]) : "missing")
                    + ", and " + (i < b.size() ? floatText(b[i]) : "missing") + " in a network that learned the same examples one by one");
            require(u.net->getNumberOfTraining() == t.net->getNumberOfTraining(), "C27", "number", "after " + after + ", the network says that it learned " + std::to_string(u.net->getNumberOfTraining())
                    + " examples, and learned " + std::to_string(t.net->getNumberOfTraining()));
            count("probe.compared");
        }
    }

    void scenarioSteps(const Plan& plan, int)
    {
        Quiet q;
        auto* u = new Unit;
        Twin t;
        u->netLine = plan.all("net").at(0);
        u->dataLine = plan.all("data").at(0);
        u->dataSeed = static_cast<u64>(plan.num("seed"));
        u->spied = u->everyLayer = true;
        u->rec.keepLayers = true;
        u->rec.trainCost = plan.num("traincost");
        u->rec.evalCost = plan.num("evalcost");
        together({{500, [&]
        {
            Quiet q2;
            u->build();
            makeTwin(*u, t);
            i64 k = 0;
            for (auto& l : plan.all("op"))
            {
                u->rec.events.clear();
                const std::string after = "operation " + std::to_string(++k) + " (" + l.str(0) + ")";
                u->runAll({l});
                if (!u->net)
                    break;
                if (l.str(0) == "lr")
                    setLearningRate(*t.net, static_cast<float>(l.num(1)) / 1000, static_cast<float>(l.num(2)) / 1000);
                const bool usable = u->usable();
                replay(*u, t, plan.num("skip") != 0, after);
                if (!usable || t.ambiguous)
                    break;
                compare(*u, t, after);
            }
        }}}, true);
        require(u->problem.empty(), "C27", "threw", u->problem);
        u->destroy();
    }

    // ------------------------------------------------------------------ C28
    namespace
    {
        struct Life // what was drawn for one network
        {
            Unit* u = nullptr;
            Vec weights;
            std::vector<std::vector<Vec>> neurons; // their weights, in each layer
            std::vector<std::vector<int>> orders;             // of the examples, in each epoch
            std::map<std::vector<int>, std::vector<std::vector<int>>> windows; // the same of the windows of a time series, for each set of windows
            std::vector<int> latest;                          // numbers of the windows of the latest epoch
            double sameAgain = 0, mean = 0, variance = 0;     // epochs with the windows in the order of the epoch before; what chance gives
            std::map<size_t, std::vector<std::string>> masks; // of each layer, at each start of a sequence
        };

        double lnFactorial(size_t n)
        {
            double s = 0;
            for (size_t i = 2; i <= n; ++i)
                s += std::log(static_cast<double>(i));
            return s;
        }

        void keep(Life& life, const std::vector<int>& order, const std::vector<bool>& starts)
        {
            auto& ds = *life.u->ds;
            if (ds.nature == snn::nature::nonTemporal)
                life.orders.push_back(order);
            if (ds.nature != snn::nature::timeSeries)
                return;
            std::vector<int> windows; // complete ones only: what remains at both ends is not shuffled
            for (size_t i = 0; i < order.size(); ++i)
            {
                size_t end = i + 1;
                while (end < order.size() && !starts[end])
                    ++end;
                if (starts[i] && end - i > static_cast<size_t>(ds.recurrences))
                    windows.push_back(order[i]);
            }
            auto sorted = windows;
            std::ranges::sort(sorted);
            for (auto& w : windows)
                w = static_cast<int>(std::ranges::find(sorted, w) - sorted.begin());
            life.windows[sorted].push_back(windows);
            // the ranks are the numbers of the windows, but for the last one, which can be missing
            const auto common = [&](std::vector<int> v)
            {
                std::erase_if(v, [&](int w) { return w >= static_cast<int>(std::min(windows.size(), life.latest.size())); });
                return v;
            };
            if (life.latest.size() > 0)
            {
                const double p = std::exp(-lnFactorial(common(windows).size()));
                life.sameAgain += common(windows) == common(life.latest);
                life.mean += p;
                life.variance += p * (1 - p);
            }
            life.latest = windows;
        }

        void observe(Life& life)
        {
            auto& u = *life.u;
            const int n = u.ds->trainSize();
            std::vector<int> order;
            std::vector<bool> starts;
            for (auto& e : u.rec.events)
            {
                if (!e.train)
                    continue;
                for (int i = 0; i < n; ++i)
                    if (e.in == u.ds->trainX[static_cast<size_t>(i)])
                    {
                        order.push_back(i);
                        starts.push_back(e.reset);
                        break;
                    }
                if (static_cast<int>(order.size()) == n)
                {
                    keep(life, order, starts);
                    order.clear();
                    starts.clear();
                }
                if (e.reset)
                    for (size_t l = 0; l < e.layers.size(); ++l)
                        if (dropoutOf(u.netLine, l) > 0)
                        {
                            std::string m;
                            for (float f : e.layers[l])
                                m += f == 0 ? '0' : '1';
                            life.masks[l].push_back(m);
                        }
            }
            u.rec.events.clear();
        }

        void draw(Life& life, i64 times) // orders without a training
        {
            Quiet q;
            auto& ds = *life.u->ds;
            if (ds.nature == snn::nature::sequential)
                return;
            std::map<Vec, int> number;
            for (int i = 0; i < ds.trainSize(); ++i)
                number[ds.trainX[static_cast<size_t>(i)]] = i;
            for (i64 k = 0; k < times; ++k)
            {
                ds.data->shuffle();
                std::vector<int> order;
                std::vector<bool> starts;
                for (int i = 0; i < ds.trainSize(); ++i)
                {
                    order.push_back(number.at(ds.data->getTrainingData(i)));
                    starts.push_back(ds.data->isFirstTrainingDataOfTemporalSequence(i));
                }
                keep(life, order, starts);
            }
        }

        // |sum - n p| is beyond what chance gives once in 1e15 times or more
        bool unlikely(double sum, double n, double p)
        {
            if (n <= 0)
                return false;
            const double v = n * p * (1 - p), d = std::abs(sum - n * p);
            return d * d / (2 * (v + d / 3)) > 36; // Bernstein's inequality, for both sides: 2 exp(-36)
        }

        void judge(const std::vector<std::vector<int>>& orders, size_t n, const std::string& who, const std::string& noun)
        {
            if (n == 0)
                return;
            // each is as often at every place
            const double s = static_cast<double>(orders.size());
            std::vector<double> at(n * n), next(n * n);
            for (auto& o : orders)
                for (size_t i = 0; i < n; ++i)
                {
                    ++at[static_cast<size_t>(o[i]) * n + i];
                    if (i > 0)
                        ++next[static_cast<size_t>(o[i - 1]) * n + static_cast<size_t>(o[i])];
                }
            for (size_t i = 0; i < n * n; ++i)
                require(!unlikely(at[i], s, 1.0 / static_cast<double>(n)), "C28", "order", "of " + std::to_string(orders.size()) + " epochs of " + who + ", " + noun + " " + std::to_string(i / n) + " of " + std::to_string(n)
                        + " is number " + std::to_string(i % n) + " in " + std::to_string(static_cast<int>(at[i])));
            for (size_t i = 0; i < n * n; ++i)
                if (i / n != i % n)
                    require(!unlikely(next[i], s, 1.0 / static_cast<double>(n)), "C28", "order", "in " + std::to_string(static_cast<int>(next[i])) + " of " + std::to_string(orders.size()) + " epochs of " + who
                            + ", " + noun + " " + std::to_string(i % n) + " of " + std::to_string(n) + " follows " + noun + " " + std::to_string(i / n));
            for (size_t d : {1, 2}) // an order does not depend on a previous one
            {
                double kept = 0;
                for (size_t e = d; e < orders.size(); ++e)
                    for (size_t i = 0; i < n; ++i)
                        kept += orders[e][i] == orders[e - d][i];
                // the number of fixed points of a permutation has mean and variance 1
                const double m = s - static_cast<double>(d), dev = std::abs(kept - m);
                require(m <= 0 || dev * dev / (2 * (m + dev * static_cast<double>(n) / 3)) <= 36, "C28", "order", std::to_string(static_cast<int>(kept)) + " " + noun + "s are at the same place as "
                        + std::to_string(d) + " epochs before, in " + std::to_string(orders.size()) + " epochs of " + who);
            }
            // what follows what, whether an even number of exchanges leads there, and with few examples which order it is, as such and compared with the orders before
            for (size_t d : {0, 1, 2})
            {
                if (orders.size() <= d || n < 2)
                    continue;
                const double m = s - static_cast<double>(d), each = static_cast<double>(n - 1) / static_cast<double>(n);
                double follow = 0, even = 0;
                std::map<size_t, double> which;
                std::vector<size_t> was(n), r(n);
                for (size_t e = d; e < orders.size(); ++e)
                {
                    for (size_t i = 0; i < n; ++i)
                        was[d ? static_cast<size_t>(orders[e - d][i]) : i] = i;
                    for (size_t i = 0; i < n; ++i)
                        r[i] = was[static_cast<size_t>(orders[e][i])];
                    size_t inversions = 0, rank = 0;
                    for (size_t i = 0; i < n; ++i)
                    {
                        size_t less = 0;
                        for (size_t j = i + 1; j < n; ++j)
                            less += r[j] < r[i];
                        inversions += less;
                        rank = n <= 5 ? rank * (n - i) + less : 0;
                        follow += i > 0 && r[i] == r[i - 1] + 1;
                    }
                    even += inversions % 2 == 0;
                    if (n <= 5)
                        ++which[rank];
                }
                const std::string where = " in " + std::to_string(orders.size()) + " epochs of " + who + (d ? ", compared with " + std::to_string(d) + " epochs before" : "");
                const double dev = std::abs(follow - m * each), v = static_cast<double>(n - 2) / static_cast<double>(n) + each - each * each; // of the successions kept by a permutation
                require(dev * dev <= 72 * (m * v + dev * static_cast<double>(n) / 3), "C28", "order", std::to_string(static_cast<int>(follow)) + " " + noun + "s follow the one they followed" + where);
                require(!unlikely(even, m, 0.5), "C28", "order", std::to_string(static_cast<int>(even)) + " orders are even" + where);
                for (size_t k = 0, all = n <= 5 ? static_cast<size_t>(std::lround(std::exp(lnFactorial(n)))) : 0; k < all; ++k)
                    require(!unlikely(which[k], m, 1.0 / static_cast<double>(all)), "C28", "order", "the order number " + std::to_string(k) + " of " + std::to_string(all) + " occurs " + std::to_string(static_cast<int>(which[k])) + " times" + where);
            }
            count("probe.orders", orders.size());
        }

        void judge(Life& life, const std::string& who)
        {
            const auto n = static_cast<size_t>(life.u->ds->trainSize());
            std::set<float> different(life.weights.begin(), life.weights.end());
            for (auto& layer : life.neurons)
                for (size_t i = 1; i < layer.size(); ++i)
                    for (size_t j = 0; j < i; ++j)
                        require(layer[i].size() < 2 || layer[i] != layer[j], "C28", "weights", "two neurons of a layer of " + who + " have the same initial weights, " + show(layer[i]));
            // a float in a range has about 2^24 values or more: m pairs of equal weights in about w * w / 2^25
            const double w = static_cast<double>(life.weights.size()), equal = w - static_cast<double>(different.size());
            require(equal <= 4 + w * w / (1 << 22), "C28", "weights", std::to_string(static_cast<int>(equal)) + " of the " + std::to_string(life.weights.size()) + " initial weights of " + who + " are those of others: " + show(life.weights));
            if (!life.orders.empty())
                judge(life.orders, n, who, "example");
            for (auto& [which, orders] : life.windows)
                judge(orders, which.size(), who, "window");
            const double away = std::abs(life.sameAgain - life.mean);
            require(away * away <= 72 * (life.variance + away / 3), "C28", "order", "in " + std::to_string(static_cast<int>(life.sameAgain)) + " epochs of " + who
                    + " the windows of the time series are in the order of the epoch before, instead of about " + floatText(static_cast<float>(life.mean)));
            for (auto& [l, masks] : life.masks)
            {
                const double p = static_cast<double>(dropoutOf(life.u->netLine, l));
                const size_t width = masks.at(0).size();
                const std::string where = " of layer " + std::to_string(l) + " of " + who;
                double all = 0, total = 0;
                for (size_t i = 0; i < width; ++i)
                {
                    double dropped = 0, repeated = 0, together = 0;
                    for (size_t k = 0; k < masks.size(); ++k)
                    {
                        dropped += masks[k][i] == '0';
                        if (k > 0 && k % 2 == 1) // independent pairs
                            repeated += masks[k][i] != masks[k - 1][i];
                        together += masks[k][i] == masks[k][(i + 1) % width];
                    }
                    const double m = static_cast<double>(masks.size());
                    all += dropped;
                    total += m;
                    require(!unlikely(dropped, m, p), "C28", "dropout", "output " + std::to_string(i) + where + " is dropped " + std::to_string(static_cast<int>(dropped)) + " times of " + std::to_string(masks.size())
                            + " with a probability of " + std::to_string(p));
                    require(!unlikely(repeated, std::floor(m / 2), 2 * p * (1 - p)), "C28", "dropout", "output " + std::to_string(i) + where + " is dropped in one of two successive sequences " + std::to_string(static_cast<int>(repeated))
                            + " times of " + std::to_string(masks.size() / 2) + " with a probability of " + std::to_string(p));
                    if (width > 1)
                        require(!unlikely(together, m, p * p + (1 - p) * (1 - p)), "C28", "dropout", "outputs " + std::to_string(i) + " and " + std::to_string((i + 1) % width) + where + " are the same "
                                + std::to_string(static_cast<int>(together)) + " times of " + std::to_string(masks.size()) + " with a probability of " + std::to_string(p));
                }
                require(!unlikely(all, total, p), "C28", "dropout", std::to_string(static_cast<int>(all)) + " outputs of " + std::to_string(static_cast<int>(total)) + where + " are dropped with a probability of " + std::to_string(p));
                count("probe.masks", masks.size());
            }
        }

        void judge(Life& a, Life& b, const std::string& who)
        {
            require(a.weights.size() < 3 || a.weights != b.weights, "C28", "weights", who + " have the same initial weights");
            const size_t n = static_cast<size_t>(a.u->ds->trainSize()), e = std::min(a.orders.size(), b.orders.size());
            if (a.u->ds->nature == snn::nature::nonTemporal && b.u->ds->nature == snn::nature::nonTemporal && n == static_cast<size_t>(b.u->ds->trainSize()) && static_cast<double>(e) * lnFactorial(n) > 36)
            {
                double equal = 0;
                for (size_t i = 0; i < e; ++i)
                    equal += a.orders[i] == b.orders[i];
                require(!unlikely(equal, static_cast<double>(e), std::exp(-lnFactorial(n))), "C28", "order", who + " are presented with their examples in the same order in " + std::to_string(static_cast<int>(equal)) + " epochs of " + std::to_string(e));
            }
            for (auto& [l, masks] : a.masks)
            {
                const auto other = b.masks.find(l);
                if (other == b.masks.end())
                    continue;
                const double p = static_cast<double>(dropoutOf(a.u->netLine, l)), p2 = static_cast<double>(dropoutOf(b.u->netLine, l));
                double equal = 0, total = 0;
                for (size_t k = 0; k < masks.size() && k < other->second.size(); ++k)
                    for (size_t i = 0; i < masks[k].size() && i < other->second[k].size(); ++i, ++total)
                        equal += masks[k][i] == other->second[k][i];
                require(!unlikely(equal, total, p * p2 + (1 - p) * (1 - p2)), "C28", "dropout", who + " drop the same outputs of layer " + std::to_string(l) + ": " + std::to_string(static_cast<int>(equal)) + " of " + std::to_string(static_cast<int>(total)));
            }
        }
    }

    void scenarioChance(const Plan& plan, int)
    {
        Quiet q;
        const auto nets = plan.all("net"), datas = plan.all("data");
        const size_t lanes = nets.size();
        std::vector<Life> lives(lanes);
        std::vector<std::pair<u64, std::function<void()>>> fs;
        for (size_t k = 0; k < lanes; ++k)
        {
            auto* u = lives[k].u = new Unit;
            u->netLine = nets[k];
            u->dataLine = datas.at(std::min(k, datas.size() - 1));
            u->dataSeed = static_cast<u64>(plan.num("seed")) + k;
            u->file = "lane" + std::to_string(k) + ".snn";
            u->spied = u->everyLayer = true;
            u->rec.keepLayers = true;
        }
        const auto build = [&](size_t k)
        {
            Quiet q2;
            lives[k].u->build();
            lives[k].weights = weightsOf(*lives[k].u->net);
            for (auto& layer : lives[k].u->net->layers)
            {
                auto& all = lives[k].neurons.emplace_back();
                const auto* l = unwrap(layer.get());
                const auto add = [&](const auto& neurons)
                {
                    for (auto& n : neurons)
                        all.push_back(n.getWeights());
                };
                if (const auto* a = dynamic_cast<const snn::internal::Layer<snn::internal::SimpleNeuron>*>(l)) add(a->neurons);
                else if (const auto* b = dynamic_cast<const snn::internal::Layer<snn::internal::RecurrentNeuron>*>(l)) add(b->neurons);
                else if (const auto* c = dynamic_cast<const snn::internal::Layer<snn::internal::GatedRecurrentUnit>*>(l)) add(c->neurons);
            }
        };
        const auto live = [&](size_t k)
        {
            Quiet q2;
            for (auto& l : plan.all("op"))
            {
                if (l.str(0) == "draw")
                {
                    draw(lives[k], l.num(1));
                    continue;
                }
                lives[k].u->runAll({l});
                observe(lives[k]);
            }
        };
        if (plan.num("onethread"))
            fs.emplace_back(400, [&]
            {
                for (size_t k = 0; k < lanes; ++k)
                    build(k);
                for (size_t k = 0; k < lanes; ++k)
                    live(k);
            });
        else
            for (size_t k = 0; k < lanes; ++k)
                fs.emplace_back(400 + k, [&, k]
                {
                    build(k);
                    live(k);
                });
        together(fs, plan.num("parallel") != 0);
        for (size_t k = 0; k < lanes; ++k)
        {
            require(lives[k].u->problem.empty(), "C28", "threw", lives[k].u->problem);
            judge(lives[k], "network " + std::to_string(k));
            for (size_t j = 0; j < k; ++j)
                judge(lives[j], lives[k], "networks " + std::to_string(j) + " and " + std::to_string(k));
        }
        if (const auto crowd = static_cast<size_t>(plan.num("crowd"))) // many threads that create the same network
        {
            std::vector<Vec> all(crowd);
            std::vector<std::pair<u64, std::function<void()>>> gs;
            for (size_t k = 0; k < crowd; ++k)
                gs.emplace_back(500 + k, [&, k]
                {
                    Quiet q2;
                    auto* net = makeNet(nets[0]);
                    all[k] = weightsOf(*net);
                    Loud loud;
                    dispose(net);
                });
            together(gs, plan.num("parallel") != 0);
            std::map<Vec, size_t> seen;
            for (size_t k = 0; k < crowd; ++k)
            {
                const auto [i, fresh] = seen.emplace(all[k], k);
                require(fresh, "C28", "weights", "the networks created in threads " + std::to_string(i->second) + " and " + std::to_string(k) + " of " + std::to_string(crowd) + " have the same initial weights, " + show(all[k]));
            }
            count("probe.crowd", crowd);
        }
        for (auto& l : lives)
            l.u->destroy();
    }
}
