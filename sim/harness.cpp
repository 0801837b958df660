#include "harness.hpp"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <locale>
#include <sys/stat.h>
#include <boost/serialization/export.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/vector.hpp>

BOOST_CLASS_EXPORT(sim::Spy)

using namespace snn;
using snn::internal::BaseLayer;

namespace sim
{
    Plan thePlan;
    std::string theProperty;

    void violated(const std::string& property, const std::string& kind, const std::string& msg)
    {
        // a clause that several properties state: "C18/C03"
        if (("/" + property + "/").find("/" + theProperty + "/") != std::string::npos)
            fail(kind, msg);
        count("other." + property + "." + kind);
        log("(another property) " + property + " " + kind + ": " + msg);
    }

    // ------------------------------------------------------------------ recording layers
    Vec Spy::pass(const Vec& inputs, bool reset, bool train)
    {
        if (rec == nullptr)
        {
            auto o = train ? inner->outputForTraining(inputs, reset) : inner->output(inputs, reset);
            Quiet q;
            lastOut = o;
            return o;
        }
        if (front)
        {
            Quiet q;
            auto& e = rec->current;
            e = Event{};
            e.train = train;
            e.reset = reset;
            rec->atRecurrent = false;
            e.in = inputs;
            e.thread = self();
            e.step = steps();
            e.begin = now();
            e.session = rec->session;
            rec->open = true;
            const i64 number = rec->trains + rec->evals;
            if (!rec->manual)
                ++(train ? rec->trains : rec->evals);
            if (rec->onBegin)
                rec->onBegin(e);
            note(static_cast<u64>(train) * 2 + reset);
            for (float f : inputs)
            {
                u64 b = 0;
                memcpy(&b, &f, 4);
                note(b);
            }
            i64 cost = train ? rec->trainCost : rec->evalCost;
            for (auto& [n, c] : rec->slowEvents)
                if (n == number)
                {
                    cost += c;
                    count("fault.slowstep");
                }
            if (!rec->manual)
                consume(cost);
        }
        if (recurrent())
        {
            if (rec->atRecurrent && reset != rec->current.reset)
                rec->inconsistentReset = true;
            rec->atRecurrent = true;
            rec->current.reset = reset; // what the first layer that has a state is given counts
        }
        auto out = train ? inner->outputForTraining(inputs, reset) : inner->output(inputs, reset);
        {
            Quiet q;
            lastOut = out;
            if (rec->keepLayers)
                rec->current.layers.push_back(out);
        }
        if (back && rec->manual && rec->onManual)
        {
            Quiet q;
            rec->onManual(out);
        }
        if (back && !rec->manual)
        {
            Quiet q;
            if (!train)
            {
                const int n = rec->evalInPass;
                for (auto& f : out) // what networks whose outputs are not bounded may give
                    f = f * rec->scale + rec->shift;
                if (rec->adjust)
                    rec->adjust(out);
                if (!rec->script.empty() && n < static_cast<int>(rec->testLabels.size()))
                {
                    const auto& p = rec->script[std::min<size_t>(rec->passes, rec->script.size() - 1)];
                    const auto& label = rec->testLabels[n];
                    for (size_t i = 0; i < out.size(); ++i)
                        out[i] = label[i];
                    if (rec->classification)
                    {
                        if (n >= p.correct) // another class wins
                            for (size_t i = 0; i < out.size(); ++i)
                                out[i] = 1.0f - label[i];
                    }
                    else
                        out[0] = label[0] + (n < p.correct ? p.good : p.bad);
                }
                if (rec->passes == rec->nanPass && n == rec->nanEval)
                {
                    out[static_cast<size_t>(rec->nanEval + rec->nanPass + 1) % out.size()] = rec->nanValue;
                    count("fault.nan");
                }
                if (++rec->evalInPass >= static_cast<int>(rec->testLabels.size()))
                {
                    rec->evalInPass = 0;
                    ++rec->passes;
                }
            }
            else
            {
                rec->evalInPass = 0;
                if (rec->trains - 1 == rec->nanTrain)
                {
                    out[static_cast<size_t>(rec->nanTrain) % out.size()] = rec->nanValue;
                    count("fault.nan");
                }
            }
            finish(out);
        }
        else if (back && rec->keepLayers)
        {
            Quiet q;
            finish(out);
        }
        return out;
    }

    bool Spy::recurrent() const
    {
        return dynamic_cast<const snn::internal::Layer<snn::internal::RecurrentNeuron>*>(inner.get()) != nullptr || dynamic_cast<const snn::internal::Layer<snn::internal::GatedRecurrentUnit>*>(inner.get()) != nullptr;
    }

    void Spy::finish(const Vec& out)
    {
        auto& e = rec->current;
        e.out = out;
        for (float f : out)
            e.nan = e.nan || !std::isfinite(f);
        e.end = now();
        if (rec->keep)
            rec->events.push_back(e);
        if (rec->onEnd)
            rec->onEnd(e);
        consume(0);
    }

    void Spy::seeErrors(const Vec& errors)
    {
        if (rec == nullptr || !back)
            return;
        Quiet q;
        auto& e = rec->current;
        e.desired = e.errors = errors;
        for (size_t i = 0; i < e.desired.size() && i < e.out.size(); ++i)
            e.desired[i] = e.out[i] + errors[i] / 2;
        if (rec->keep && !rec->events.empty())
        {
            rec->events.back().desired = e.desired;
            rec->events.back().errors = errors;
        }
    }

    void Spy::learned()
    {
        if (rec == nullptr)
            return;
        Quiet q;
        rec->current.learned = true;
        if (rec->keep && !rec->events.empty())
            rec->events.back().learned = true;
    }

    void spyOn(Net& net, Recorder& rec, bool everyLayer)
    {
        Quiet q;
        const size_t n = net.layers.size();
        for (size_t i = 0; i < n; ++i)
        {
            if (auto* s = dynamic_cast<Spy*>(net.layers[i].get()))
                s->rec = &rec;
            else if (i == 0 || i + 1 == n || everyLayer)
            {
                auto s2 = std::make_unique<Spy>(std::move(net.layers[i]), i == 0, i + 1 == n, &rec);
                s2->lastOut.assign(static_cast<size_t>(s2->inner->getNumberOfNeurons()), 0.0f);
                net.layers[i] = std::move(s2);
            }
        }
    }

    const BaseLayer* unwrap(const BaseLayer* l)
    {
        if (const auto* s = dynamic_cast<const Spy*>(l))
            return s->inner.get();
        return l;
    }

    // ------------------------------------------------------------------ networks
    std::vector<std::string> split(const std::string& s, char c)
    {
        std::vector<std::string> r;
        std::string cur;
        for (char x : s)
            if (x == c)
            {
                r.push_back(cur);
                cur.clear();
            }
            else
                cur += x;
        r.push_back(cur);
        return r;
    }

    namespace
    {
        activation activationOf(const std::string& s)
        {
            if (s == "sigmoid") return activation::sigmoid;
            if (s == "isigmoid") return activation::iSigmoid;
            if (s == "tanh") return activation::tanh;
            if (s == "relu") return activation::ReLU;
            if (s == "gelu") return activation::GELU;
            if (s == "gaussian") return activation::gaussian;
            return activation::identity;
        }
    }

    std::vector<LayerModel> architecture(const std::vector<std::string>& tokens, float& lr, float& momentum)
    {
        std::vector<LayerModel> a;
        lr = 0.03f;
        momentum = 0.0f;
        for (auto& t : tokens)
        {
            const auto p = split(t, ':');
            std::vector<LayerOptimizerModel> opts;
            std::string act = "sigmoid";
            for (size_t i = 1; i < p.size(); ++i)
            {
                const auto& o = p[i];
                const auto value = [&](size_t k) { return strtof(o.c_str() + k, nullptr); };
                if (o.rfind("drop", 0) == 0) opts.push_back(Dropout(value(4)));
                else if (o.rfind("l1_", 0) == 0) opts.push_back(L1Regularization(value(3)));
                else if (o.rfind("l2_", 0) == 0) opts.push_back(L2Regularization(value(3)));
                else if (o.rfind("em", 0) == 0) opts.push_back(ErrorMultiplier(value(2)));
                else if (o == "softmax") opts.push_back(Softmax());
                else if (!o.empty() && isalpha(static_cast<unsigned char>(o[0]))) act = o;
            }
            const int n1 = p.size() > 1 ? atoi(p[1].c_str()) : 0;
            const int n2 = p.size() > 2 ? atoi(p[2].c_str()) : 0;
            LayerModel m;
            if (p[0] == "in")
            {
                m = Input(1);
                m.shapeOfInput.clear();
                for (size_t i = 1; i < p.size(); ++i)
                    m.shapeOfInput.push_back(atoi(p[i].c_str()));
            }
            else if (p[0] == "fc") m = FullyConnected(n1, activationOf(act));
            else if (p[0] == "rec") m = Recurrence(n1, activationOf(act == "sigmoid" ? "tanh" : act));
            else if (p[0] == "gru") m = GruLayer(n1);
            else if (p[0] == "lc") m = LocallyConnected(n1, n2, activationOf(act));
            else if (p[0] == "conv") m = Convolution(n1, n2, activationOf(act));
            else if (p[0] == "pool") m = MaxPooling(n1);
            else if (p[0] == "lr") { lr = strtof(p[1].c_str(), nullptr); continue; }
            else if (p[0] == "mom") { momentum = strtof(p[1].c_str(), nullptr); continue; }
            else error("unknown layer " + t);
            for (auto& o : opts)
                m.optimizers.push_back(o);
            a.push_back(m);
        }
        return a;
    }

    Net* makeNet(const std::vector<std::string>& tokens)
    {
        float lr, momentum;
        std::vector<LayerModel> a;
        {
            Quiet q;
            a = architecture(tokens, lr, momentum);
        }
        return make<Net>(a, NeuralNetworkOptimizerModel{neuralNetworkOptimizerType::stochasticGradientDescent, lr, momentum});
    }

    Net* makeNet(const Line& line) { return makeNet(line.args); }

    // ------------------------------------------------------------------ data
    // data NATURE PROBLEM inputs outputs ntrain ntest [key=value...]; onehot: example i has its i-th input at 1
    DataSet* makeData(const Line& l, u64 seed, int badLabel)
    {
        auto* d = new DataSet;
        {
            Quiet q;
            Rng r(mix(seed, static_cast<u64>(l.num(6, 0))));
            const auto nature = l.str(0), problem = l.str(1);
            d->nature = nature == "seq" ? nature::sequential : nature == "ts" ? nature::timeSeries : nature::nonTemporal;
            d->problem = problem == "cls" ? problem::classification : problem == "multi" ? problem::multipleClassification : problem::regression;
            d->inputs = static_cast<int>(l.num(2));
            d->outputs = static_cast<int>(l.num(3));
            const int n = static_cast<int>(l.num(4)), t = static_cast<int>(l.num(5));
            bool onehot = false, dyadic = false, pixels = false;
            std::vector<int> lens, tlens;
            for (auto& a : l.args)
            {
                if (a == "onehot") onehot = true;
                if (a == "same") d->sameSets = true;
                if (a == "dyadic") dyadic = true;
                if (a == "pixels") pixels = true;
                if (a.rfind("R=", 0) == 0) d->recurrences = atoi(a.c_str() + 2);
                if (a.rfind("lens=", 0) == 0)
                    for (auto& x : split(a.substr(5), ','))
                        lens.push_back(atoi(x.c_str()));
                if (a.rfind("tlens=", 0) == 0)
                    for (auto& x : split(a.substr(6), ','))
                        tlens.push_back(atoi(x.c_str()));
            }
            const auto fill = [&](Vec2& X, Vec2& Y, int count, float base)
            {
                for (int i = 0; i < count; ++i)
                {
                    Vec x(d->inputs), y(d->outputs);
                    for (auto& v : x)
                        v = r.real(-1.0f, 1.0f);
                    if (pixels)
                        for (auto& v : x)
                            v = r.chance(10) ? static_cast<float>(r.range(0, 1)) : r.real(0.0f, 1.0f);
                    else if (onehot)
                    {
                        std::fill(x.begin(), x.end(), 0.0f);
                        x[i % d->inputs] = base;
                    }
                    else
                        x[0] = base + static_cast<float>(i) / static_cast<float>(count); // identifies the example
                    if (d->problem == problem::classification)
                        y[r.below(static_cast<u64>(d->outputs))] = 1.0f;
                    else if (d->problem == problem::multipleClassification)
                        for (auto& v : y)
                            v = r.chance(50) ? 1.0f : 0.0f;
                    else
                        for (auto& v : y)
                            v = dyadic ? static_cast<float>(r.range(-8, 8)) / 16.0f : r.real(-0.9f, 0.9f);
                    X.push_back(x);
                    Y.push_back(y);
                }
            };
            if (d->nature == nature::sequential)
            {
                d->trainLengths = lens;
                d->testLengths = d->sameSets ? lens : tlens;
                int total = 0, ttotal = 0;
                for (int x : d->trainLengths)
                {
                    d->trainSeq.push_back(total);
                    total += x;
                }
                for (int x : d->testLengths)
                {
                    d->testSeq.push_back(ttotal);
                    ttotal += x;
                }
                fill(d->trainX, d->trainY, total, 1.0f);
                if (d->sameSets)
                {
                    d->testX = d->trainX;
                    d->testY = d->trainY;
                }
                else
                    fill(d->testX, d->testY, ttotal, 3.0f);
            }
            else
            {
                fill(d->trainX, d->trainY, n, 1.0f);
                if (d->sameSets)
                {
                    d->testX = d->trainX;
                    d->testY = d->trainY;
                }
                else
                    fill(d->testX, d->testY, t, 3.0f);
            }
        }
        if (badLabel >= 0 && badLabel < d->testSize())
            std::fill(d->testY[badLabel].begin(), d->testY[badLabel].end(), 0.0f);
        Vec2 a = d->trainX, b = d->trainY, c = d->testX, e = d->testY;
        if (d->nature == nature::sequential)
        {
            std::vector<Vec2> A, C;
            size_t k = 0;
            for (int x : d->trainLengths)
            {
                A.emplace_back(a.begin() + static_cast<long>(k), a.begin() + static_cast<long>(k) + x);
                k += static_cast<size_t>(x);
            }
            k = 0;
            for (int x : d->testLengths)
            {
                C.emplace_back(c.begin() + static_cast<long>(k), c.begin() + static_cast<long>(k) + x);
                k += static_cast<size_t>(x);
            }
            d->data = d->sameSets ? make<Data>(d->problem, A, b, d->nature) : make<Data>(d->problem, A, b, C, e, d->nature);
        }
        else if (d->sameSets)
            d->data = make<Data>(d->problem, a, b, d->nature, d->recurrences);
        else
            d->data = make<Data>(d->problem, a, b, c, e, d->nature, d->recurrences);
        return d;
    }

    // ------------------------------------------------------------------ waits
    Wait parseWait(const std::string& expr)
    {
        const auto one = [](const std::string& s)
        {
            char* end;
            const long double v = strtold(s.c_str(), &end);
            const std::string u = end;
            const auto n = static_cast<unsigned long long>(v);
            if (u == "ep") return operator""_ep(n);
            if (u == "acc") return operator""_acc(v);
            if (u == "mae") return operator""_mae(v);
            if (u == "ms") return operator""_ms(n);
            if (u == "s") return operator""_s(n);
            if (u == "min") return operator""_min(n);
            error("unknown criterion " + s);
        };
        // as C++ reads it: parentheses, && before ||, from left to right
        size_t i = 0;
        const std::function<Wait(int)> read = [&](int level) -> Wait
        {
            if (level == 2)
            {
                if (expr[i] == '(')
                {
                    ++i;
                    Wait w = read(0);
                    ++i;
                    return w;
                }
                size_t j = i;
                while (j < expr.size() && !strchr("|&()", expr[j]))
                    ++j;
                Wait w = one(expr.substr(i, j - i));
                i = j;
                return w;
            }
            Wait w = read(level + 1);
            while (i < expr.size() && expr[i] == "|&"[level])
            {
                i += 2;
                Wait x = read(level + 1);
                w = level == 0 ? (w || x) : (w && x);
            }
            return w;
        };
        return read(0);
    }

    // ------------------------------------------------------------------ observables
    Vec weightsOf(const Net& net)
    {
        Quiet q;
        Vec r;
        for (auto& layer : net.layers)
        {
            const auto* l = unwrap(layer.get());
            const auto add = [&](const auto& neurons)
            {
                for (auto& n : neurons)
                {
                    const auto w = n.getWeights();
                    r.insert(r.end(), w.begin(), w.end());
                }
            };
            if (const auto* a = dynamic_cast<const snn::internal::Layer<snn::internal::SimpleNeuron>*>(l)) add(a->neurons);
            else if (const auto* b = dynamic_cast<const snn::internal::Layer<snn::internal::RecurrentNeuron>*>(l)) add(b->neurons);
            else if (const auto* c = dynamic_cast<const snn::internal::Layer<snn::internal::GatedRecurrentUnit>*>(l)) add(c->neurons);
        }
        return r;
    }

    bool same(const Vec& a, const Vec& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (memcmp(&a[i], &b[i], 4) != 0 && !(std::isnan(a[i]) && std::isnan(b[i])) && !(a[i] == 0 && b[i] == 0))
                return false;
        return true;
    }

    Stats statsOf(const Net& n)
    {
        Quiet q;
        return {{n.getGlobalClusteringRate(), n.getWeightedClusteringRate(), n.getF1Score(), n.getMeanAbsoluteError(), n.getRootMeanSquaredError(),
                 n.getGlobalClusteringRateMax(), n.getWeightedClusteringRateMax(), n.getF1ScoreMax(), n.getMeanAbsoluteErrorMin(), n.getRootMeanSquaredErrorMin()}};
    }

    bool same(const Stats& a, const Stats& b)
    {
        for (int i = 0; i < 10; ++i)
            if (!(a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i]))))
                return false;
        return true;
    }

    std::string floatText(float f)
    {
        if (std::isnan(f))
            return "nan";
        char s[40];
        snprintf(s, sizeof s, "%.9g", static_cast<double>(f));
        return s;
    }

    std::string show(const Vec& v)
    {
        std::string s;
        for (size_t i = 0; i < v.size() && i < 12; ++i)
            s += (i ? " " : "") + floatText(v[i]);
        if (v.size() > 12)
            s += " ...";
        return "[" + s + "]";
    }

    std::string show(const Stats& s) { return show(Vec(s.v, s.v + 10)); }

    std::string bits(const Vec& v)
    {
        std::string s;
        for (float f : v)
            s += floatText(f) + " ";
        return s;
    }

    std::string observable(const Net& n, bool withSettings)
    {
        Quiet q;
        const auto s = statsOf(n);
        std::string o = "stats " + bits(Vec(s.v, s.v + 10)) + "\nweights " + bits(weightsOf(n)) + "\ncounters " + std::to_string(n.getNumberOfTraining())
            + " " + std::to_string(n.getCurrentEpoch()) + " " + std::to_string(n.getNumberOfTrainingsBetweenTwoEvaluations()) + "\nstructure "
            + std::to_string(n.getNumberOfLayers()) + " " + std::to_string(n.getNumberOfInputs()) + " " + std::to_string(n.getNumberOfOutputs()) + " "
            + std::to_string(n.getNumberOfNeurons()) + " " + std::to_string(n.getNumberOfParameters()) + "\ntraining " + std::to_string(n.isTraining());
        if (withSettings)
        {
            const auto locale = std::locale::global(std::locale::classic());
            o += "\nsettings " + n.autoSaveFilePath + " " + std::to_string(n.autoSaveWhenBetter) + "\n" + n.summary();
            std::locale::global(locale);
        }
        return o;
    }

    std::vector<std::string> listFiles()
    {
        Quiet q;
        std::vector<std::string> r;
        if (DIR* d = opendir("."))
        {
            while (auto* e = readdir(d))
                if (e->d_name[0] != '.')
                    r.emplace_back(e->d_name);
            closedir(d);
        }
        std::sort(r.begin(), r.end());
        return r;
    }

    bool exists(const std::string& p)
    {
        struct stat st;
        return stat(p.c_str(), &st) == 0;
    }

    std::string readFile(const std::string& p)
    {
        Quiet q;
        std::ifstream f(p, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }

    void writeFile(const std::string& p, const std::string& c)
    {
        Quiet q;
        std::ofstream f(p, std::ios::binary);
        f << c;
    }

    void together(const std::vector<std::pair<u64, std::function<void()>>>& fs, bool concurrent)
    {
        std::vector<int> ids;
        for (auto& [k, f] : fs)
        {
            ids.push_back(spawn(k, f));
            if (!concurrent)
                join(ids.back());
        }
        for (int t : ids)
            join(t);
    }

    void runScenario(const Plan& plan, int phase)
    {
        thePlan = plan;
        theProperty = plan.str("property");
        const auto s = plan.str("scenario");
        if (s == "control")
            scenarioControl(plan, phase);
        else if (s == "data")
            scenarioData(plan, phase);
        else if (s == "persist")
            scenarioPersist(plan, phase);
        else if (s == "twin")
            scenarioTwin(plan, phase);
        else if (s == "stats")
            scenarioStats(plan, phase);
        else if (s == "memory")
            scenarioMemory(plan, phase);
        else if (s == "exports")
            scenarioExports(plan, phase);
        else if (s == "steps")
            scenarioSteps(plan, phase);
        else if (s == "chance")
            scenarioChance(plan, phase);
        else if (s == "refusals")
            scenarioRefusals(plan, phase);
        else if (s == "equal")
            scenarioEqual(plan, phase);
        else
            error("unknown scenario " + s);
    }
}
