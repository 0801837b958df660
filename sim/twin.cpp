// Scenario "twin": the same history lived several times in different circumstances (alone and in parallel, with and without
// evaluations, as the original and as a copy), and the properties of a single history (recurrent state, best results).
#include "unit.hpp"
#include <algorithm>

namespace sim
{
    namespace
    {
        Unit* makeUnit(const Plan& plan, size_t k, const std::string& file)
        {
            auto* u = new Unit;
            const auto nets = plan.all("net"), datas = plan.all("data");
            u->netLine = nets[std::min(k, nets.size() - 1)];
            u->dataLine = datas[std::min(k, datas.size() - 1)];
            u->dataSeed = static_cast<u64>(plan.num("seed")) + k;
            u->file = file;
            u->spied = true;
            u->rec.keep = false;
            for (auto& l : plan.all("pass"))
                u->rec.script.push_back({static_cast<int>(l.num(0)), strtof(l.str(1).c_str(), nullptr), strtof(l.str(2).c_str(), nullptr)});
            return u;
        }

        std::string firstDifference(const std::vector<std::string>& a, const std::vector<std::string>& b)
        {
            for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
            {
                const std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
                if (x == y)
                    continue;
                size_t c = 0;
                while (c < x.size() && c < y.size() && x[c] == y[c])
                    ++c;
                const size_t line = x.rfind('\n', c);
                const size_t from = line == std::string::npos ? 0 : line + 1;
                const auto cut = [&](const std::string& s) { return s.substr(std::min(from, s.size()), 160); };
                return "after operation " + std::to_string(i + 1) + " (" + x.substr(0, x.find('\n')) + "): \"" + cut(x) + "\" / \"" + cut(y) + "\"";
            }
            return "";
        }

        std::string opKey(size_t k) { return k == 0 ? "op" : "op" + std::to_string(k + 1); }

        // ------------------------------------------------------------------ C14
        void parallel(const Plan& plan)
        {
            const size_t lanes = plan.all("net").size();
            if (plan.num("common"))
            {
                Net* n = makeNet(plan.all("net")[0]);
                const auto err = thrown([&] { n->saveAs("common.snn"); });
                if (!err.empty())
                    return;
                dispose(n);
            }
            std::vector<std::vector<std::string>> digests[2];
            std::vector<std::string> problems[2];
            for (int together_ = 0; together_ < 2; ++together_)
            {
                std::vector<Unit*> units;
                std::vector<std::pair<u64, std::function<void()>>> fs;
                DataSet* shared = plan.num("shared") ? makeData(plan.all("data").at(0), static_cast<u64>(plan.num("seed")) + 1) : nullptr;
                for (size_t k = 0; k < lanes; ++k)
                {
                    units.push_back(makeUnit(plan, k, plan.num("stem") ? "lane." + std::string(1, static_cast<char>('a' + k)) : "lane" + std::to_string(k) + ".snn"));
                    units.back()->shared = shared;
                    fs.emplace_back(100 + k, [&plan, k, u = units.back()]
                    {
                        Quiet q;
                        u->build();
                        u->record("creation");
                        u->runAll(plan.all(opKey(k)));
                        u->destroy();
                    });
                }
                together(fs, together_ == 1);
                for (auto* u : units)
                {
                    digests[together_].push_back(u->digests);
                    problems[together_].push_back(u->problem);
                }
            }
            for (size_t k = 0; k < lanes; ++k)
            {
                require(problems[0][k] == problems[1][k], "C14", "threw", "network " + std::to_string(k) + ": " + problems[1][k] + " in parallel, and alone: " + problems[0][k]);
                count("probe.compared", digests[0][k].size());
                require(digests[0][k] == digests[1][k], "C14", "differs", "network " + std::to_string(k) + " is different in parallel with the others than alone, "
                        + firstDifference(digests[0][k], digests[1][k]));
            }
        }

        // ------------------------------------------------------------------ C16
        void transparent(const Plan& plan)
        {
            Unit* units[2];
            for (int k = 0; k < 2; ++k)
            {
                auto* u = units[k] = makeUnit(plan, 0, "net.snn");
                u->stripped = k == 1;
                together({{500, [&plan, u]
                {
                    Quiet q;
                    u->build();
                    u->runAll(plan.all("op"));
                }}}, true);
            }
            if (!units[0]->net || !units[1]->net || !units[0]->usable() || !units[1]->usable())
            {
                count("probe.diverged");
                return;
            }
            const auto a = weightsOf(*units[0]->net), b = weightsOf(*units[1]->net);
            count("probe.compared");
            require(units[0]->problem == units[1]->problem, "C16", "threw", units[0]->problem + " / " + units[1]->problem);
            require(same(a, b) && units[0]->net->getNumberOfTraining() == units[1]->net->getNumberOfTraining(), "C16", "weights",
                    "the weights are " + show(a) + " with evaluations and inferences, and " + show(b) + " without");
            const auto o = units[0]->use(4, true), p = units[1]->use(4, true);
            require(same(o, p), "C16", "outputs", "the outputs are " + show(o) + " with evaluations and inferences, and " + show(p) + " without");
        }

        // ------------------------------------------------------------------ C19
        struct Pair { Unit* original = nullptr; Unit* copy = nullptr; };

        Pair copied(const Plan& plan, bool check)
        {
            Pair p;
            p.original = makeUnit(plan, 0, "original.snn");
            together({{500, [&plan, &p]
            {
                Quiet q;
                p.original->rec.nanTrain = plan.num("nantrain", -1);
                p.original->build();
                p.original->runAll(plan.all("op"));
                p.original->rec.nanTrain = -1;
            }}}, true);
            if (!p.original->net)
                return p;
            const auto before = observable(*p.original->net);
            const int chain = static_cast<int>(plan.num("chain", 1));
            Net* from = p.original->net;
            for (int i = 0; i < chain; ++i)
            {
                Net* c = nullptr;
                const auto err = thrown([&] { c = make<Net>(*from); });
                if (!err.empty())
                {
                    violated("C19", "threw", "the copy of an idle network threw " + err);
                    return p;
                }
                if (check)
                {
                    require(observable(*c) == before, "C19", "copy", "the copy is different: " + firstDifference({before}, {observable(*c)}));
                    bool equal, hasNan;
                    {
                        Loud loud;
                        hasNan = p.original->net->hasNan();
                        require(c->hasNan() == hasNan, "C19", "nan", hasNan ? "the original has a NaN, and the copy does not say so" : "the copy has a NaN, and the original does not");
                        equal = *c == *from && !(*c != *from);
                    }
                    require(equal || hasNan, "C19", "equality", "the copy is not equal to the original");
                    require(observable(*p.original->net) == before, "C19", "source", "copying changed the original");
                    count("probe.copies");
                }
                if (from != p.original->net && plan.num("dropintermediate"))
                {
                    Loud loud;
                    dispose(from);
                }
                from = c;
            }
            p.copy = makeUnit(plan, 0, "copy.snn");
            p.copy->net = from;
            p.copy->ds = p.original->ds;
            p.copy->rec.testLabels = p.original->rec.testLabels;
            p.copy->rec.classification = p.original->rec.classification;
            p.copy->attach();
            for (auto* u : {p.original, p.copy})
            {
                u->digests.clear();
                u->rec.passes = 0;
            }
            return p;
        }

        void live(Unit* u, const std::vector<Line>& lines)
        {
            u->net->autoSaveFilePath = u->file;
            u->build(false); // data of its own
            u->runAll(lines);
        }

        // the digests name the file of each network
        std::vector<std::string> anonymous(std::vector<std::string> d)
        {
            for (auto& s : d)
                for (const char* f : {"original.snn", "copy.snn"})
                    for (size_t i; (i = s.find(f)) != std::string::npos;)
                        s.replace(i, strlen(f), "FILE");
            return d;
        }

        void copies(const Plan& plan)
        {
            const auto one = plan.all("op2"), other = plan.all("op3");
            // alone: the original, then the copy in another life
            const auto alone = copied(plan, true);
            if (!alone.copy)
                return;
            const auto frozen = observable(*alone.copy->net);
            together({{600, [&] { Quiet q; live(alone.original, one); }}}, true);
            require(observable(*alone.copy->net) == frozen, "C19", "independence", "what was done to the original changed the copy: " + firstDifference({frozen}, {observable(*alone.copy->net)}));
            const auto R = anonymous(alone.original->digests);
            if (plan.num("destroyfirst"))
                alone.original->destroy();
            const auto frozen2 = alone.original->net ? observable(*alone.original->net) : "";
            together({{600, [&] { Quiet q; live(alone.copy, one); }}}, true);
            const auto S = anonymous(alone.copy->digests);
            count("probe.compared", R.size());
            require(R == S, "C19", "evolution", "the copy does not evolve like the original: " + firstDifference(R, S));
            if (alone.original->net)
                require(observable(*alone.original->net) == frozen2, "C19", "independence", "what was done to the copy changed the original: " + firstDifference({frozen2}, {observable(*alone.original->net)}));
            require(alone.original->problem == alone.copy->problem, "C19", "threw", alone.original->problem + " / " + alone.copy->problem);
            // in parallel with something else done to the other one
            for (int k = 0; k < 2; ++k)
            {
                if (!plan.num(k == 0 ? "parallel" : "parallel2"))
                    continue;
                const auto p = copied(plan, false);
                if (!p.copy)
                    return;
                Unit* a = k == 0 ? p.original : p.copy;
                Unit* b = k == 0 ? p.copy : p.original;
                together({{600, [&] { Quiet q; live(a, one); }}, {700, [&] { Quiet q; live(b, other); }}}, true);
                const auto T = anonymous(a->digests);
                require(R == T, "C19", "independence", std::string("the ") + (k == 0 ? "original" : "copy") + " evolves differently while the other one is used: " + firstDifference(R, T));
                a->destroy();
                b->destroy();
            }
        }

        // ------------------------------------------------------------------ C15
        // one step of the layers the library documents, from the weights and the state
        struct Model
        {
            Net* net;

            static double sigmoid(double x) { return (std::tanh(x / 2) + 1) / 2; }

            static double dot(const Vec& w, size_t from, const Vec& x)
            {
                double s = 0;
                for (size_t i = 0; i < x.size(); ++i)
                    s += static_cast<double>(w[from + i]) * static_cast<double>(x[i]);
                return s;
            }

            // state: what each layer output last, or zeros
            bool step(Vec x, const std::vector<Vec>& state, Vec& out)
            {
                for (size_t l = 0; l < net->layers.size(); ++l)
                {
                    const auto* layer = unwrap(net->layers[l].get());
                    Vec y;
                    if (const auto* a = dynamic_cast<const snn::internal::Layer<snn::internal::SimpleNeuron>*>(layer))
                        for (auto& n : a->neurons)
                        {
                            const auto w = n.getWeights();
                            if (w.size() != x.size() + 1)
                                return false;
                            y.push_back(n.outputFunction->function(static_cast<float>(dot(w, 0, x) + static_cast<double>(w[x.size()]))));
                        }
                    else if (const auto* b = dynamic_cast<const snn::internal::Layer<snn::internal::RecurrentNeuron>*>(layer))
                        for (size_t i = 0; i < b->neurons.size(); ++i)
                        {
                            const auto& n = b->neurons[i];
                            const auto w = n.getWeights();
                            if (w.size() != x.size() + 2)
                                return false;
                            y.push_back(n.outputFunction->function(static_cast<float>(
                                dot(w, 0, x) + static_cast<double>(state[l][i] * w[x.size()]) + static_cast<double>(w[x.size() + 1]))));
                        }
                    else if (const auto* c = dynamic_cast<const snn::internal::Layer<snn::internal::GatedRecurrentUnit>*>(layer))
                        for (size_t i = 0; i < c->neurons.size(); ++i)
                        {
                            const auto w = c->neurons[i].getWeights();
                            const size_t k = x.size() + 2;
                            if (w.size() != 3 * k)
                                return false;
                            const double s = static_cast<double>(state[l][i]);
                            const auto gate = [&](size_t g, double last) { return dot(w, g * k, x) + last * static_cast<double>(w[g * k + x.size()]) + static_cast<double>(w[g * k + x.size() + 1]); };
                            const double r = sigmoid(gate(0, s)), z = sigmoid(gate(1, s)), h = std::tanh(gate(2, r * s));
                            y.push_back(static_cast<float>(z * h));
                        }
                    else
                        return false;
                    x = y;
                }
                out = x;
                return true;
            }
        };

        bool near(const Vec& a, const Vec& b)
        {
            if (a.size() != b.size())
                return false;
            for (size_t i = 0; i < a.size(); ++i)
                if (std::fabs(a[i] - b[i]) > 2e-3f + 2e-3f * std::fabs(b[i]))
                    return false;
            return true;
        }

        // Two networks with the same weights and the same last outputs, of which one has learned (with a learning rate so small that
        // no weight moved), then learn the same sequences.
        void learnPast(const Plan& plan)
        {
            auto* a = makeUnit(plan, 0, "a.snn");
            auto* b = makeUnit(plan, 0, "b.snn");
            a->everyLayer = b->everyLayer = true;
            bool ready = false;
            together({{500, [&]
            {
                Quiet q;
                a->build();
                b->build(false);
                Net* c = nullptr;
                if (!b->expectNoThrow("the copy", thrown([&] { c = make<Net>(*a->net); })).empty())
                    return;
                c->autoSaveFilePath = b->file;
                b->replace(c, false);
                for (auto* u : {a, b})
                    setLearningRate(*u->net, 1e-30f, 0);
                a->runAll(plan.all("past"));
                b->runAll(plan.all("other"));
                if (!a->net || !b->net || !a->usable() || !b->usable())
                    return;
                if (!same(weightsOf(*a->net), weightsOf(*b->net)))
                {
                    count("probe.moved");
                    return;
                }
                for (auto* u : {a, b})
                {
                    u->rec.manual = true;
                    for (int i = 0; i < 43; ++i)
                        u->expectNoThrow("an inference", thrown([&] { (void)u->net->computeOutput(Vec(static_cast<size_t>(u->ds->inputs), i < 40 ? 1e6f : 0.3f)); }));
                    u->rec.manual = false;
                    setLearningRate(*u->net, static_cast<float>(plan.num("rate", 100)) / 1000, 0);
                }
                for (size_t l = 0; l < a->net->layers.size(); ++l)
                {
                    const auto *s = dynamic_cast<const Spy*>(a->net->layers[l].get()), *t = dynamic_cast<const Spy*>(b->net->layers[l].get());
                    if (!s || !t || !same(s->lastOut, t->lastOut))
                    {
                        count("probe.notflushed");
                        return;
                    }
                }
                ready = true;
            }}}, true);
            std::vector<std::pair<std::string, Vec>> seen[2];
            if (ready)
                for (int k = 0; k < 2; ++k)
                {
                    auto* u = k ? b : a;
                    u->afterOp = [&, u](const std::string& op)
                    {
                        if (u->net)
                            seen[k].emplace_back(op, weightsOf(*u->net));
                    };
                    together({{600, [&]
                    {
                        Quiet q;
                        u->freshData();
                        u->attach();
                        u->runAll(plan.all("op"));
                        u->afterOp = nullptr;
                        u->destroy();
                    }}}, true);
                }
            require(a->problem.empty(), "C15", "threw", a->problem);
            require(b->problem.empty(), "C15", "threw", b->problem);
            require(seen[0].size() == seen[1].size(), "C15", "threw", "an operation is missing");
            for (size_t i = 0; i < seen[0].size(); ++i)
            {
                if (!seen[0][i].second.empty() && !std::isfinite(seen[0][i].second[0]))
                    break;
                require(same(seen[0][i].second, seen[1][i].second), "C15", "learned",
                        "from the same weights and last outputs, the same sequences (which begin with a temporal reset) are learned differently by a network that has seen other sequences before: after operation "
                        + std::to_string(i + 1) + " (" + seen[0][i].first + ") the weights are " + show(seen[0][i].second) + " and " + show(seen[1][i].second));
                count("probe.learned");
            }
        }

        void recurrent(const Plan& plan)
        {
            if (plan.num("learnpast"))
                return learnPast(plan);
            auto* u = makeUnit(plan, 0, "net.snn");
            u->everyLayer = true;
            Vec carried, fresh;
            bool known = false, reset = false, past = false;
            const auto predict = [&](const Event& e)
            {
                known = false;
                Model m{u->net};
                std::vector<Vec> state, zero;
                for (auto& l : u->net->layers)
                {
                    const auto* s = dynamic_cast<const Spy*>(l.get());
                    if (!s)
                        return;
                    state.push_back(s->lastOut);
                    zero.emplace_back(s->lastOut.size(), 0.0f);
                }
                for (size_t l = 0; l < state.size(); ++l)
                    if (static_cast<int>(state[l].size()) != u->net->layers[l]->getNumberOfNeurons())
                        return;
                known = m.step(e.in, state, carried) && m.step(e.in, zero, fresh);
                past = !near(carried, fresh);
            };
            const auto judge = [&](const Vec& out)
            {
                require(!u->rec.inconsistentReset, "C15", "flag", "a recurrent layer was not given the same temporal reset as the first one");
                const auto& e = u->rec.current;
                reset = e.reset;
                if (!u->rec.atRecurrent)
                    ;
                else if (u->rec.manual)
                    require(reset == u->wantReset, "C15", "flag", "computeOutput did not give the recurrent layers the temporal reset it was asked for");
                else if (u->ds->nature == snn::nature::sequential || (u->ds->nature == snn::nature::timeSeries && !e.train))
                {
                    const auto& rows = e.train ? u->ds->trainX : u->ds->testX;
                    const auto& starts = e.train ? u->ds->trainSeq : u->ds->testSeq;
                    for (size_t i = 0; i < rows.size(); ++i)
                        if (same(rows[i], e.in))
                        {
                            const bool first = u->ds->nature == snn::nature::timeSeries ? i == 0 : std::find(starts.begin(), starts.end(), static_cast<int>(i)) != starts.end();
                            require(reset == first, "C15", "flag", std::string("step ") + std::to_string(i) + " of the " + (e.train ? "training" : "test") + " data " + (first ? "begins a sequence without a temporal reset" : "is in the middle of a sequence and is presented with a temporal reset"));
                            break;
                        }
                }
                if (!known)
                    return;
                known = false;
                for (float f : out)
                    if (!std::isfinite(f) || std::fabs(f) > 1e4f)
                        return;
                count(reset ? "probe.reset" : "probe.step");
                if (reset && past)
                    count("probe.past");
                if (near(out, reset ? fresh : carried))
                    return;
                if (reset && near(out, carried))
                {
                    count("known.reset-keeps-last-output");
                    return;
                }
                violated("C15", reset ? "reset" : "state", std::string("the outputs of a step ") + (reset ? "with a temporal reset" : "without a temporal reset") + " are " + show(out) + ", from the weights and "
                         + (reset ? "no past they are " + show(fresh) + " (with the past state: " + show(carried) + ")" : "the state left by the previous step they are " + show(carried)));
            };
            u->hook = predict;
            u->rec.onEnd = [&](const Event& e) { judge(e.out); };
            u->rec.onManual = judge;
            together({{500, [&]
            {
                Quiet q;
                u->build();
                for (auto& l : plan.all("op"))
                {
                    if (l.str(0) == "other") // a copy of the network lives another life
                    {
                        Net* c = nullptr;
                        if (!thrown([&] { c = make<Net>(*u->net); }).empty())
                            continue;
                        for (i64 i = 0; i < l.num(1, 1); ++i)
                        {
                            Loud loud;
                            (void)c->computeOutput(u->ds->testX[static_cast<size_t>(i) % u->ds->testX.size()], i == 0);
                        }
                        if (l.num(2))
                            thrown([&] { c->train(*u->ds->data, snn::operator""_ep(1ull), 1, 1); });
                        dispose(c);
                        continue;
                    }
                    u->runAll({l});
                }
                u->destroy();
            }}}, true);
            require(u->problem.empty(), "C15", "threw", u->problem);
        }

        // ------------------------------------------------------------------ C17
        struct Best
        {
            bool any = false;
            float v[5] = {-1, -1, -1, -1, -1};
            void add(const Stats& s)
            {
                for (int i = 0; i < 5; ++i)
                {
                    const bool better = !any || (i < 3 ? s.v[i] > v[i] : s.v[i] < v[i]);
                    if (better)
                        v[i] = s.v[i];
                }
                any = true;
            }
        };

        void best(const Plan& plan, int phase)
        {
            auto* u = makeUnit(plan, 0, "net.snn");
            Best model;
            const char* names[5] = {"accuracy", "weighted accuracy", "F1 score", "mean absolute error", "root mean squared error"};
            const auto observe = [&](const std::string& when)
            {
                if (!u->net)
                    return;
                const auto s = statsOf(*u->net);
                bool valid = true;
                for (int i = 0; i < 5; ++i)
                    valid = valid && !std::isnan(s.v[i]);
                if (valid && s.v[0] >= 0)
                {
                    model.add(s);
                    count("probe.evaluations");
                }
                for (int i = 0; i < 5; ++i)
                    if (!(s.v[5 + i] == model.v[i]))
                        violated("C17", "best", std::string("the best ") + names[i] + " is " + floatText(s.v[5 + i]) + " and the best of all evaluations was " + floatText(model.v[i]) + " " + when);
            };
            i64 failAt = -1;
            int skip = 0;
            if (phase > 1)
            {
                std::istringstream in(loadBlob());
                int n = 0;
                u64 passes = 0;
                in >> n >> model.any >> passes >> u->rec.nanPass;
                u->rec.passes = static_cast<int>(passes);
                for (auto& f : model.v)
                {
                    u64 b = 0;
                    in >> b;
                    const auto w = static_cast<uint32_t>(b);
                    memcpy(&f, &w, 4);
                }
                skip = n;
            }
            else if (plan.has("naneval"))
            {
                const auto l = plan.all("naneval")[0];
                u->rec.nanPass = static_cast<int>(l.num(0));
                u->rec.nanEval = static_cast<int>(l.num(1));
            }
            u->hook = [&](const Event& e)
            {
                if (e.train || u->rec.evalInPass == 0)
                    observe("in a training");
            };
            (void)failAt;
            const auto body = [&]
            {
                Quiet q;
                if (phase > 1)
                {
                    Net* n = nullptr;
                    u->build(false);
                    const auto err = thrown([&] { n = &Net::loadFrom("net.snn"); });
                    if (!err.empty())
                    {
                        violated("C17", "threw", "loadFrom threw " + err);
                        return;
                    }
                    u->replace(n, true);
                    observe("after the network was loaded in a new process");
                }
                else
                    u->build();
                int at = 0;
                for (auto& l : plan.all("op"))
                {
                    if (at++ < skip)
                        continue;
                    if (l.str(0) == "restart")
                    {
                        if (!u->net || !thrown([&] { u->net->saveAs("net.snn"); }).empty())
                            continue;
                        std::ostringstream o;
                        o << at << " " << model.any << " " << u->rec.passes << " -1";
                        for (auto f : model.v)
                        {
                            uint32_t w;
                            memcpy(&w, &f, 4);
                            o << " " << w;
                        }
                        saveBlob(o.str());
                        nextPhase();
                    }
                    const auto before = u->net ? statsOf(*u->net) : Stats{};
                    bool armed = false;
                    for (auto& f : plan.all("oomnext"))
                        if (f.num(0) == at - 1)
                        {
                            armOom(f.num(1), f.num(2, 1));
                            armed = u->failing = true;
                        }
                    u->runAll({l});
                    if (armed)
                    {
                        disarmOom();
                        u->failing = false;
                    }
                    (void)before;
                    observe("after " + l.str(0));
                }
                u->destroy();
            };
            together({{500 + static_cast<u64>(phase), body}}, true);
            require(u->problem.empty(), "C17", "threw", u->problem);
        }
    }

    void scenarioTwin(const Plan& plan, int phase)
    {
        Quiet q;
        concerns = [](const std::string&) { return true; };
        if (theProperty == "C14")
            parallel(plan);
        else if (theProperty == "C15")
            recurrent(plan);
        else if (theProperty == "C16")
            transparent(plan);
        else if (theProperty == "C17")
            best(plan, phase);
        else if (theProperty == "C19")
            copies(plan);
        else
            error("no twin scenario for " + theProperty);
    }
}
