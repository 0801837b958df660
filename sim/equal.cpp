// Scenario "equal": networks compared with == and != across their histories.
#include "unit.hpp"
#include <cmath>

namespace sim
{
    namespace
    {
        struct Member
        {
            Unit* u = nullptr;
            std::string lineage; // what it went through, with which draws; "": nobody else went through the same
            bool alive() const { return u->net != nullptr; }
        };

        std::string textOf(const Line& l, size_t from)
        {
            std::string s;
            for (size_t i = from; i < l.args.size(); ++i)
                s += l.args[i] + " ";
            return s;
        }

        // what is declared or set, and what was learned
        std::string signature(const Member& m)
        {
            std::string s;
            for (auto& t : m.u->netLine.args)
            {
                if (t.rfind("lr:", 0) == 0 || t.rfind("mom:", 0) == 0)
                    continue;
                auto p = split(t, ':');
                if (p[0] == "in") // of the shape of the inputs, only the size concerns every layer
                {
                    i64 size = 1;
                    for (size_t i = 1; i < p.size(); ++i)
                        size *= atoi(p[i].c_str());
                    s += "in:" + std::to_string(size) + " ";
                    continue;
                }
                // the numbers, the optimizers in their order, and the activation, given or not
                std::string act = p[0] == "gru" || p[0] == "pool" ? "" : "sigmoid";
                for (size_t i = 1; i < p.size(); ++i)
                    if (!p[i].empty() && isalpha(static_cast<unsigned char>(p[i][0])) && p[i] != "softmax" && p[i].rfind("em", 0) != 0
                        && p[i].find_first_of("0123456789") == std::string::npos)
                        act = p[i];
                    else
                        p[0] += ":" + p[i];
                if (p[0].rfind("rec", 0) == 0 && act == "sigmoid")
                    act = "tanh";
                s += p[0] + ":" + act + " ";
            }
            if (const auto* o = dynamic_cast<const snn::internal::StochasticGradientDescent*>(m.u->net->optimizer.get()))
                s += floatText(o->learningRate) + " " + floatText(o->momentum);
            Vec ws = weightsOf(*m.u->net);
            for (auto& w : ws)
                if (std::abs(w) < 1e-30f)
                    w = 0; // no matter which zero
            return s + (m.u->net->autoSaveWhenBetter ? " auto " : " ") + m.u->net->autoSaveFilePath + " " + bits(ws);
        }

        bool finite(const Member& m)
        {
            if (!m.u->usable())
                return false;
            for (float w : weightsOf(*m.u->net))
                if (!std::isfinite(w))
                    return false;
            return true;
        }

        // what a copy of it answers and learns from now on
        std::string future(const Member& m)
        {
            std::string said;
            together({{950, [&]
            {
                Quiet q;
                auto& ds = *m.u->ds;
                Net* c = nullptr;
                if (!thrown([&] { c = make<Net>(*m.u->net); }).empty())
                    return;
                Vec all;
                said += thrown([&]
                {
                    for (size_t i = 0; i < 3; ++i)
                    {
                        const auto o = c->computeOutput(ds.testX[i % ds.testX.size()], i == 0);
                        all.insert(all.end(), o.begin(), o.end());
                    }
                    for (size_t i = 0; i < 3; ++i)
                        c->trainOnce(ds.trainX[i % ds.trainX.size()], ds.trainY[i % ds.trainX.size()], i == 0);
                });
                said += bits(all) + " " + bits(weightsOf(*c));
                Loud loud;
                dispose(c);
            }}}, true);
            return said;
        }

        // the nudge-th, if there is one, only nearly
        void takeWeights(Net& to, const Net& from, i64 nudge)
        {
            for (size_t l = 0; l < to.layers.size() && l < from.layers.size(); ++l)
            {
                const auto take = [&](auto& a, const auto& b)
                {
                    for (size_t n = 0; n < a.neurons.size() && n < b.neurons.size(); ++n)
                    {
                        Vec w = b.neurons[n].getWeights();
                        if (a.neurons[n].getWeights().size() != w.size())
                            continue;
                        for (auto& x : w)
                            if (--nudge == 0 && std::abs(x) > 1e-6f)
                                x = std::nextafter(x, 2 * x);
                        a.neurons[n].setWeights(w);
                    }
                };
                using Simple = snn::internal::Layer<snn::internal::SimpleNeuron>;
                using Recurrent = snn::internal::Layer<snn::internal::RecurrentNeuron>;
                if (auto* a = dynamic_cast<Simple*>(to.layers[l].get()))
                {
                    if (auto* b = dynamic_cast<Simple*>(from.layers[l].get()))
                        take(*a, *b);
                }
                else if (auto* c = dynamic_cast<Recurrent*>(to.layers[l].get()))
                    if (auto* d = dynamic_cast<Recurrent*>(from.layers[l].get()))
                        take(*c, *d);
            }
        }

        void check(std::vector<Member>& all, const std::string& when)
        {
            const size_t n = all.size();
            std::vector<std::string> before(n);
            for (size_t i = 0; i < n; ++i)
                if (all[i].alive())
                    before[i] = observable(*all[i].u->net, true);
            // in both orders, at the same time
            std::vector<int> equal[2], different[2];
            std::vector<std::pair<u64, std::function<void()>>> fs;
            std::string problem;
            for (size_t way = 0; way < 2; ++way)
            {
                equal[way].assign(n * n, 0);
                different[way].assign(n * n, 0);
                fs.emplace_back(900 + way, [&, way]
                {
                    Quiet q;
                    for (size_t i = 0; i < n; ++i)
                        for (size_t j = 0; j <= i; ++j)
                        {
                            if (!all[i].alive() || !all[j].alive())
                                continue;
                            const Net &a = *all[way ? j : i].u->net, &b = *all[way ? i : j].u->net;
                            const auto err = thrown([&]
                            {
                                equal[way][i * n + j] = a == b;
                                different[way][i * n + j] = a != b;
                            });
                            if (!err.empty())
                                problem = "a comparison threw " + err;
                        }
                });
            }
            together(fs, true);
            require(problem.empty(), "C29", "threw", problem + " " + when);
            for (size_t i = 0; i < n; ++i)
                require(!all[i].alive() || observable(*all[i].u->net, true) == before[i], "C29", "changed", "a comparison changed network " + std::to_string(i) + " " + when);
            std::vector<std::string> signs(n), futures(n);
            std::vector<int> judged(n);
            for (size_t i = 0; i < n; ++i)
                if (all[i].alive() && finite(all[i]))
                {
                    judged[i] = 1;
                    signs[i] = signature(all[i]);
                }
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j <= i; ++j)
                {
                    if (!all[i].alive() || !all[j].alive())
                        continue;
                    const size_t k = i * n + j;
                    const std::string who = "networks " + std::to_string(i) + " and " + std::to_string(j) + " " + when;
                    for (int way = 0; way < 2; ++way)
                        require(equal[way][k] != different[way][k], "C29", "both", "== and != say the same of " + who);
                    require(equal[0][k] == equal[1][k], "C29", "asymmetric", who + " are equal in one order and different in the other");
                    if (!judged[i] || !judged[j])
                        continue;
                    if (i == j)
                        require(equal[0][k], "C29", "self", "network " + std::to_string(i) + " differs from itself " + when);
                    else if (!all[i].lineage.empty() && all[i].lineage == all[j].lineage)
                    {
                        require(equal[0][k], "C29", "different", who + " went through the same with the same draws, and differ");
                        count("probe.equal");
                    }
                    else if (signs[i] != signs[j])
                    {
                        size_t c = 0;
                        while (c < signs[i].size() && c < signs[j].size() && signs[i][c] == signs[j][c])
                            ++c;
                        c = c < 20 ? 0 : c - 20;
                        require(!equal[0][k], "C29", "equal", who + " are equal, with \"" + signs[i].substr(std::min(c, signs[i].size()), 60) + "\" and \"" + signs[j].substr(std::min(c, signs[j].size()), 60) + "\"");
                        count("probe.different");
                    }
                    if (i != j && equal[0][k])
                    {
                        for (size_t x : {i, j})
                            if (futures[x].empty())
                                futures[x] = future(all[x]);
                        require(futures[i] == futures[j], "C29", "future", who + " are equal, and do not answer or learn the same from the same draws");
                        count("probe.futures");
                    }
                }
        }
    }

    void scenarioEqual(const Plan& plan, int)
    {
        Quiet q;
        concerns = [](const std::string&) { return true; };
        watchHeap();
        const auto nets = plan.all("net");
        std::vector<Member> all(nets.size());
        for (size_t k = 0; k < all.size(); ++k)
        {
            auto* u = all[k].u = new Unit;
            u->netLine = nets[k];
            u->dataLine = plan.all("data").at(0);
            u->dataSeed = static_cast<u64>(plan.num("seed"));
            u->file = "same.snn";
            u->rec.keep = false;
            const u64 key = 500 + (plan.num("same") ? 0 : k);
            together({{key, [&]
            {
                Quiet q2;
                if (!thrown([&] { u->build(); }).empty())
                    u->net = nullptr;
            }}}, true);
            all[k].lineage = textOf(nets[k], 0) + "#" + std::to_string(key);
        }
        check(all, "after their creation");
        u64 at = 0;
        for (auto& l : plan.all("op"))
        {
            ++at;
            const std::string kind = l.str(0);
            const auto unit = [&](size_t i) { return static_cast<size_t>(l.num(i)) % all.size(); };
            const auto live = [&](size_t k, size_t from)
            {
                auto& m = all[k];
                if (!m.alive())
                    return;
                together({{600 + at, [&]
                {
                    Quiet q2;
                    m.u->freshData();
                    m.u->runAll({l}, from);
                }}}, true);
                require(m.u->problem.empty(), "C29", "threw", m.u->problem);
                if (l.str(from) != "copy" && l.str(from) != "reload" && l.str(from) != "save" && !m.lineage.empty())
                    m.lineage += "; " + std::to_string(at) + " " + textOf(l, from);
            };
            if (kind == "each")
                for (size_t k = 0; k < all.size(); ++k)
                    live(k, 1);
            else if (kind == "on")
                live(unit(1), 2);
            else if (kind == "clone" || kind == "take")
            {
                auto &a = all[unit(1)], &b = all[unit(2)];
                if (&a != &b && a.alive() && b.alive())
                    together({{600 + at, [&]
                    {
                        Quiet q2;
                        if (kind == "take")
                        {
                            takeWeights(*b.u->net, *a.u->net, l.num(3, 0));
                            b.lineage.clear();
                            return;
                        }
                        Net* c = nullptr;
                        const auto err = thrown([&] { c = make<Net>(*a.u->net); });
                        require(err.empty(), "C29", "threw", "a copy threw " + err);
                        b.u->replace(c, false);
                        b.u->netLine = a.u->netLine;
                        b.lineage = a.lineage;
                    }}}, true);
            }
            else
                error("unknown operation " + kind);
            check(all, "after operation " + std::to_string(at) + " (" + textOf(l, 0) + ")");
        }
        for (auto& m : all)
            m.u->destroy();
    }
}
