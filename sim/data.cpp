// Scenario "data": which examples are presented to the network, in which order, with which labels, and what becomes of the
// data. One or two networks with their own data, used at the same time (lanes "op" and "op2").
#include "harness.hpp"
#include <algorithm>
#include <set>

namespace sim
{
    namespace
    {
        constexpr i64 ms = 1000000;

        bool close(float a, float b, float tol = 2e-4f) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }

        struct Lane
        {
            const Plan& plan;
            std::string opKey;
            Net* net = nullptr;
            DataSet* ds = nullptr;
            Recorder rec;
            int id;
            bool training = false;
            int B = 1, F = 1;
            bool timeLimited = false;
            bool diverged = false;
            size_t checked = 0; // events already judged
            std::vector<std::vector<int>> orders; // of the complete epochs, batches of one
            std::vector<std::set<int>> learnedInEpoch; // time series, consecutive complete epochs
            bool retrying = false;

            Lane(const Plan& plan, int id) : plan(plan), opKey(id == 0 ? "op" : "op2"), id(id) {}

            int n() const { return ds->trainSize(); }
            int T() const { return ds->testSize(); }
            bool nt() const { return ds->nature == snn::nature::nonTemporal; }
            bool ts() const { return ds->nature == snn::nature::timeSeries; }
            const char* prop() const { return nt() ? "C06" : "C07"; }

            [[gnu::cold]] void bad(const std::string& kind, const std::string& msg)
            {
                violated(prop(), kind, (id ? "second network: " : "") + msg);
            }

            int rowOf(const Vec2& X, const Vec& x) const
            {
                for (size_t i = 0; i < X.size(); ++i)
                    if (same(X[i], x))
                        return static_cast<int>(i);
                return -1;
            }

            // ------------------------------------------------ the data, through its public interface
            static int classOf(const Vec& y)
            {
                for (size_t i = 0; i < y.size(); ++i)
                    if (y[i] == 1.0f)
                        return static_cast<int>(i);
                return -1;
            }

            void checkData(const char* when)
            {
                auto& d = *ds->data;
                const bool cls = ds->problem == snn::problem::classification;
                count("probe.data");
                if (d.sets[snn::training].size != n() || d.sets[snn::testing].size != T())
                    bad("size", std::string("the data have changed size ") + when);
                for (int i = 0; i < T(); ++i)
                {
                    if (!same(d.getTestingData(i), ds->testX[i]) || !same(d.getData(snn::testing, i), ds->testX[i]))
                        bad("altered", "test example " + std::to_string(i) + " is " + show(d.getTestingData(i)) + " instead of " + show(ds->testX[i]) + " " + when);
                    const bool ok = cls ? d.getTestingLabel(i) == classOf(ds->testY[i]) : same(d.getTestingOutputs(i), ds->testY[i]);
                    if (!ok)
                        bad("altered", "the label of test example " + std::to_string(i) + " has changed " + when);
                }
                std::vector<int> at(n(), -1);
                std::set<int> seen;
                for (int i = 0; i < n(); ++i)
                {
                    const Vec x = d.getTrainingData(i), y = d.getTrainingOutputs(i);
                    const int e = rowOf(ds->trainX, x);
                    if (e < 0)
                    {
                        bad("altered", "training example " + std::to_string(i) + " is " + show(x) + ", which was never given, " + when);
                        return;
                    }
                    at[i] = e;
                    seen.insert(e);
                    if (!same(y, ds->trainY[e]) || (cls && d.getTrainingLabel(i) != classOf(ds->trainY[e])))
                        bad("pairing", "training example " + std::to_string(i) + " has the expected output " + show(y) + " of another one (its own is " + show(ds->trainY[e]) + ") " + when);
                    if (!nt() && !ts() && e != i)
                        bad("order", "sequential data are out of order " + std::string(when));
                }
                if (nt() && static_cast<int>(seen.size()) != n())
                    bad("lost", "only " + std::to_string(seen.size()) + " of the " + std::to_string(n()) + " training examples can be reached " + when);
                if (nt())
                    for (int b = 2; b <= n() && b <= 4; ++b)
                    {
                        const int i = n() - b;
                        const Vec x = d.getTrainingData(i, b), y = d.getTrainingOutputs(i, b);
                        for (size_t c = 0; c < x.size(); ++c)
                        {
                            float m = 0;
                            for (int k = 0; k < b; ++k)
                                m += ds->trainX[at[i + k]][c] / static_cast<float>(b);
                            if (!close(m, x[c]))
                                bad("batch", "a batch of " + std::to_string(b) + " is not the mean of its examples " + when);
                        }
                        for (size_t c = 0; c < y.size(); ++c)
                        {
                            float m = 0;
                            for (int k = 0; k < b; ++k)
                                m += ds->trainY[at[i + k]][c] / static_cast<float>(b);
                            if (!close(m, y[c]))
                                bad("batch", "the expected output of a batch of " + std::to_string(b) + " is not the mean of those of its examples " + when);
                        }
                    }
            }

            // of data in their order
            void checkSequences(const char* when)
            {
                if (nt())
                    return;
                auto& d = *ds->data;
                for (int i = 0; i < n(); ++i)
                {
                    const bool first = ts() ? i == 0 : std::find(ds->trainSeq.begin(), ds->trainSeq.end(), i) != ds->trainSeq.end();
                    if (d.isFirstTrainingDataOfTemporalSequence(i) != first)
                        bad("unshuffle", "training example " + std::to_string(i) + (first ? " does not begin its sequence " : " begins a sequence ") + when);
                    if (!d.needToLearnOnTrainingData(i))
                        bad("unshuffle", "training example " + std::to_string(i) + " is not to be learned " + when);
                }
            }

            void unshuffle()
            {
                {
                    Loud loud;
                    ds->data->unshuffle();
                }
                auto& d = *ds->data;
                for (int i = 0; i < n(); ++i)
                    if (!same(d.getTrainingData(i), ds->trainX[i]) || !same(d.getTrainingOutputs(i), ds->trainY[i]))
                        bad("unshuffle", "unshuffle does not restore the original order");
                checkSequences("after unshuffle");
                checkData("after unshuffle");
            }

            // ------------------------------------------------ what was presented
            // judges the events since the last call, which are those of one training (or evaluation) that is over
            void judge(bool training, bool complete, bool failed)
            {
                auto& ev = rec.events;
                const int per = n() / B;
                i64 trains = 0;
                std::vector<int> order;
                std::set<int> inEpoch, learnedHere;
                std::vector<int> past; // since the last reset (time series)
                int evalIndex = 0;
                bool nan = diverged;
                const size_t from = checked;
                checked = ev.size();
                for (size_t k = from; k < ev.size(); ++k)
                {
                    auto& e = ev[k];
                    const bool last = k + 1 == ev.size();
                    if (nan)
                        break;
                    if (e.nan)
                    {
                        nan = true;
                        break;
                    }
                    if (!e.train)
                    {
                        const int t = evalIndex;
                        evalIndex = (evalIndex + 1) % T();
                        if (!same(e.in, ds->testX[t]))
                        {
                            bad("evaluation", "an evaluation presents " + show(e.in) + " instead of test example " + std::to_string(t) + ", " + show(ds->testX[t]));
                            return;
                        }
                        if (e.learned)
                            bad("evaluation", "a test example is learned");
                        if (!nt())
                        {
                            const bool first = ts() ? t == 0 : std::find(ds->testSeq.begin(), ds->testSeq.end(), t) != ds->testSeq.end();
                            if (e.reset != first)
                                bad("reset", "test example " + std::to_string(t) + (first ? " begins a sequence without a temporal reset" : " is presented with a temporal reset in the middle of its sequence"));
                        }
                        continue;
                    }
                    if (evalIndex != 0 && !failed)
                    {
                        bad("evaluation", "an evaluation stopped after " + std::to_string(evalIndex) + " of " + std::to_string(T()) + " test examples");
                        return;
                    }
                    evalIndex = 0;
                    if (!training)
                    {
                        bad("exclusive", "an evaluation learns");
                        return;
                    }
                    const int pos = static_cast<int>(trains % per);
                    if (pos == 0)
                    {
                        inEpoch.clear();
                        order.clear();
                        learnedHere.clear();
                    }
                    ++trains;
                    if (e.learned && (e.desired.size() != e.out.size() || e.out.empty()))
                    {
                        bad("labels", "no error was computed from the outputs of an example");
                        return;
                    }
                    Vec expected(static_cast<size_t>(ds->outputs), 0.0f);
                    if (nt())
                    {
                        if (!e.learned && !(last && failed))
                        {
                            bad("not-learned", "an example is presented in training and not learned");
                            return;
                        }
                        std::vector<int> group;
                        if (B == 1)
                        {
                            const int i = rowOf(ds->trainX, e.in);
                            if (i >= 0)
                                group.push_back(i);
                            order.push_back(i);
                        }
                        else
                        {
                            for (int i = 0; i < n(); ++i)
                                if (std::fabs(e.in[static_cast<size_t>(i)]) > 1e-6f)
                                {
                                    if (!close(e.in[static_cast<size_t>(i)], 1.0f / static_cast<float>(B)))
                                        bad("batch", "a batch of " + std::to_string(B) + " is not the mean of its examples: " + show(e.in));
                                    group.push_back(i);
                                }
                        }
                        if (static_cast<int>(group.size()) != B)
                        {
                            bad("batch", "batch " + std::to_string(pos) + " has " + std::to_string(group.size()) + " examples instead of " + std::to_string(B) + ": " + show(e.in));
                            return;
                        }
                        for (int i : group)
                        {
                            if (!inEpoch.insert(i).second)
                            {
                                bad("twice", "example " + std::to_string(i) + " is learned twice in epoch " + std::to_string((trains - 1) / per + 1) + " of a training with batches of " + std::to_string(B));
                                return;
                            }
                            for (size_t c = 0; c < expected.size(); ++c)
                                expected[c] += ds->trainY[i][c] / static_cast<float>(B);
                        }
                    }
                    else if (!ts())
                    {
                        const int i = pos;
                        if (!same(e.in, ds->trainX[i]))
                        {
                            bad("order", "step " + std::to_string(i) + " of the epoch presents " + show(e.in) + " instead of " + show(ds->trainX[i]));
                            return;
                        }
                        const bool first = std::find(ds->trainSeq.begin(), ds->trainSeq.end(), i) != ds->trainSeq.end();
                        if (e.reset != first)
                            bad("reset", "training example " + std::to_string(i) + (first ? " begins a sequence without a temporal reset" : " is presented with a temporal reset in the middle of its sequence"));
                        if (!e.learned && !(last && failed))
                        {
                            bad("not-learned", "step " + std::to_string(i) + " is not learned");
                            return;
                        }
                        expected = ds->trainY[i];
                    }
                    else
                    {
                        const int i = rowOf(ds->trainX, e.in);
                        if (i < 0)
                        {
                            bad("altered", "a training presents " + show(e.in) + ", which was never given");
                            return;
                        }
                        if (e.reset)
                            past.clear();
                        else if (past.empty())
                        {
                            bad("reset", "the first example of a training is presented without a temporal reset");
                            return;
                        }
                        past.push_back(i);
                        if (e.learned)
                        {
                            const int want = std::min(i, ds->recurrences) + 1;
                            bool ok = static_cast<int>(past.size()) == want;
                            for (int j = 0; ok && j < want; ++j)
                                ok = past[static_cast<size_t>(j)] == i - want + 1 + j;
                            if (!ok)
                            {
                                std::string s;
                                for (int j : past)
                                    s += " " + std::to_string(j);
                                bad("window", "example " + std::to_string(i) + " of the series is learned after" + s + " since the reset, with " + std::to_string(ds->recurrences) + " recurrences");
                                return;
                            }
                            learnedHere.insert(i);
                            expected = ds->trainY[i];
                        }
                    }
                    if (e.learned)
                        for (size_t c = 0; c < expected.size(); ++c)
                            if (!close(expected[c], e.desired[c], 1e-3f))
                            {
                                bad("labels", "an example is learned with the expected output " + show(e.desired) + " instead of its own, " + show(expected));
                                return;
                            }
                    if (pos == per - 1 && !(last && failed))
                    {
                        count("probe.epoch");
                        if (nt() && B == 1)
                            orders.push_back(order);
                        if (ts())
                        {
                            learnedInEpoch.push_back(learnedHere);
                            const size_t w = static_cast<size_t>(ds->recurrences) + 1;
                            if (learnedInEpoch.size() >= w)
                            {
                                std::set<int> all;
                                for (size_t j = learnedInEpoch.size() - w; j < learnedInEpoch.size(); ++j)
                                    all.insert(learnedInEpoch[j].begin(), learnedInEpoch[j].end());
                                count("probe.window");
                                if (static_cast<int>(all.size()) != n())
                                    bad("coverage", "only " + std::to_string(all.size()) + " of the " + std::to_string(n()) + " examples are learned in " + std::to_string(w) + " epochs");
                            }
                        }
                    }
                }
                diverged = nan;
                if (nan)
                {
                    count("probe.diverged");
                    return;
                }
                if (training && !complete) // the data may have been shuffled for an epoch that did not begin
                    learnedInEpoch.clear();
                if (training && trains % per != 0)
                {
                    if (complete)
                        bad("incomplete", "the training ended after " + std::to_string(trains % per) + " of the " + std::to_string(per) + " batches of an epoch");
                }
                if (evalIndex != 0 && !failed)
                    bad("evaluation", "the last evaluation stopped after " + std::to_string(evalIndex) + " of " + std::to_string(T()) + " test examples");
                if (!failed && !noResults)
                    checkResults(from);
            }

            // the order is drawn again for each epoch
            void checkOrders()
            {
                if (!nt())
                    return;
                // drawn among all orders: with that many epochs, a fair draw misses one with a probability below 1e-10
                if (n() >= 2 && n() <= 6 && orders.size() >= 150)
                {
                    count("probe.draws", orders.size());
                    std::set<std::vector<int>> all(orders.begin(), orders.end());
                    if (n() <= 3 && all.size() != (n() == 2 ? 2u : 6u))
                        bad("not-drawn", "only " + std::to_string(all.size()) + " different orders in " + std::to_string(orders.size()) + " epochs");
                    std::set<std::pair<int, int>> places;
                    for (auto& o : orders)
                        for (int i = 0; i < n(); ++i)
                            places.insert({o[static_cast<size_t>(i)], i});
                    for (int e = 0; e < n(); ++e)
                        for (int i = 0; i < n(); ++i)
                            if (!places.count({e, i}))
                                bad("not-drawn", "example " + std::to_string(e) + " is never at place " + std::to_string(i) + " in " + std::to_string(orders.size()) + " epochs");
                }
                if (n() < 13)
                    return;
                std::vector<int> identity(static_cast<size_t>(n()));
                for (int i = 0; i < n(); ++i)
                    identity[static_cast<size_t>(i)] = i;
                std::vector<int> previousStep;
                for (size_t k = 0; k < orders.size(); ++k)
                {
                    count("probe.order");
                    const auto& before = k ? orders[k - 1] : identity;
                    if (orders[k] == before)
                        bad("same-order", "two consecutive epochs present the examples in the same order");
                    for (size_t j = 0; j < k; ++j)
                        if (orders[j] == orders[k])
                            bad("same-order", "two epochs present the examples in the same order");
                    std::vector<int> step(static_cast<size_t>(n())); // position before of what is at each position now
                    for (size_t i = 0; i < step.size(); ++i)
                        step[i] = static_cast<int>(std::find(before.begin(), before.end(), orders[k][i]) - before.begin());
                    if (step == previousStep)
                        bad("same-order", "two consecutive epochs change the order in the same way");
                    int unmoved = 0;
                    for (size_t i = 0; i < step.size(); ++i)
                        unmoved += step[i] == static_cast<int>(i);
                    if (n() >= 16 && unmoved >= n() - 2)
                        bad("same-order", "an epoch changes the order of two examples only");
                    previousStep = step;
                }
            }

            // accuracy and mean absolute error of the last evaluation, from the outputs seen and the labels given
            void checkResults(size_t from)
            {
                const auto& ev = rec.events;
                size_t end = ev.size();
                while (end > from && ev[end - 1].train)
                    --end;
                if (end < from + static_cast<size_t>(T()))
                    return;
                float error = 0;
                int judged = 0, good = 0;
                bool sure = true;
                for (int t = 0; t < T(); ++t)
                {
                    const auto& e = ev[end - static_cast<size_t>(T()) + static_cast<size_t>(t)];
                    if (e.train)
                        return;
                    if (ds->nature == snn::nature::sequential)
                    {
                        const bool lastOfSequence = t + 1 == T() || std::find(ds->testSeq.begin(), ds->testSeq.end(), t + 1) != ds->testSeq.end();
                        if (!lastOfSequence)
                            continue;
                    }
                    ++judged;
                    const auto& y = ds->testY[static_cast<size_t>(t)];
                    bool ok = true;
                    int best = -1;
                    float top = -2;
                    for (size_t c = 0; c < y.size(); ++c)
                    {
                        const float out = e.out[c], d = std::fabs(y[c] - out);
                        error += d;
                        if (ds->problem == snn::problem::multipleClassification)
                        {
                            ok = ok && (out > 0.5f) == (y[c] > 0.5f);
                            sure = sure && std::fabs(out - 0.5f) > 1e-5f;
                        }
                        else if (ds->problem == snn::problem::regression)
                        {
                            ok = ok && d <= 0.1f;
                            sure = sure && std::fabs(d - 0.1f) > 1e-5f;
                        }
                        else
                        {
                            sure = sure && std::fabs(out - top) > 1e-5f;
                            if (out > top)
                            {
                                top = out;
                                best = static_cast<int>(c);
                            }
                            sure = sure && out > -1.9f;
                        }
                    }
                    if (ds->problem == snn::problem::classification)
                        ok = best == classOf(y);
                    good += ok;
                }
                const float acc = static_cast<float>(good) / static_cast<float>(judged), mae = error / static_cast<float>(judged);
                count("probe.results");
                const auto st = statsOf(*net);
                if (!close(st.v[3], mae, 1e-3f))
                    bad("judged", "the mean absolute error is " + floatText(st.v[3]) + " and that of the outputs against the labels is " + floatText(mae));
                if (sure && !close(st.v[0], acc, 1e-5f))
                    bad("judged", "the accuracy is " + floatText(st.v[0]) + " and that of the outputs against the labels is " + floatText(acc));
            }

            // ------------------------------------------------ operations
            bool failing = false;

            void before()
            {
                if (!failing && id == 0)
                    for (auto& l : plan.all("oomnext"))
                        if (l.num(0) == opIndex)
                        {
                            armOom(l.num(1), l.num(2, 1));
                            failing = true;
                        }
            }

            bool after() // did an injected failure hit?
            {
                if (!failing)
                    return false;
                failing = false;
                return disarmOom();
            }

            int opIndex = 0;

            void run(const Line& l)
            {
                const auto op = l.str(0);
                if (op == "train")
                {
                    if (training)
                        stop();
                    B = static_cast<int>(l.num(2, 1));
                    F = static_cast<int>(l.num(3, 1));
                    const auto w = parseWait(l.str(1));
                    timeLimited = l.str(1).find('s') != std::string::npos; // ms or s
                    ++rec.session;
                    rec.evalInPass = 0;
                    before();
                    const auto err = thrown([&] { net->train(*ds->data, w, B, F); });
                    const bool failed = after();
                    if (!err.empty() && !failed)
                        bad("threw", "train threw " + err);
                    judge(true, !timeLimited && !failed, failed);
                    checkData("after a training");
                }
                else if (op == "start")
                {
                    if (training)
                        stop();
                    B = static_cast<int>(l.num(1, 1));
                    F = static_cast<int>(l.num(2, 1));
                    ++rec.session;
                    rec.evalInPass = 0;
                    before();
                    const auto err = thrown([&] { net->startTrainingAsync(*ds->data, B, F); });
                    training = err.empty();
                    if (!err.empty() && !after())
                        bad("threw", "startTrainingAsync threw " + err);
                }
                else if (op == "restart") // without stopping
                {
                    if (!training || failing)
                        return;
                    rec.evalInPass = 0;
                    ++rec.session;
                    const auto err = thrown([&] { net->startTrainingAsync(*ds->data, B, F); });
                    if (!err.empty())
                        bad("threw", "startTrainingAsync threw " + err);
                    restarted = true;
                }
                else if (op == "stop")
                    stop();
                else if (op == "until")
                {
                    const i64 want = rec.trains + rec.evals + l.num(1);
                    for (int i = 0; i < 4000 && training && rec.trains + rec.evals < want && net->isTraining(); ++i)
                    {
                        Loud loud;
                        if (rec.trainCost > 0 && i > 20)
                            consume(20000 + rec.trainCost / 4);
                        else
                            pause();
                    }
                }
                else if (op == "wait")
                {
                    if (training)
                    {
                        const auto w = parseWait(l.str(1));
                        thrown([&] { net->waitFor(w); });
                    }
                }
                else if (op == "spin")
                {
                    Loud loud;
                    for (i64 i = 0; i < l.num(1, 10); ++i)
                        pause();
                }
                else if (op == "evaluate")
                {
                    if (training)
                        stop();
                    rec.evalInPass = 0;
                    before();
                    const auto err = thrown([&] { net->evaluate(*ds->data); });
                    const bool failed = after();
                    if (!err.empty() && !failed)
                        bad("threw", "evaluate threw " + err);
                    const size_t from = checked;
                    const size_t seen = rec.events.size() - from;
                    judge(false, true, failed);
                    if (!failed && !diverged && seen != static_cast<size_t>(T()))
                        bad("evaluation", "evaluate presents " + std::to_string(seen) + " examples of " + std::to_string(T()));
                    checkData("after an evaluation");
                }
                else if (op == "shuffle")
                {
                    if (training)
                        stop();
                    {
                        Loud loud;
                        ds->data->shuffle();
                    }
                    learnedInEpoch.clear();
                    checkData("after shuffle");
                }
                else if (op == "unshuffle")
                {
                    if (training)
                        stop();
                    unshuffle();
                }
                else
                    error("unknown operation " + op);
            }

            bool restarted = false;

            void stop()
            {
                if (!training)
                    return;
                const auto err = thrown([&] { net->stopTrainingAsync(); });
                training = false;
                const bool failed = after();
                if (!err.empty() && !failed)
                    bad("threw", "stopTrainingAsync threw " + err);
                if (restarted) // the events of several trainings
                {
                    restarted = false;
                    learnedInEpoch.clear();
                    std::vector<Event> all(rec.events.begin() + static_cast<long>(checked), rec.events.end());
                    std::vector<Event> kept(rec.events.begin(), rec.events.begin() + static_cast<long>(checked));
                    int thread = -2;
                    std::vector<std::vector<Event>> parts;
                    for (auto& e : all)
                    {
                        if (e.thread != thread)
                            parts.emplace_back();
                        thread = e.thread;
                        parts.back().push_back(e);
                    }
                    rec.events = kept;
                    for (auto& p : parts)
                    {
                        rec.events.insert(rec.events.end(), p.begin(), p.end());
                        const bool lastPart = &p == &parts.back();
                        judgePart(failed && lastPart, lastPart);
                    }
                }
                else
                    judge(true, false, failed);
                checkData("after a stop");
            }

            void judgePart(bool failed, bool results)
            {
                // the statistics are those of the last part only
                if (results)
                    judge(true, false, failed);
                else
                {
                    noResults = true;
                    judge(true, false, failed);
                    noResults = false;
                }
            }
            bool noResults = false;

            void all()
            {
                checkSequences("before any training");
                for (auto& l : plan.all(opKey))
                {
                    run(l);
                    ++opIndex;
                }
                stop();
                checkOrders();
                checkData("at the end");
                if (plan.num("unshuffle"))
                    unshuffle();
                rec.manual = true;
            }
        };
    }

    void scenarioData(const Plan& plan, int)
    {
        Quiet q;
        concerns = [](const std::string&) { return false; };
        const auto nets = plan.all("net"), datas = plan.all("data");
        std::vector<Lane*> lanes;
        for (size_t k = 0; k < nets.size() && k < datas.size() && k < 2; ++k)
        {
            auto* l = new Lane(plan, static_cast<int>(k));
            if (plan.num("short")) // a series shorter than a window may be refused
            {
                const auto err = thrown([&] { l->ds = makeData(datas[k], static_cast<u64>(plan.num("seed")) + k); });
                count(err.empty() ? "probe.shortaccepted" : "probe.shortrefused");
                if (!err.empty())
                    return;
            }
            else
                l->ds = makeData(datas[k], static_cast<u64>(plan.num("seed")) + k);
            l->net = makeNet(nets[k]);
            l->rec.testLabels = l->ds->testY;
            l->rec.trainCost = plan.num("traincost");
            l->rec.evalCost = plan.num("evalcost");
            spyOn(*l->net, l->rec);
            lanes.push_back(l);
        }
        if (lanes.size() == 1)
            lanes[0]->all();
        else
        {
            std::vector<std::pair<u64, std::function<void()>>> fs;
            for (auto* l : lanes)
                fs.emplace_back(100 + static_cast<u64>(l->id), [l]
                {
                    Quiet q2;
                    l->all();
                });
            together(fs, plan.num("concurrent", 1) != 0);
        }
        for (auto* l : lanes)
            thrown([&] { dispose(l->net); });
    }
}
