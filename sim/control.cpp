// Scenario "control": a network trained, stopped, waited for, evaluated and destroyed by one or two callers.
#include "harness.hpp"
#include <algorithm>

namespace sim
{
    namespace
    {
        constexpr i64 ms = 1000000;
        constexpr i64 never = INT64_MAX;

        struct Crit { std::string unit; float value; i64 ns; };
        struct Cond
        {
            std::vector<Crit> crits;
            bool conj = false;
            bool has(const std::string& u) const
            {
                for (auto& c : crits)
                    if (c.unit == u)
                        return true;
                return false;
            }
        };

        Cond parseCond(const std::string& expression)
        {
            Cond c;
            std::string e; // which combines everything by && or everything by ||
            for (char x : expression)
                if (x != '(' && x != ')')
                    e += x;
            size_t i = 0;
            while (i <= e.size())
            {
                size_t j = i;
                while (j < e.size() && e[j] != '|' && e[j] != '&')
                    ++j;
                const std::string s = e.substr(i, j - i);
                char* end;
                const long double v = strtold(s.c_str(), &end);
                Crit k{end, static_cast<float>(v), 0};
                if (k.unit == "ms") k.ns = static_cast<i64>(v) * ms;
                if (k.unit == "s") k.ns = static_cast<i64>(v) * 1000 * ms;
                if (k.unit == "min") k.ns = static_cast<i64>(v) * 60000 * ms;
                if (k.ns > 0)
                    k.unit = "time";
                c.crits.push_back(k);
                if (j >= e.size())
                    break;
                if (e[j] == '&')
                    c.conj = true;
                i = j + 2;
            }
            return c;
        }

        enum State { Idle, Starting, Training, Stopping, Sync, Evaluating };

        struct Session
        {
            int id, B, F;
            bool sync = false;
            int thread = -1;
            int firstThread = 0; // the threads created since the training was asked for
            i64 trains = 0, trainsEnded = 0;
            int evalsSince = 0;       // since the last training example
            bool evaluationDue = true; // before the first example
            std::string expected;     // of train: the exact sequence
            bool hasExpected = false;
            size_t events = 0;
            bool nan = false;
            i64 nanAt = -1, nanInjected = 0;
            Stats atNan{};
            std::string fileAtNan;
            std::vector<i64> epochVisible; // when the trainer began the epoch after the k-th one
            std::vector<i64> epochDone;    // when the last example of the k-th one was finished
            Cond cond;
            bool hasCond = false, over = false;
            i64 begin = 0;
            std::vector<int> order; // training examples, with batches of one
        };

        struct Visible { float acc, mae; i64 from, sure, until; }; // an evaluation: visible in [from, until], the only one from `sure`

        struct Control
        {
            Plan plan;
            Net* net = nullptr;
            DataSet* ds = nullptr;
            Recorder rec;
            State state = Idle;
            u64 version = 0;
            std::vector<Session> sessions;
            int syncThread = -1, stopper = -1, stopTarget = -1;
            u64 stopYields = 0;
            int stopTrains = 0, stopEvals = 0;
            std::vector<Visible> visible;
            std::string snapshot;
            bool hasSnapshot = false;
            bool failures = false;   // an injected failure may end the training
            bool scripted = false;
            bool destroyed = false;
            bool delivered = true;   // no failure is waiting to be reported
            bool nanEver = false;    // the network does not learn any more
            std::string operation;
            int second = -1;
            bool secondOnlyReads = true;
            i64 injected() const
            {
                i64 s = 0;
                for (int t = 0; t < threads; ++t)
                    s += delayInjected(t);
                return s;
            }
            int threads = 1;

            Session& session() { return sessions.back(); }
            int testSize() const { return ds->testSize(); }
            i64 perEpoch(const Session& s) const { return ds->trainSize() / s.B; }

            void setState(State s)
            {
                state = s;
                ++version;
            }

            int expectedStatus() const
            {
                if (destroyed)
                    return -1;
                if (state == Idle || state == Evaluating)
                    return failures ? -1 : 0;
                if (state == Training)
                    return failures || nanEver ? -1 : 1;
                return -1;
            }

            // ---------------------------------------------------- the layers
            Session* sessionOf(int thread)
            {
                for (size_t i = sessions.size(); i-- > 0;)
                    if (sessions[i].sync ? thread == sessions[i].thread : thread >= sessions[i].firstThread)
                        return &sessions[i];
                return nullptr;
            }

            bool beingStopped(const Session& s) const { return (state == Stopping || state == Starting) && s.id == stopTarget; }

            void begin(const Event& e)
            {
                if (state == Evaluating)
                {
                    require(e.thread == syncThread && !e.train, "C01", "exclusive", "an example is presented by another thread than the caller of evaluate, or in training");
                    return;
                }
                if (state == Idle || destroyed)
                {
                    violated("C01", "after-stop", std::string(destroyed ? "the destructor" : "the stop") + " has returned and an example is still presented to the network by thread " + std::to_string(e.thread));
                    return;
                }
                Session* found = sessionOf(e.thread);
                if (found == nullptr || (found != &sessions.back() && !beingStopped(*found)))
                {
                    violated("C01", "exclusive", "an example is presented to the network by another thread (" + std::to_string(e.thread) + ") than the one of the training in progress");
                    return;
                }
                Session& s = *found;
                if (&s != &sessions.back())
                    require(sessions.back().events == 0, "C01", "exclusive", "a training that was to be stopped goes on although the next one has begun");
                if (s.events == 0)
                {
                    s.thread = e.thread;
                    threads = std::max(threads, e.thread + 1);
                    rec.evalInPass = 0;
                    if (s.id > 0)
                    {
                        const auto& old = sessions[static_cast<size_t>(s.id) - 1];
                        if (!old.sync && old.thread >= 0 && old.thread != e.thread)
                            require(finished(old.thread), "C01", "exclusive", "a new training presents examples while the previous one has not finished");
                    }
                }
                require(s.thread == e.thread, "C01", "exclusive", "two threads train the network at the same time");
                require(net->isTraining() || s.nan, "C02", "status", "isTraining() is false while a training presents examples");
                if (!visible.empty() && visible.back().sure == never)
                    visible.back().sure = now();
                if (visible.size() > 1 && visible[visible.size() - 2].until == never)
                    visible[visible.size() - 2].until = now();
                if (stopper >= 0 && beingStopped(s) && (waiting(stopper) || yieldsOf(stopper) > stopYields + 80))
                {
                    ++(e.train ? stopTrains : stopEvals);
                    require(stopTrains <= 1, "C01", "slow-stop", "the training goes on after the batch it was on when it was asked to stop");
                    require(stopEvals <= testSize(), "C01", "slow-stop", "more than one evaluation since the stop");
                }
                if (s.nan)
                    require(!e.train, "C18", "train-after-nan", "an example is presented for training after a NaN");
                schedule(s, e);
                ++s.events;
            }

            bool stopRequested(const Session& s) const { return beingStopped(s); }

            void schedule(Session& s, const Event& e)
            {
                if (s.hasExpected)
                {
                    const char c = e.train ? 'T' : 'E';
                    if (s.events >= s.expected.size())
                        violated("C05", "late", "the training goes on after its stop condition is met (after " + std::to_string(s.trains) + " batches, " + std::to_string(s.events) + " examples in all)");
                    else if (s.expected[s.events] != c)
                        violated("C05", "schedule", std::string("example ") + std::to_string(s.events) + " of the training is " + (e.train ? "learned" : "evaluated") + " where the other was expected, after " + std::to_string(s.trains) + " batches");
                }
                const i64 per = perEpoch(s);
                if (e.train)
                {
                    if (s.trains == 0 && s.F > 0)
                        require(!s.evaluationDue, "C05", "no-first-evaluation", "the training begins without an evaluation");
                    if (s.trains > 0 && s.trains % per == 0)
                    {
                        const i64 epoch = s.trains / per;
                        if (s.F > 0 && epoch % s.F == 0)
                            require(s.evalsSince == testSize(), "C05", "missing-evaluation", "epoch " + std::to_string(epoch) + " is followed by " + std::to_string(s.evalsSince) + " evaluated examples");
                        if (static_cast<i64>(s.epochVisible.size()) < epoch)
                            s.epochVisible.push_back(now());
                    }
                    if (s.hasCond && s.cond.has("time") && s.thread == e.thread && s.sync)
                        require(!surely(s) && !s.over, theProperty == "C05" ? "C05" : "C04", "late", "a batch begins although the time limit is over, " + std::to_string((now() - s.begin) / 1000) + " us after the beginning");
                    s.evalsSince = 0;
                    ++s.trains;
                }
                else
                {
                    require(s.F > 0, "C05", "unwanted-evaluation", "an evaluation takes place although the evaluation frequency is 0");
                    if (s.hasCond && s.cond.has("time") && s.sync && s.evalsSince == 0 && s.trains % per != 0 && surely(s))
                        s.over = true; // in the middle of an epoch, whatever this evaluation gives
                    if (s.evalsSince == 0)
                    {
                        const bool whole = s.trains % per == 0;
                        const i64 epoch = (s.trains + per - 1) / per;
                        const bool interrupted = stopRequested(s) || s.nan || (s.sync && s.hasCond && s.cond.has("time"));
                        if (s.trains == 0)
                            ; // the first one
                        else if (whole)
                            require(epoch % s.F == 0 || interrupted, "C05", "unwanted-evaluation", "an evaluation after epoch " + std::to_string(epoch) + " with a frequency of " + std::to_string(s.F));
                        else
                            require(interrupted, "C05", "unwanted-evaluation", "an evaluation in the middle of an epoch");
                    }
                    ++s.evalsSince;
                    if (s.evalsSince > testSize())
                        require(stopRequested(s) || s.nan || (s.hasCond && s.cond.has("time")), "C05", "unwanted-evaluation", "two evaluations without any training between them");
                }
            }

            // the condition of a synchronous training surely held when the trainer looked at it before the current example
            bool surely(const Session& s) const
            {
                bool any = false, all = true;
                for (auto& c : s.cond.crits)
                {
                    bool h = false;
                    if (c.unit == "time")
                        h = now() - s.begin - (injected() - injectedAtBegin) > c.ns + 3 * ms + rec.trainCost;
                    else if (c.unit == "ep")
                        h = static_cast<float>(s.epochVisible.size()) >= c.value;
                    else if (c.unit == "acc")
                        h = !visible.empty() && visible.back().acc >= c.value;
                    else if (c.unit == "mae")
                        h = !visible.empty() && visible.back().mae >= 0 && visible.back().mae <= c.value;
                    any = any || h;
                    all = all && h;
                }
                return s.cond.conj ? all : any;
            }
            i64 injectedAtBegin = 0;

            void end(const Event& e)
            {
                if (state == Idle || destroyed)
                    return;
                Session* s = state == Evaluating ? nullptr : sessionOf(e.thread);
                if (s != nullptr && s->events == 0)
                    s = nullptr;
                if (e.nan && s != nullptr && !s->nan)
                {
                    s->nan = nanEver = true;
                    s->nanAt = now();
                    s->nanInjected = injected();
                    s->atNan = statsOf(*net);
                    if (net->autoSaveWhenBetter)
                        s->fileAtNan = readFile(net->autoSaveFilePath);
                    ++version;
                    log("NaN");
                }
                if (s != nullptr && e.train)
                {
                    ++s->trainsEnded;
                    if (s->trainsEnded % perEpoch(*s) == 0)
                        s->epochDone.push_back(now());
                    if (s->B == 1)
                        s->order.push_back(identify(e.in));
                }
                if (!e.train)
                {
                    if (s != nullptr && rec.evalInPass == 0)
                        s->evaluationDue = false;
                    if (rec.evalInPass == 0 && scripted && !(s != nullptr && s->nan) && !e.nan)
                        addVisible(passOf(rec.passes - 1));
                }
            }

            void addVisible(std::pair<float, float> v)
            {
                visible.push_back({v.first, v.second, now(), never, never});
            }

            int identify(const Vec& in) const
            {
                for (int i = 0; i < ds->trainSize(); ++i)
                    if (same(in, ds->trainX[i]))
                        return i;
                return -1;
            }

            // accuracy and mean absolute error of a scripted evaluation
            std::pair<float, float> passOf(int n) const
            {
                if (rec.script.empty())
                    return {0, -1};
                const auto& p = rec.script[std::min<size_t>(std::max(n, 0), rec.script.size() - 1)];
                const int T = testSize(), wrong = T - p.correct;
                const float acc = static_cast<float>(p.correct) / static_cast<float>(T);
                float err;
                if (rec.classification)
                    err = static_cast<float>(wrong * ds->outputs);
                else
                    err = p.good * static_cast<float>(p.correct) + p.bad * static_cast<float>(wrong);
                return {acc, err / static_cast<float>(T)};
            }

            // the exact sequence of examples of a synchronous training without time limit
            std::string model(const Cond& c, int B, int F)
            {
                std::string r;
                const int T = testSize(), per = ds->trainSize() / B;
                const auto st = statsOf(*net);
                float acc = st.v[0], mae = st.v[3];
                int pass = rec.passes;
                const auto over = [&](int done)
                {
                    bool any = false, all = true;
                    for (auto& k : c.crits)
                    {
                        const bool h = k.unit == "ep" ? static_cast<float>(done) >= k.value : k.unit == "acc" ? acc > 0 && acc >= k.value : mae >= 0 && mae <= k.value;
                        any = any || h;
                        all = all && h;
                    }
                    return c.conj ? all : any;
                };
                const auto evaluation = [&]
                {
                    r += std::string(static_cast<size_t>(T), 'E');
                    const auto v = passOf(pass++);
                    acc = v.first;
                    mae = v.second;
                };
                if (F > 0)
                    evaluation();
                for (int e = 1; !over(e - 1); ++e)
                {
                    r += std::string(static_cast<size_t>(per), 'T');
                    if (F > 0 && e % F == 0)
                        evaluation();
                    if (r.size() > 200000)
                        error("the condition never holds");
                }
                return r;
            }

            // ---------------------------------------------------- snapshots of the idle network
            void idle()
            {
                setState(Idle);
                stopper = -1;
                if (destroyed || failures)
                    return;
                snapshot = observable(*net, false);
                hasSnapshot = true;
            }

            void checkSnapshot()
            {
                if (hasSnapshot && !destroyed && state == Idle)
                    require(snapshot == observable(*net, false), "C01", "changed-when-idle", "the network changed although no training was in progress:\n" + snapshot + "\nnow\n" + observable(*net, false));
            }

            void status(const char* when)
            {
                if (destroyed)
                    return;
                const u64 v = version;
                const int e = expectedStatus();
                bool r;
                {
                    Loud loud;
                    pause();
                    r = net->isTraining();
                    pause();
                }
                note(static_cast<u64>(r));
                if (v == version && e == expectedStatus() && e >= 0)
                {
                    count("probe.status");
                    require(r == (e == 1), "C02", "status", std::string("isTraining() is ") + (r ? "true" : "false") + " " + when + (e == 1 ? ", during a training" : ", without any training"));
                }
            }

            void unexpected(const char* property, const std::string& what, const std::string& err)
            {
                if (!err.empty() && !failures)
                    violated(property, "threw", what + " threw: " + err);
            }

            // ---------------------------------------------------- failures
            u64 firedIo = 0;

            void arm()
            {
                for (auto& l : plan.all("oom"))
                    armOom(l.num(0), l.num(1, 1));
                firedIo = ioFired();
                armIo(true);
                if (plan.num("threadfail"))
                    armThreadFailure(plan.num("threadfail"));
            }

            bool failed() const { return oomFired() || ioFired() > firedIo || threadFailureFired() || badLabels(); }

            bool disarm()
            {
                bool f = disarmOom();
                f = f || ioFired() > firedIo || threadFailureFired();
                armIo(false);
                armThreadFailure(0);
                return f;
            }

            // ---------------------------------------------------- operations
            void newSession(int B, int F, bool sync)
            {
                hasSnapshot = false;
                Session s{static_cast<int>(sessions.size()), B, F};
                s.sync = sync;
                s.thread = sync ? self() : -1;
                s.firstThread = threadCount();
                s.begin = now();
                injectedAtBegin = injected();
                sessions.push_back(s);
                rec.session = s.id;
            }

            void beginStop()
            {
                stopper = self();
                stopYields = yieldsOf(stopper);
                stopTrains = stopEvals = 0;
                stopTarget = static_cast<int>(sessions.size()) - 1;
            }

            void opStart(int B, int F)
            {
                operation = "start";
                checkSnapshot();
                const bool wasTraining = state == Training;
                const bool failedBefore = !delivered;
                if (!sessions.empty())
                    closeSession();
                beginStop();
                const int old = sessions.empty() ? -1 : sessions.back().thread;
                newSession(B, F, false);
                setState(Starting);
                log("start");
                const auto err = thrown([&] { net->startTrainingAsync(*ds->data, B, F); });
                log("started " + err);
                if (err.empty())
                {
                    require(!failedBefore, "C13", "lost", "a training that had failed is restarted and its exception is lost");
                    setState(Training);
                    if (wasTraining && old >= 0)
                        require(finished(old), "C01", "exclusive", "the new training is started and the thread of the previous one is still alive");
                }
                else
                {
                    unexpected("C01", "startTrainingAsync", err);
                    delivered = true;
                    failuresDone();
                    idle();
                    require(!net->isTraining(), "C13/C02", "status", "isTraining() is true after startTrainingAsync threw " + err);
                }
            }

            void failuresDone() {}

            void opStop(bool destroy)
            {
                operation = destroy ? "destroy" : "stop";
                if (destroyed)
                    return;
                checkSnapshot();
                closeSession();
                const bool wasTraining = state == Training;
                beginStop();
                if (wasTraining)
                    setState(Stopping);
                log(operation);
                std::string err;
                if (destroy)
                {
                    if (!wasTraining)
                        setState(Idle);
                    err = thrown([&] { dispose(net); });
                    destroyed = true;
                    memset(static_cast<void*>(net), 0xDD, sizeof(Net));
                }
                else
                    err = thrown([&] { net->stopTrainingAsync(); });
                log(operation + " returned " + err);
                if (!failures)
                    unexpected("C01", "stopTrainingAsync", err);
                else if (!destroy)
                    afterFailure(err);
                if (!destroy)
                    require(!net->isTraining(), "C02", "status", "isTraining() is true after stopTrainingAsync returned");
                idle();
                ++version;
            }

            // what must hold of a session before it is stopped
            void closeSession()
            {
                if (sessions.empty() || destroyed)
                    return;
                checkCoverage(sessions.back());
            }

            void checkCoverage(const Session& s, const char* property = "C02", const char* kind = "disturbed")
            {
                if (s.B != 1 || ds->nature != snn::nature::nonTemporal)
                    return;
                const size_t n = static_cast<size_t>(ds->trainSize());
                std::vector<int> seen(n, -1);
                for (size_t i = 0; i < s.order.size(); ++i)
                {
                    const int x = s.order[i];
                    require(x >= 0 && seen[x] != static_cast<int>(i / n), property, kind, "the training presents " + (x < 0 ? std::string("an unknown example") : "example " + std::to_string(x) + " twice in epoch " + std::to_string(i / n + 1)));
                    if (x >= 0)
                        seen[x] = static_cast<int>(i / n);
                }
            }

            void opWait(const std::string& expr, bool mainThread)
            {
                if (destroyed)
                    return;
                const auto c = parseCond(expr);
                const bool timeOnly = c.crits.size() == 1 && c.has("time");
                if (mainThread)
                    operation = timeOnly ? "waittime" : "wait";
                if (state != Training && !timeOnly)
                    return;
                const i64 t0 = now(), inj0 = injected();
                const size_t sid = sessions.size();
                if (state == Training && (c.has("acc") || c.has("mae")) && !scripted)
                    return;
                snn::Wait w;
                {
                    w = parseWait(expr);
                }
                log("wait " + expr);
                const auto err = thrown([&] { net->waitFor(w); });
                const i64 t1 = now();
                log("wait returned");
                unexpected("C03", "waitFor", err);
                if (sid != sessions.size() || (state == Training && sid == 0))
                    return;
                const Session* s = state == Training ? &sessions.back() : nullptr;
                const i64 inj = injected() - inj0;
                count("probe.wait");
                // not too early
                const i64 lookedAt = std::max(t0, sleepsDone(self()) ? lastWake(self()) : t0);
                bool any = false, all = true;
                std::string why;
                for (auto& k : c.crits)
                {
                    bool h = false;
                    if (k.unit == "time")
                        h = t1 - t0 >= k.ns;
                    else if (k.unit == "ep")
                        h = s && s->epochDone.size() >= static_cast<size_t>(k.value);
                    else
                        for (auto& v : visible)
                            if (v.from <= t1 && v.until >= lookedAt)
                                h = h || (k.unit == "acc" ? v.acc > 0 && v.acc >= k.value : v.mae >= 0 && v.mae <= k.value);
                    any = any || h;
                    all = all && h;
                }
                const bool ended = nanEver || (s && (failures && (failed() || !net->isTraining())));
                const char* prop = timeOnly ? "C04" : "C03";
                if (!(c.conj ? all : any) && !ended)
                {
                    const bool timed = c.has("time") && c.crits.size() == 1;
                    violated(timed ? "C04" : "C03", "early", "waitFor(" + expr + ") returned after " + std::to_string((t1 - t0) / 1000) + " us, " + std::to_string(s ? s->epochDone.size() : 0)
                        + " epochs of this training" + (visible.empty() ? "" : ", latest accuracy " + floatText(visible.back().acc) + " error " + floatText(visible.back().mae)));
                }
                // not too late
                i64 since = c.conj ? 0 : never;
                for (auto& k : c.crits)
                {
                    i64 h = never;
                    if (k.unit == "time")
                        h = t0 + k.ns;
                    else if (k.unit == "ep")
                    {
                        const auto n = static_cast<size_t>(k.value);
                        if (n == 0)
                            h = t0;
                        else if (s && s->epochVisible.size() >= n)
                            h = s->epochVisible[n - 1];
                    }
                    else
                        for (size_t i = visible.size(); i-- > 0;)
                        {
                            const auto& v = visible[i];
                            if (!(k.unit == "acc" ? v.acc > 0 && v.acc >= k.value : v.mae >= 0 && v.mae <= k.value))
                                break;
                            if (v.sure != never)
                                h = v.sure;
                        }
                    since = c.conj ? std::max(since, h) : std::min(since, h);
                }
                i64 delayed = inj;
                if (s && s->nan)
                {
                    since = std::min(since, s->nanAt);
                    delayed = std::max(delayed, injected() - s->nanInjected); // the trainer may have been stalled since, before the wait
                }
                if (s && failures && s->thread >= 0 && finished(s->thread))
                    since = std::min(since, doneAt(s->thread));
                if (since != never)
                {
                    count("probe.waitdue");
                    const i64 late = t1 - std::max(since, t0) - delayed;
                    if (late > 60 * ms)
                        violated(timeOnly && (failures || (s && s->nan)) ? "C13/C18" : s && s->nan ? "C18/C03" : failures ? "C13/C03" : prop, "late", "waitFor(" + expr + ") returned " + std::to_string(late / 1000) + " us after its condition was met for good");
                }
            }

            void opTrain(const std::string& expr, int B, int F)
            {
                if (destroyed)
                    return;
                operation = "train";
                if (state == Training)
                {
                    guard("train");
                    return;
                }
                checkSnapshot();
                const auto c = parseCond(expr);
                if ((c.has("acc") || c.has("mae")) && !scripted)
                    return;
                operation = c.has("time") ? "traintime" : "train";
                newSession(B, F, true);
                auto& s = session();
                s.cond = c;
                s.hasCond = true;
                if (!c.has("time") && !failures && rec.nanPass < 0 && rec.nanTrain < 0 && (scripted || !(c.has("acc") || c.has("mae"))))
                {
                    s.expected = model(c, B, F);
                    s.hasExpected = true;
                }
                syncThread = self();
                const auto w = parseWait(expr);
                setState(Sync);
                const i64 t0 = now();
                log("train " + expr);
                const auto err = thrown([&] { net->train(*ds->data, w, B, F); });
                const i64 t1 = now();
                log("trained " + err + " " + show(statsOf(*net)));
                count("probe.train");
                const bool threw = !err.empty();
                unexpected("C05", "train", err);
                if (failures)
                    afterFailure(err);
                auto& se = session();
                if (se.nan)
                    checkNan(se);
                else if (!threw)
                {
                    if (se.hasExpected)
                        require(se.events == se.expected.size(), "C05", "early", "train(" + expr + ") ended after " + std::to_string(se.trains) + " batches (" + std::to_string(se.events) + " examples in all), "
                            + std::to_string(std::count(se.expected.begin(), se.expected.end(), 'T')) + " expected (" + std::to_string(se.expected.size()) + ")");
                    else if (c.has("time"))
                    {
                        bool any = false, all = true;
                        for (auto& k : c.crits)
                        {
                            bool h = false;
                            if (k.unit == "time")
                                h = t1 - t0 >= k.ns;
                            else if (k.unit == "ep")
                                h = se.epochDone.size() >= static_cast<size_t>(k.value);
                            else
                                for (auto& v : visible)
                                    if (v.until >= t0)
                                        h = h || (k.unit == "acc" ? v.acc > 0 && v.acc >= k.value : v.mae >= 0 && v.mae <= k.value);
                            any = any || h;
                            all = all && h;
                        }
                        require(c.conj ? all : any, theProperty == "C05" ? "C05" : "C04", "early", "train(" + expr + ") ended after " + std::to_string((t1 - t0) / 1000) + " us");
                        if (c.crits.size() == 1)
                        {
                            i64 slow = 0;
                            for (auto& x : rec.slowEvents)
                                slow += x.second;
                            const i64 most = c.crits[0].ns + rec.trainCost + 2 * testSize() * rec.evalCost + slow + injected() - injectedAtBegin + 10 * ms;
                            require(t1 - t0 <= most, "C04", "late", "train(" + expr + ") ended after " + std::to_string((t1 - t0) / 1000) + " us");
                        }
                    }
                    checkCoverage(se);
                }
                require(!net->isTraining(), threw ? "C13/C02" : "C02", "status", "isTraining() is true after train returned");
                idle();
            }

            // calls refused during a training
            void guard(const std::string& what)
            {
                if (destroyed)
                    return;
                const u64 v = version;
                const int e = expectedStatus();
                if (e < 0)
                    return;
                if (e == 0 && self() != 0)
                    return; // the main thread may start at any time
                const auto before = listFiles();
                std::string err;
                bool made = false;
                const State saved = state;
                if (what == "saveas")
                    err = thrown([&] { net->saveAs("guard.snn"); });
                else if (what == "copy")
                    err = thrown([&]
                    {
                        Net copy(*net);
                        made = true;
                    });
                else if (what == "evaluate")
                {
                    if (e == 0)
                    {
                        syncThread = self();
                        rec.evalInPass = 0;
                        hasSnapshot = false;
                        setState(Evaluating);
                    }
                    err = thrown([&] { net->evaluate(*ds->data); });
                    if (e == 0)
                    {
                        idle();
                        unexpected("C02", "evaluate on an idle network", err);
                        return;
                    }
                }
                else if (what == "train")
                {
                    if (e == 0)
                        return;
                    err = thrown([&] { net->train(*ds->data, parseWait("1ep")); });
                }
                else if (what == "bitmap")
                    err = thrown([&] { net->saveFeatureMapsAsBitmap("guard"); });
                else if (what == "filters")
                {
                    if (e == 0)
                        return;
                    err = thrown([&] { net->saveFilterLayersAsBitmap("guard", *ds->data, 0); });
                }
                if (v != version && what != "evaluate")
                    return;
                log("guard " + what + " " + err);
                if (e == 1)
                {
                    count("probe.guard");
                    require(!err.empty(), "C02", "not-refused", what + " is not refused during a training");
                    require(state == saved && net->isTraining(), "C02", "disturbed", what + " was refused and the training is over");
                    if (!net->autoSaveWhenBetter)
                        require(before == listFiles(), "C02", "file", what + " was refused and changed the files");
                }
                else
                {
                    unexpected("C02", what + " on an idle network", err);
                    if (what == "saveas")
                        require(exists("guard.snn"), "C02", "file", "saveAs returned and there is no file");
                    snapshot = observable(*net, false);
                }
            }

            void badStart(const std::string& kind)
            {
                if (destroyed)
                    return;
                static std::map<std::string, DataSet*> bad;
                const bool sync = kind.back() == '!';
                const std::string k = sync ? kind.substr(0, kind.size() - 1) : kind;
                Line l;
                const std::string in = std::to_string(ds->inputs + (k == "inputs")), out = std::to_string(ds->outputs + (k == "outputs"));
                const std::string prob = ds->problem == snn::problem::regression ? "reg" : ds->problem == snn::problem::classification ? "cls" : "multi";
                l.args = {"nt", prob, in, out, "4", "2"};
                if (k == "temporal")
                    l.args = {"seq", prob, in, out, "4", "2", "7", "lens=3,2", "tlens=2"};
                if (!bad.contains(k))
                    bad[k] = makeData(l, 99);
                DataSet* d = k == "inputs" || k == "outputs" || k == "temporal" ? bad[k] : ds;
                const int B = k == "zero" ? 0 : k == "negative" ? -3 : k == "large" ? ds->trainSize() + 1 : k == "temporal" ? 2 : 1;
                const u64 v = version;
                const int e = expectedStatus();
                const auto before = e == 0 ? observable(*net) : std::string();
                const auto err = thrown([&]
                {
                    if (sync)
                        net->train(*d->data, parseWait("1ep"), B, 1);
                    else
                        net->startTrainingAsync(*d->data, B, 1);
                });
                log("bad start " + kind + ": " + err);
                if (v != version || e < 0)
                    return;
                count("probe.badstart");
                require(!err.empty(), "C02", "accepted", "a training is accepted with wrong data or a wrong batch size (" + kind + ")");
                require(net->isTraining() == (e == 1), "C02", "disturbed", "a start was refused (" + kind + ") and isTraining() is now " + std::to_string(net->isTraining()));
                if (e == 0)
                    require(before == observable(*net), "C02", "disturbed", "a start was refused (" + kind + ") and the network changed");
                else
                {
                    // the training in progress goes on
                    const i64 seen = rec.trains + rec.evals;
                    const i64 limit = now() + 200 * ms + 20 * (rec.trainCost + rec.evalCost);
                    i64 inj0 = injected();
                    while (rec.trains + rec.evals <= seen && now() < limit + injected() - inj0 && version == v)
                    {
                        Loud loud;
                        consume(ms);
                    }
                    require(version != v || rec.trains + rec.evals > seen, "C02", "disturbed", "a start was refused (" + kind + ") and the training in progress does not advance any more");
                }
            }

            // ---------------------------------------------------- NaN
            void opAwaitEnd()
            {
                operation = "awaitend";
                if (state != Training)
                    return;
                auto& s = session();
                const i64 inj0 = injected();
                i64 limit = now() + 300 * ms + 4 * (rec.trainCost + rec.evalCost * testSize());
                const i64 wanted = rec.nanTrain >= 0 ? (rec.nanTrain + 2) * (rec.trainCost + rec.evalCost * testSize()) + 200 * ms : (rec.nanPass + 2) * (rec.evalCost * testSize() + rec.trainCost * ds->trainSize()) + 200 * ms;
                limit += wanted;
                bool r = true;
                while (now() < limit + injected() - inj0)
                {
                    {
                        Loud loud;
                        consume(ms);
                        r = net->isTraining();
                    }
                    if (!r)
                        break;
                }
                if (s.nan)
                {
                    require(!r, "C18/C02", "endless", "the training has not ended " + std::to_string((now() - s.nanAt) / 1000) + " us after a NaN");
                    checkNan(s);
                }
            }

            void checkNan(const Session& s)
            {
                if (!s.nan || destroyed || net->isTraining())
                    return;
                count("probe.nan");
                require(net->hasNan(), "C18", "silent", "the network output a NaN and hasNan() is false");
                const auto st = statsOf(*net);
                for (int i = 0; i < 5; ++i)
                    require(std::isnan(st.v[i]), "C18", "statistics", "the training ended because of a NaN and the statistics are " + show(st));
                for (int i = 5; i < 10; ++i)
                    require(st.v[i] == s.atNan.v[i], "C18", "best", "the best results changed after a NaN: " + show(s.atNan) + " then " + show(st));
                if (net->autoSaveWhenBetter)
                    require(s.fileAtNan == readFile(net->autoSaveFilePath), "C18", "file", "the auto saved file changed after a NaN");
                bool after = false;
                for (auto& e : rec.events)
                    if (e.session == s.id)
                    {
                        after = after || e.nan;
                        if (after)
                            require(!e.learned, "C18", "learned", "something is learned after a NaN");
                    }
            }

            // ---------------------------------------------------- failures
            void afterFailure(const std::string& err)
            {
                const bool fired = disarm() || badLabels();
                const bool must = fired;
                if (must)
                {
                    count("probe.failure");
                    require(!err.empty(), "C13", "lost", "a training failed (" + what() + ") and neither train, startTrainingAsync nor stopTrainingAsync reported it");
                }
                else
                    require(err.empty(), "C13", "threw", "no failure was injected and the training threw " + err);
                delivered = true;
            }

            bool badLabels() const { return plan.num("badlabel", -1) >= 0 && labelReached; }
            bool labelReached = false;

            std::string what() const
            {
                for (auto& l : plan.lines)
                    if (l.key == "oom" || l.key == "io" || l.key == "full" || l.key == "threadfail" || l.key == "badlabel")
                        return l.key + " " + l.str(0) + " " + l.str(1) + " " + l.str(2);
                return "?";
            }

            // one training with a failure, then one without
            void failureScenario();

            void run(const Line& l, bool mainThread)
            {
                const auto op = l.str(0);
                if (mainThread && second >= 0 && !secondOnlyReads && op != "status" && op != "wait" && op != "sleep" && op != "spin")
                    joinSecond();
                if (op == "start")
                    destroyed ? (void)0 : opStart(static_cast<int>(l.num(1, 1)), static_cast<int>(l.num(2, 1)));
                else if (op == "stop")
                    opStop(false);
                else if (op == "destroy")
                    opStop(true);
                else if (op == "wait")
                    opWait(l.str(1), mainThread);
                else if (op == "train")
                    opTrain(l.str(1), static_cast<int>(l.num(2, 1)), static_cast<int>(l.num(3, 1)));
                else if (op == "sleep")
                {
                    Loud loud;
                    consume(l.num(1) * 1000);
                }
                else if (op == "spin")
                {
                    Loud loud;
                    for (i64 i = 0; i < l.num(1, 10); ++i)
                        pause();
                }
                else if (op == "until") // until that many examples were presented
                {
                    const i64 want = rec.trains + rec.evals + l.num(1);
                    const i64 limit = now() + 2000 * ms;
                    for (int i = 0; i < 2000 && rec.trains + rec.evals < want && now() < limit && state == Training && !session().nan; ++i)
                    {
                        Loud loud;
                        pause();
                        if (rec.trainCost > 0 || l.num(2) || i > 200)
                            consume(20000 + rec.trainCost / 4);
                    }
                }
                else if (op == "status")
                    for (i64 i = 0; i < l.num(1, 1); ++i)
                        status("");
                else if (op == "bad")
                    badStart(l.str(1));
                else if (op == "guard")
                    guard(l.str(1));
                else if (op == "awaitend")
                    opAwaitEnd();
                else if (op == "fork")
                    forkSecond();
                else if (op == "join")
                    joinSecond();
                else if (op == "mix")
                {
                    const auto err = thrown([&] { parseWait(l.str(1)); });
                    require(!err.empty(), "C05", "mixed", "an expression mixing || and && is accepted: " + l.str(1));
                }
                else if (op == "check")
                    checkAfterNan();
                else
                    error("unknown operation " + op);
            }

            void checkAfterNan() // the network can still be used
            {
                if (destroyed || state != Idle || !net->hasNan())
                    return;
                operation = "check";
                const auto st = statsOf(*net);
                auto err = thrown([&]
                {
                    Net copy(*net);
                    Quiet q;
                    require(same(statsOf(copy), st), "C18", "copy", "the copy of a network with a NaN has other statistics: " + show(statsOf(copy)) + " for " + show(st));
                });
                require(err.empty(), "C18", "copy", "a network that output a NaN cannot be copied: " + err);
                err = thrown([&] { net->saveAs("nan.snn"); });
                require(err.empty(), "C18", "save", "a network that output a NaN cannot be saved: " + err);
                err = thrown([&]
                {
                    Net& l = Net::loadFrom("nan.snn");
                    Quiet q;
                    require(same(statsOf(l), st), "C18", "load", "the saved network has other statistics: " + show(statsOf(l)) + " for " + show(st));
                    require(same(weightsOf(l), weightsOf(*net)), "C18", "load", "the saved network has other weights");
                    delete &l;
                });
                require(err.empty(), "C18", "load", "a network that output a NaN cannot be loaded after being saved: " + err);
                snapshot = observable(*net, false);
            }

            void forkSecond()
            {
                const auto ops = plan.all("op2");
                if (ops.empty() || second >= 0)
                    return;
                secondOnlyReads = true;
                for (auto& l : ops)
                    if (l.str(0) != "status" && l.str(0) != "spin" && l.str(0) != "sleep")
                        secondOnlyReads = false;
                ++threads;
                second = spawn(777, [this, ops]
                {
                    Quiet q;
                    for (auto& l : ops)
                    {
                        const auto op = l.str(0);
                        if (op == "status" || op == "spin" || op == "sleep" || op == "wait" || op == "guard")
                            run(l, false);
                    }
                });
            }

            void joinSecond()
            {
                if (second < 0)
                    return;
                const int t = second;
                operation = secondOnlyReads ? "join" : "wait";
                join(t);
                second = -1;
            }
        };

        Control* C = nullptr;
    }

    void Control::failureScenario()
    {
        // ops of the plan: "mode sync|async", "then wait|stop|start|destroy|none"
        failures = true;
        const bool async = plan.str("mode", "sync") == "async";
        const int epochs = static_cast<int>(plan.num("epochs", 2)), B = static_cast<int>(plan.num("batch", 1)), F = static_cast<int>(plan.num("freq", 1));
        const std::string then = plan.str("then", "stop");
        const i64 bad = plan.num("badlabel", -1);
        const std::string expr = std::to_string(epochs) + "ep";
        const auto status0 = [&](const char* when)
        {
            bool r;
            {
                Loud loud;
                r = net->isTraining();
            }
            require(!r, "C13/C02", "status", std::string("isTraining() is true ") + when);
        };
        const u64 fired0 = 0;
        (void)fired0;
        arm();
        if (bad >= 0)
            labelReached = F > 0; // the first evaluation meets it
        bool reported = false;
        if (!async)
        {
            newSession(B, F, true);
            syncThread = self();
            setState(Sync);
            operation = "train";
            const auto err = thrown([&] { net->train(*ds->data, parseWait(expr), B, F); });
            log("train: " + err);
            afterFailure(err);
            reported = !err.empty();
            status0("after train threw");
            setState(Idle);
        }
        else
        {
            newSession(B, F, false);
            setState(Starting);
            operation = "start";
            auto err = thrown([&] { net->startTrainingAsync(*ds->data, B, F); });
            log("start: " + err);
            if (!err.empty())
            {
                afterFailure(err);
                reported = true;
                setState(Idle);
                status0("after startTrainingAsync threw");
                err = thrown([&] { net->stopTrainingAsync(); });
                require(err.empty(), "C13", "twice", "stopTrainingAsync throws again after startTrainingAsync threw: " + err);
            }
            else
            {
                setState(Training);
                if (plan.num("early") == 0)
                {
                    // until the failure, or long enough
                    operation = "wait";
                    opWait(expr + "||3000ms", true);
                }
                {
                    Loud loud;
                    for (i64 i = 0; i < plan.num("pauses", 5); ++i)
                        pause();
                }
                const int trainer = session().thread;
                const bool over = trainer >= 0 && finished(trainer);
                if (over)
                {
                    status0("although the training has failed");
                    if (plan.num("waitafter"))
                    {
                        operation = "wait";
                        opWait("9999ep", true);
                    }
                }
                if (then == "destroy")
                {
                    operation = "stop";
                    beginStop();
                    setState(Stopping);
                    err = thrown([&] { dispose(net); });
                    destroyed = true;
                    require(err.empty(), "C13", "destructor", "the destructor throws");
                    memset(static_cast<void*>(net), 0xDD, sizeof(Net));
                    disarm();
                    return;
                }
                if (then == "start")
                {
                    const int started = session().firstThread < threadCount() ? session().firstThread : -1;
                    operation = "start";
                    beginStop();
                    newSession(B, F, false);
                    setState(Starting);
                    err = thrown([&] { net->startTrainingAsync(*ds->data, B, F); });
                    log("restart: " + err);
                    if (err.empty())
                    {
                        setState(Training);
                        require(!over, "C13", "lost", "a training failed and the next start did not report it");
                        operation = "stop";
                        beginStop();
                        setState(Stopping);
                        err = thrown([&] { net->stopTrainingAsync(); });
                    }
                    else if (started >= 0 && !finished(started)) // refused before it stopped the training in progress
                    {
                        sessions.pop_back();
                        rec.session = sessions.back().id;
                        operation = "stop";
                        beginStop();
                        setState(Stopping);
                        const auto stopped = thrown([&] { net->stopTrainingAsync(); });
                        require(stopped.empty(), "C13", "threw", "a start was refused (" + err + ") and the training in progress threw " + stopped);
                    }
                    afterFailure(err);
                }
                else
                {
                    operation = "stop";
                    beginStop();
                    setState(Stopping);
                    err = thrown([&] { net->stopTrainingAsync(); });
                    log("stop: " + err);
                    afterFailure(err);
                }
                reported = !err.empty();
                setState(Idle);
                status0("after stopTrainingAsync");
                err = thrown([&] { net->stopTrainingAsync(); });
                require(err.empty(), "C13", "twice", "stopTrainingAsync throws twice: " + err);
            }
        }
        (void)reported;
        disarm();
        // a later training, with the fault gone
        failures = false;
        DataSet* good = ds;
        if (bad >= 0)
        {
            ds = makeData(plan.all("data")[0], static_cast<u64>(plan.num("seed")));
            rec.testLabels = ds->testY;
        }
        (void)good;
        for (int k = 0; k < 2 && !nanEver; ++k)
        {
            rec.evalInPass = 0;
            if (then == "wait" || k == 1)
            {
                opStart(B, F);
                require(state == Training, "C13", "unusable", "no training can be started after a failure");
                opWait("2ep", true);
                opStop(false);
                require(session().epochDone.size() >= 2, "C13", "unusable", "the training after a failure has not made its epochs");
            }
            else
            {
                opTrain("2ep", B, F);
                require(session().epochDone.size() == 2, "C13", "unusable", "the training after a failure has made " + std::to_string(session().epochDone.size()) + " epochs instead of 2");
            }
            checkCoverage(session(), "C13", "unusable");
        }
    }

    void scenarioControl(const Plan& plan, int)
    {
        Quiet q;
        auto* c = new Control;
        C = c;
        c->plan = plan;
        concerns = [c](const std::string&)
        {
            static const std::map<std::string, std::string> m{{"start", "C01"}, {"stop", "C01"}, {"destroy", "C01"}, {"wait", "C03"}, {"waittime", "C04"},
                                                              {"train", "C05"}, {"traintime", "C04"}, {"awaitend", "C18"}};
            std::string p = theProperty;
            const auto it = m.find(c->operation);
            if (it != m.end())
                p = it->second;
            if (c->failures)
                p = "C13";
            if (!c->sessions.empty() && c->sessions.back().nan)
                p = "C18";
            if (it != m.end() && it->second == theProperty)
                return true;
            return p == theProperty;
        };
        const Line netLine = plan.all("net").at(0);
        c->ds = makeData(plan.all("data").at(0), static_cast<u64>(plan.num("seed")));
        if (plan.num("badlabel", -1) >= 0)
            c->ds = makeData(plan.all("data").at(0), static_cast<u64>(plan.num("seed")), static_cast<int>(plan.num("badlabel")));
        c->net = makeNet(netLine);
        if (plan.num("pre") > 0)
            c->net->train(*c->ds->data, snn::operator""_ep(static_cast<unsigned long long>(plan.num("pre"))));
        const auto via = plan.str("via");
        if (via == "copy")
            c->net = make<Net>(*c->net);
        else if (via == "load")
        {
            c->net->saveAs("via.snn");
            c->net = make<Net>(Net::loadFrom("via.snn"));
        }
        auto& rec = c->rec;
        rec.testLabels = c->ds->testY;
        rec.classification = c->ds->problem != snn::problem::regression;
        rec.trainCost = plan.num("traincost");
        rec.evalCost = plan.num("evalcost");
        for (auto& l : plan.all("slow"))
            rec.slowEvents.emplace_back(l.num(0), l.num(1));
        for (auto& l : plan.all("pass"))
            rec.script.push_back({static_cast<int>(l.num(0)), strtof(l.str(1, "0").c_str(), nullptr), strtof(l.str(2, "0.25").c_str(), nullptr)});
        c->scripted = !rec.script.empty();
        rec.nanTrain = plan.num("nantrain", -1);
        if (plan.has("nanvalue"))
            rec.nanValue = strtof(plan.str("nanvalue").c_str(), nullptr);
        if (plan.has("naneval"))
        {
            rec.nanPass = static_cast<int>(plan.all("naneval")[0].num(0));
            rec.nanEval = static_cast<int>(plan.all("naneval")[0].num(1));
        }
        if (plan.num("autosave"))
        {
            c->net->autoSaveWhenBetter = true;
            c->net->autoSaveFilePath = "auto.snn";
        }
        spyOn(*c->net, rec);
        if (plan.num("pre") > 0)
        {
            const auto st = statsOf(*c->net);
            c->visible.push_back({st.v[0], st.v[3], 0, 0, never});
        }
        rec.onBegin = [c](const Event& e) { c->begin(e); };
        rec.onEnd = [c](const Event& e) { c->end(e); };
        for (float w : weightsOf(*c->net)) // the plan made it diverge
            c->nanEver = c->nanEver || std::isnan(w);
        c->setState(Idle);
        c->idle();
        if (plan.has("mode"))
            c->failureScenario();
        else
            for (auto& l : plan.all("op"))
                c->run(l, true);
        c->joinSecond();
        if (!c->destroyed && c->state == Training)
            c->opStop(false);
        {
            Loud loud;
            consume(5 * ms); // a training that has not really stopped shows itself
        }
        c->operation = "";
        c->checkSnapshot();
        if (!c->destroyed)
            c->opStop(true);
        {
            Loud loud;
            consume(2 * ms);
        }
        require(liveThreads() == 1, "C01", "leak", "threads are still alive after the destruction of the network");
    }
}
