// What the scenarios share: networks and data built from a plan, layers that record what goes through them, observables.
#pragma once
#include "sim.hpp"
#include <cmath>
#include <cstring>
#include <optional>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include <snn/data/Data.hpp>
#include <snn/neural_network/optimizer/StochasticGradientDescent.hpp>

namespace sim
{
    using Net = snn::StraightforwardNeuralNetwork;
    using snn::Data;
    using Vec = std::vector<float>;
    using Vec2 = std::vector<Vec>;

    void runScenario(const Plan& plan, int phase);

    std::vector<std::string> split(const std::string& s, char c);

    extern Plan thePlan;
    extern std::string theProperty;
    // a violation of `property`, reported if it is the one this run decides
    void violated(const std::string& property, const std::string& kind, const std::string& msg);
    inline void require(bool ok, const char* property, const std::string& kind, const std::string& msg)
    {
        if (!ok)
            violated(property, kind, msg);
    }

    // ------------------------------------------------------------------ recording layers
    struct Event
    {
        bool train = false;   // outputForTraining, otherwise output
        bool learned = false; // errors were sent back
        bool reset = false;
        int thread = -1;
        u64 step = 0;
        i64 begin = 0, end = -1;
        Vec in, out, desired;
        Vec errors;              // given to the last layer
        std::vector<Vec> layers; // what each spied layer output, if it is asked for
        bool nan = false;
        int session = 0;
    };

    struct Pass { int correct = 0; float good = 0, bad = 0.25f; };

    struct Recorder
    {
        std::vector<Event> events;
        // script of the evaluations: outputs are computed from the expected outputs instead of those of the network
        std::vector<Pass> script;
        Vec2 testLabels;
        bool classification = false;
        int evalInPass = 0, passes = 0; // position in the current evaluation
        float scale = 1, shift = 0; // of the outputs in evaluations
        std::function<void(Vec&)> adjust; // what else is done with them
        int nanPass = -1, nanEval = -1; // NaN at that example of that evaluation
        i64 nanTrain = -1;              // NaN at that training presentation
        float nanValue = NAN;           // or infinite
        i64 trains = 0, evals = 0;
        i64 trainCost = 0, evalCost = 0;
        std::vector<std::pair<i64, i64>> slowEvents; // event number -> ns
        bool keep = true;                            // remember the events
        bool keepLayers = false;
        bool manual = false;                         // inferences of the scenario itself, not part of an evaluation
        int session = 0;
        std::function<void(const Event&)> onBegin, onEnd;
        std::function<void(const Vec&)> onManual; // end of an inference of the scenario
        Event current;
        bool open = false;
        bool failNext = false;
        bool inconsistentReset = false; // a recurrent layer was given another temporal reset than the first recurrent layer
        bool atRecurrent = false; // a recurrent layer has been given the current example
        i64 throwAt = -1; // bad_alloc-like failure is injected elsewhere; this throws from the layer at that event
    };

    class Spy final : public snn::internal::BaseLayer
    {
    private:
        friend class boost::serialization::access;
        template <class Archive>
        void serialize(Archive& ar, unsigned)
        {
            ar & boost::serialization::base_object<snn::internal::BaseLayer>(*this);
            ar & inner;
            ar & front;
            ar & back;
            ar & lastOut;
        }

    public:
        std::unique_ptr<snn::internal::BaseLayer> inner;
        bool front = false, back = false;
        Recorder* rec = nullptr;
        Vec lastOut; // what the layer output last, kept by copies and files like a state of the layer would be

        Spy() = default;
        Spy(std::unique_ptr<snn::internal::BaseLayer> inner, bool front, bool back, Recorder* rec)
            : inner(std::move(inner)), front(front), back(back), rec(rec) {}

        std::unique_ptr<snn::internal::BaseLayer> clone(std::shared_ptr<snn::internal::NeuralNetworkOptimizer> o) const override
        {
            auto s = std::make_unique<Spy>(inner->clone(o), front, back, nullptr);
            s->lastOut = lastOut;
            return s;
        }
        void* getNeuron(int i) override { return inner->getNeuron(i); }
        float getAverageOfAbsNeuronWeights() const override { return inner->getAverageOfAbsNeuronWeights(); }
        float getAverageOfSquareNeuronWeights() const override { return inner->getAverageOfSquareNeuronWeights(); }
        int getNumberOfInputs() const override { return inner->getNumberOfInputs(); }
        int getNumberOfNeurons() const override { return inner->getNumberOfNeurons(); }
        int getNumberOfParameters() const override { return inner->getNumberOfParameters(); }
        std::vector<int> getShapeOfInput() const override { return inner->getShapeOfInput(); }
        std::vector<int> getShapeOfOutput() const override { return inner->getShapeOfOutput(); }
        Vec output(const Vec& inputs, bool temporalReset) override { return pass(inputs, temporalReset, false); }
        Vec outputForTraining(const Vec& inputs, bool temporalReset) override { return pass(inputs, temporalReset, true); }
        Vec backOutput(Vec& errors) override
        {
            seeErrors(errors);
            auto r = inner->backOutput(errors);
            if (front)
                learned();
            return r;
        }
        void train(Vec& errors) override
        {
            seeErrors(errors);
            inner->train(errors);
            if (front)
                learned();
        }
        int isValid() const override { return inner->isValid(); }
        std::string summary() const override { return inner->summary(); }
        bool operator==(const BaseLayer& l) const override
        {
            const auto* s = dynamic_cast<const Spy*>(&l);
            return *inner == (s ? *s->inner : l);
        }
        bool operator!=(const BaseLayer& l) const override { return !(*this == l); }

    private:
        Vec pass(const Vec& inputs, bool reset, bool train);
        void seeErrors(const Vec& errors);
        void learned();
        bool recurrent() const;
        void finish(const Vec& out);
    };

    void spyOn(Net& net, Recorder& rec, bool everyLayer = false); // also of a copied or loaded network with spies
    const snn::internal::BaseLayer* unwrap(const snn::internal::BaseLayer* l);

    // ------------------------------------------------------------------ networks and data
    std::vector<snn::LayerModel> architecture(const std::vector<std::string>& tokens, float& lr, float& momentum);
    Net* makeNet(const Line& line);               // in watched memory
    Net* makeNet(const std::vector<std::string>& tokens);

    struct DataSet // the harness's own copy of what was given to the library
    {
        snn::problem problem = snn::problem::regression;
        snn::nature nature = snn::nature::nonTemporal;
        Vec2 trainX, trainY, testX, testY; // one row per step
        std::vector<int> trainLengths, testLengths; // of the sequences
        std::vector<int> trainSeq, testSeq;         // first index of each sequence
        int recurrences = 0;
        int inputs = 1, outputs = 1;
        bool sameSets = false;
        Data* data = nullptr;
        int trainSize() const { return static_cast<int>(trainX.size()); }
        int testSize() const { return static_cast<int>(testX.size()); }
    };

    DataSet* makeData(const Line& line, u64 seed, int badLabel = -1); // badLabel: that test label has no class

    snn::Wait parseWait(const std::string& expr); // e.g. "3ep||0.75acc||250ms", "2ep&&0.5mae"

    // ------------------------------------------------------------------ observables
    Vec weightsOf(const Net& net);
    std::string bits(const Vec& v);
    bool same(const Vec& a, const Vec& b); // bit for bit, except that all NaN are the same
    struct Stats { float v[10]; };
    Stats statsOf(const Net& net);
    bool same(const Stats& a, const Stats& b);
    std::string show(const Stats& s);
    std::string show(const Vec& v);
    std::string observable(const Net& net, bool withSettings = true); // everything public, as text
    std::string floatText(float f);

    std::vector<std::string> listFiles();
    bool exists(const std::string& path);
    std::string readFile(const std::string& path);
    void writeFile(const std::string& path, const std::string& content);

    template <class F>
    std::string thrown(F&& f) // "" if it does not throw, otherwise what
    {
        try
        {
            Loud loud;
            f();
        }
        catch (const std::exception& e)
        {
            Quiet q;
            const std::string w = e.what();
            return w.empty() ? "?" : w;
        }
        catch (...)
        {
            return "?";
        }
        return "";
    }

    // runs the functions in simulated threads of their own, at the same time or one after the other
    void together(const std::vector<std::pair<u64, std::function<void()>>>& fs, bool concurrent);

    // scenarios
    void scenarioControl(const Plan&, int);
    void scenarioData(const Plan&, int);
    void scenarioPersist(const Plan&, int);
    void scenarioTwin(const Plan&, int);
    void scenarioStats(const Plan&, int);
    void scenarioMemory(const Plan&, int);
    void scenarioExports(const Plan&, int);
    void scenarioSteps(const Plan&, int);
    void scenarioChance(const Plan&, int);
    void scenarioRefusals(const Plan& plan, int phase);
    void scenarioEqual(const Plan&, int);
}
