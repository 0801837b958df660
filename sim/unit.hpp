// A network, its data and a history of operations on them, for scenarios that compare histories.
#pragma once
#include "harness.hpp"

namespace sim
{
    struct Unit
    {
        Net* net = nullptr;
        DataSet* ds = nullptr;
        std::vector<DataSet*> allData;
        DataSet* shared = nullptr; // with the other units: evaluations only
        Recorder rec;
        std::string file = "unit.snn";
        Line netLine, dataLine;
        u64 dataSeed = 1;
        bool spied = false, everyLayer = false;
        bool stripped = false; // without what is marked as extra, and without evaluations in trainings
        bool failing = false;
        bool loaded = false; // created by the library
        std::vector<std::string> digests;
        std::function<void()> onChange;  // another network takes the place of the first one
        std::function<void(const std::string& op)> afterOp;
        std::function<void(const Event&)> hook; // of the scenario, at the beginning of every presentation
        bool wantReset = false; // what the inference of the scenario asked for
        int lane = -1;
        int op = 0;

        void build(bool withNet = true);
        void freshData();
        void attach();
        void replace(Net* n, bool byLibrary);
        void destroy();
        void run(const Line& l, size_t at); // at: index of the operation in the line
        void runAll(const std::vector<Line>& lines, size_t at = 0);
        bool usable() const; // no NaN so far
        void record(const std::string& what);
        Vec use(int k, bool reset, bool cluster = false);
        std::string expectNoThrow(const std::string& what, const std::string& err);
        std::string problem; // first unexpected exception
    };

    void setLearningRate(Net& net, float lr, float momentum);
}
