// Scenario "exports": pictures of layers and data as bitmaps, across histories and failures of the file system.
#include "unit.hpp"
#include <algorithm>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <snn/neural_network/layer/FilterLayer.hpp>
#include <snn/neural_network/layer/neuron/SimpleNeuron.hpp>

namespace sim
{
    namespace
    {
        struct Picture
        {
            int width = 0, height = 0;
            std::vector<int> rgb; // row by row from the top; -1: any value
            void resize(int w, int h)
            {
                width = w;
                height = h;
                rgb.assign(static_cast<size_t>(w) * h * 3, 0);
            }
            void set(int x, int y, int r, int g, int b)
            {
                int* p = &rgb.at((static_cast<size_t>(y) * width + x) * 3);
                p[0] = r;
                p[1] = g;
                p[2] = b;
            }
        };

        using Pictures = std::vector<std::pair<std::string, Picture>>; // name -> what it must be

        // what is shown of values that a byte cannot hold is not specified
        int shade(float v) { return v >= 0.0f && v <= 1.0f ? static_cast<int>(v * 255.0f) : -1; }

        // ------------------------------------------------------------------ what the pictures must be
        struct Grid // filters row by row, with a line between them
        {
            int columns = 1, rows = 1, sizeX, sizeY;
            Grid(int filters, int sizeX, int sizeY) : sizeX(sizeX), sizeY(sizeY)
            {
                while (columns * columns < filters)
                    ++columns;
                rows = (filters + columns - 1) / columns;
            }
            void size(Picture& p) const { p.resize((sizeX + 1) * columns - 1, (sizeY + 1) * rows - 1); }
            int x(int filter, int i) const { return filter % columns * (sizeX + 1) + i; }
            int y(int filter, int j) const { return filter / columns * (sizeY + 1) + j; }
        };

        Picture ofWeights(snn::internal::FilterLayer& layer)
        {
            const auto in = layer.getShapeOfInput(); // channels, x, y
            const int filters = layer.getShapeOfOutput()[0];
            const Grid grid(filters, in[1], in[2]);
            Picture p;
            grid.size(p);
            const auto& kernels = layer.getKernelIndexes();
            for (int f = 0; f < filters; ++f)
            {
                std::vector<double> sum(static_cast<size_t>(in[1]) * in[2]);
                for (size_t k = 0; k < kernels.size(); ++k)
                {
                    const size_t neuron = (k * filters + f) % static_cast<size_t>(layer.getNumberOfNeurons());
                    const auto w = static_cast<snn::internal::SimpleNeuron*>(layer.getNeuron(static_cast<int>(neuron)))->getWeights();
                    for (size_t i = 0; i < kernels[k].size(); ++i)
                        if (kernels[k][i] >= 0)
                            sum.at(static_cast<size_t>(kernels[k][i] / in[0])) += static_cast<double>(w.at(i));
                }
                for (int j = 0; j < in[2]; ++j)
                    for (int i = 0; i < in[1]; ++i)
                    {
                        const int c = static_cast<int>(std::lround((std::tanh(sum[static_cast<size_t>(j) * in[1] + i] / 2) + 1) * 127.5));
                        p.set(grid.x(f, i), grid.y(f, j), c, c, c);
                    }
            }
            return p;
        }

        Picture ofOutputs(const Vec& outputs, const std::vector<int>& shape)
        {
            const Grid grid(shape[0], shape[1], shape[2]);
            Picture p;
            grid.size(p);
            for (int j = 0; j < shape[2]; ++j)
                for (int i = 0; i < shape[1]; ++i)
                    for (int f = 0; f < shape[0]; ++f)
                    {
                        const int c = shade(outputs.at((static_cast<size_t>(j) * shape[1] + i) * shape[0] + f));
                        p.set(grid.x(f, i), grid.y(f, j), c, c, c);
                    }
            return p;
        }

        Picture ofData(const Vec& x, const std::vector<int>& shape)
        {
            Picture p;
            p.resize(shape[1], shape[2]);
            for (int j = 0; j < shape[2]; ++j)
                for (int i = 0; i < shape[1]; ++i)
                {
                    const size_t at = (static_cast<size_t>(j) * shape[1] + i) * shape[0];
                    const int r = shade(x.at(at)), g = shape[0] > 1 ? shade(x.at(at + 1)) : r, b = shape[0] > 2 ? shade(x.at(at + 2)) : shape[0] > 1 ? 0 : r;
                    p.set(i, j, r, g, b);
                }
            return p;
        }

        Pictures expected(Unit& u, const std::string& what, const std::string& path, int index)
        {
            Pictures res;
            auto& layers = u.net->layers;
            if (what == "inputs")
            {
                const auto shape = layers[0]->getShapeOfInput();
                if (shape.size() == 3)
                    res.emplace_back(path + "_input" + std::to_string(index) + ".bmp", ofData(u.ds->testX.at(static_cast<size_t>(index)), shape));
                return res;
            }
            Net copy(*u.net); // a layer remembers what it computed
            Vec x = u.ds->testX.at(static_cast<size_t>(index));
            for (size_t l = 0; l < layers.size(); ++l)
            {
                if (what == "filters")
                    x = copy.layers[l]->output(x, true);
                auto* f = dynamic_cast<snn::internal::FilterLayer*>(copy.layers[l].get());
                if (!f)
                    continue;
                const std::string name = path + "_layer_" + std::to_string(l) + ".bmp";
                if (what == "filters" && f->getShapeOfOutput().size() == 3)
                    res.emplace_back(name, ofOutputs(x, f->getShapeOfOutput()));
                else if (what == "maps" && f->getShapeOfInput().size() == 3 && f->getNumberOfNeurons() > 0)
                    res.emplace_back(name, ofWeights(*f));
            }
            return res;
        }

        // ------------------------------------------------------------------ what the files are
        std::string compare(const std::string& file, const Picture& want)
        {
            const auto at = [&](size_t i, int bytes)
            {
                u64 v = 0;
                for (int b = 0; b < bytes; ++b)
                    v |= static_cast<u64>(static_cast<unsigned char>(file[i + static_cast<size_t>(b)])) << (8 * b);
                return v;
            };
            if (file.size() < 54 || file[0] != 'B' || file[1] != 'M')
                return "is not a bitmap (" + std::to_string(file.size()) + " bytes)";
            const size_t row = (static_cast<size_t>(want.width) * 3 + 3) / 4 * 4, size = 54 + row * static_cast<size_t>(want.height);
            if (file.size() != size || at(2, 4) != size || at(10, 4) != 54 || at(14, 4) != 40 || at(26, 2) != 1 || at(28, 2) != 24 || at(30, 4) != 0)
                return "is not a complete bitmap (" + std::to_string(file.size()) + " bytes instead of " + std::to_string(size) + ")";
            if (at(18, 4) != static_cast<u64>(want.width) || at(22, 4) != static_cast<u64>(want.height))
                return "is of " + std::to_string(at(18, 4)) + "x" + std::to_string(at(22, 4)) + " pixels instead of " + std::to_string(want.width) + "x" + std::to_string(want.height);
            for (int y = 0; y < want.height; ++y)
                for (int x = 0; x < want.width; ++x)
                    for (int c = 0; c < 3; ++c)
                    {
                        const int w = want.rgb[(static_cast<size_t>(y) * want.width + x) * 3 + c];
                        const int g = static_cast<int>(at(54 + row * static_cast<size_t>(want.height - 1 - y) + static_cast<size_t>(x) * 3 + 2 - static_cast<size_t>(c), 1));
                        if (w >= 0 && std::abs(w - g) > 1)
                            return "shows " + std::to_string(g) + " instead of " + std::to_string(w) + " at (" + std::to_string(x) + ", " + std::to_string(y) + "), colour " + std::to_string(c);
                    }
            return "";
        }

        std::string call(Unit& u, const std::string& what, const std::string& path, int index)
        {
            return thrown([&]
            {
                if (what == "maps")
                    u.net->saveFeatureMapsAsBitmap(path);
                else if (what == "filters")
                    u.net->saveFilterLayersAsBitmap(path, *u.ds->data, index);
                else
                    u.net->saveData2DAsBitmap(path, *u.ds->data, index);
            });
        }

        void check(const std::string& what, const Pictures& want)
        {
            for (auto& [name, picture] : want)
            {
                require(exists(name), "C26", "silent", "the export of " + what + " returned, and " + name + " does not exist");
                const auto d = compare(readFile(name), picture);
                require(d.empty(), "C26", d.find("complete") != std::string::npos || d.find("not a bitmap") != std::string::npos ? "silent" : "wrong",
                        "the export of " + what + " returned, and " + name + " " + d);
                count("probe.pictures");
            }
        }

        std::set<std::string> files()
        {
            const auto l = listFiles();
            return {l.begin(), l.end()};
        }

        std::string names(const Pictures& p)
        {
            std::string s;
            for (auto& [n, x] : p)
                s += n + " ";
            return s;
        }

        // ex <what> <path> <index> [fault...]
        void exportOnce(const Plan& plan, Unit& u, const Line& l, bool alone)
        {
            const std::string what = l.str(0), fault = l.str(3);
            std::string path = l.str(1);
            const int index = static_cast<int>(l.num(2)) % u.ds->testSize();
            if (!u.net || !u.usable())
                return;
            if (fault == "missing")
                path = "nowhere/" + path;
            const auto want = expected(u, what, path, index);
            if (fault == "directory")
                for (auto& [name, p] : want)
                {
                    unlink(name.c_str());
                    mkdir(name.c_str(), 0755);
                }
            if (fault == "old") // something else was there, longer
                for (auto& [name, p] : want)
                    writeFile(name, std::string(static_cast<size_t>(l.num(4, 100)), 'x'));
            const bool refused = fault == "missing" || fault == "directory";
            const auto before = observable(*u.net, true);
            const auto was = files();
            const u64 fired = ioFired();
            if (fault == "io")
                armIo(true);
            if (fault == "oom")
                armOom(l.num(4, 1), l.num(5, 1));
            const auto err = call(u, what, path, index);
            const bool oom = fault == "oom" && disarmOom();
            if (fault == "io")
                armIo(false);
            if (fault == "directory")
                for (auto& [name, p] : want)
                    rmdir(name.c_str());
            const bool failed = oom || (fault == "io" && ioFired() > fired) || (refused && !want.empty());
            require(observable(*u.net, true) == before, "C26", "changed", "the export of " + what + " changed the network");
            if (alone)
            {
                auto ours = was;
                for (auto& [n, p] : want)
                    ours.insert(n);
                for (auto& f : files())
                    require(ours.count(f) != 0, "C26", "extra", "the export of " + what + " left " + f);
            }
            if (err.empty())
            {
                require(!refused || want.empty(), "C26", "silent", "the export of " + what + " to " + names(want) + "(" + fault + ") returned");
                check(what, want);
                if (failed)
                    count("probe.tolerated");
                return;
            }
            require(failed, "C26", "threw", "the export of " + what + " threw without a fault: " + err);
            count("probe.refused");
            // the fault is gone
            path = l.str(1);
            const auto again = expected(u, what, path, index);
            const auto e = call(u, what, path, index);
            require(e.empty(), "C26", "later", "the export of " + what + " throws after the fault is gone: " + e);
            check(what, again);
        }

        // exports asked for while the network learns
        void exportBusy(Unit& u, const Line& l)
        {
            const std::string what = l.str(1), path = "busy" + l.str(2);
            const int index = static_cast<int>(l.num(3)) % u.ds->testSize();
            if (!u.net || !u.usable())
                return;
            const auto want = expected(u, what, path, index);
            const auto was = files();
            u.expectNoThrow("startTrainingAsync", thrown([&] { u.net->startTrainingAsync(*u.ds->data, 1, 0); }));
            for (i64 i = 0; i < l.num(4, 1); ++i)
            {
                Loud loud;
                pause();
            }
            const auto err = call(u, what, path, index);
            u.expectNoThrow("stopTrainingAsync", thrown([&] { u.net->stopTrainingAsync(); }));
            if (what == "inputs") // data do not change
            {
                require(err.empty(), "C26", "threw", "the export of data during a training threw " + err);
                check(what, want);
                return;
            }
            require(!err.empty(), "C26", "torn", "the export of " + what + " was done while the network learned");
            count("probe.busy");
            for (auto& [n, p] : want)
                require(was.count(n) != 0 || !exists(n), "C26", "torn", "a refused export left " + n);
        }

        void live(const Plan& plan, Unit& u, const std::vector<Line>& ops, bool alone)
        {
            Quiet q;
            u.build();
            for (auto& l : ops)
            {
                if (l.str(0) == "busy")
                    exportBusy(u, l);
                else if (l.str(0) == "maps" || l.str(0) == "filters" || l.str(0) == "inputs")
                    exportOnce(plan, u, l, alone);
                else
                    u.runAll({l});
            }
            u.destroy();
        }
    }

    void scenarioExports(const Plan& plan, int)
    {
        Quiet q;
        const auto nets = plan.all("net"), datas = plan.all("data");
        std::vector<std::pair<u64, std::function<void()>>> fs;
        std::vector<Unit*> units;
        for (size_t k = 0; k < nets.size(); ++k)
        {
            auto* u = new Unit;
            u->netLine = nets[k];
            u->dataLine = datas.at(std::min(k, datas.size() - 1));
            u->dataSeed = static_cast<u64>(plan.num("seed")) + k;
            u->file = "lane" + std::to_string(k) + ".snn";
            u->rec.keep = false;
            units.push_back(u);
            fs.emplace_back(600 + k, [&plan, u, ops = plan.all(k == 0 ? "op" : "op" + std::to_string(k + 1)), alone = nets.size() == 1] { live(plan, *u, ops, alone); });
        }
        together(fs, true);
        for (auto* u : units)
            require(u->problem.empty(), "C26", "threw", u->problem);
    }
}
