// C27: networks do not depend on each other, nor on the threads they are used in.
#include "../model/asker.hpp"

#include <condition_variable>
#include <mutex>
#include <thread>

namespace {

// A thread that executes what it is given, one thing at a time.
class Worker {
public:
    Worker() : m_thread([this] { loop(); }) {}
    ~Worker() {
        { std::lock_guard<std::mutex> l(m_mutex); m_stop = true; }
        m_cv.notify_all();
        m_thread.join();
    }
    void start(std::function<void()> f) {
        { std::lock_guard<std::mutex> l(m_mutex); m_job = std::move(f); m_busy = true; m_error = nullptr; }
        m_cv.notify_all();
    }
    void finish() {
        std::unique_lock<std::mutex> l(m_mutex);
        m_cv.wait(l, [this] { return !m_busy; });
        if (m_error) { auto e = m_error; m_error = nullptr; std::rethrow_exception(e); }
    }
    void run(std::function<void()> f) { start(std::move(f)); finish(); }

private:
    void loop() {
        for (;;) {
            std::function<void()> f;
            {
                std::unique_lock<std::mutex> l(m_mutex);
                m_cv.wait(l, [this] { return m_stop || m_busy; });
                if (m_stop) return;
                f = m_job;
            }
            std::exception_ptr error;
            try { f(); } catch (...) { error = std::current_exception(); }
            { std::lock_guard<std::mutex> l(m_mutex); m_busy = false; m_error = error; }
            m_cv.notify_all();
        }
    }
    std::mutex m_mutex;
    std::condition_variable m_cv;
    std::function<void()> m_job;
    bool m_busy = false, m_stop = false;
    std::exception_ptr m_error;
    std::thread m_thread;
};

// One network and all that its user sees of it; a pure function of the choices.
class Life {
public:
    Life(Case& c, const Options& o) : c(c), n("net", "test"), w(c, n, o) {
        n.setCaseDate(stdcxx::DateTime::parse("2020-01-01T00:00:00.000Z"));
        steps = 1 + static_cast<unsigned>(c.s.draw(12));
    }
    bool done() const { return at > steps + 1; }
    void step() {
        if (at == 0) w.build();
        else if (at <= steps) one();
        else end();
        ++at;
    }
    void all() { while (!done()) step(); }

    std::vector<std::string> seen;
    unsigned accepted = 0, documents = 0, variants = 0, questions = 0;

private:
    void one() {
        if (w.levels().empty()) return;
        w.last = {};
        switch (w.s.weighted({12, 14, 10, 10, 3, 10, 10, 4, 5, 8, 6, 4, 16, 10})) {
            case 0: w.set(false); break;
            case 1: w.addAny(); break;
            case 2: w.switchOp(); break;
            case 3: w.connectOp(); break;
            case 4: w.setConnectableBus(); break;
            case 5: w.variantOp(); ++variants; break;
            case 6: w.extension(); break;
            case 7: w.property(); break;
            case 8: w.alias(); break;
            case 9: w.removeOp(true); break;
            case 10: w.set(true); break;
            case 11: w.addInternalConnection(*w.pickOne(w.levels())); break;
            case 12: {
                Asker q{c, n, w, c.s};
                q.answers = &seen;
                q.ask();
                ++questions;
                break;
            }
            default:
                seen.push_back(guarded([&]() {
                    const std::string d = model::toXml(n);
                    return d + model::toXml(model::fromXml(d));
                }));
                ++documents;
                break;
        }
        if (!w.last.skipped && w.last.accepted) ++accepted;
        seen.push_back(w.last.skipped ? "" : w.last.what + (w.last.accepted ? " ok" : " refused: " + w.last.error));
    }
    void end() {
        for (const auto& i : n.getIdentifiables()) c.check(&i.getNetwork() == &n && &n.get(i.getId()) == &i, "another-network", i.getId());
        seen.push_back(guarded([&]() { return model::toXml(n); }));
        for (const auto& v : dumpVariants(n, model::ALL)) {
            seen.push_back(v.first);
            for (const auto& e : v.second) seen.push_back(e.first + "=" + e.second.v);
        }
    }
    Case& c;
    Network n;
    World w;
    unsigned steps, at = 0;
};

// a life repeated from its choices
struct Twin {
    Twin(const std::vector<uint64_t>& choices, const Options& o, unsigned size) : src(choices, nullptr, 0), c(src, false, size), life(stdcxx::make_unique<Life>(c, o)) {}
    pbt::Src src;
    Case c;
    std::unique_ptr<Life> life;
    std::vector<std::string> seen;
    // forgets the network as soon as it is not needed
    void end() { seen = std::move(life->seen); life.reset(); }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C27";
    cfg.rule = "two or three random histories (creations, changes, removals, variants, extensions, questions, documents; the same ids in all) are each run alone; they are then repeated with the same choices with their steps interleaved, in one thread or handed over between threads, "
               "or at the same time in threads of their own (under ThreadSanitizer), networks being destroyed while others live on: every outcome, error, answer, document and final state must be the one it had alone, and there is no data race. "
               "Non-trivial: at least two histories with three accepted operations.";
    cfg.quick = 3000;
    cfg.thorough = 60000;
    cfg.quickSeconds = 60;
    cfg.caseWallSeconds = 60;
    cfg.requiredLabels = {"interleaved", "handed over", "concurrent", "three networks", "documents", "variants", "questions", "destroyed early"};
    cfg.assumptions = {"races are those that ThreadSanitizer sees in the schedules met; libxml2, boost and the standard library are not instrumented"};
    model::registerSerializers();
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 6;
        o.variants = true;
        o.extensions = true;
        o.nasty = c.s.chance(40);
        o.wild = c.s.chance(40);
        o.wildPct = 5;
        const bool concurrent = c.s.chance(50), handed = !concurrent && c.s.chance(50);
        const size_t count = c.s.chance(25) ? 3 : 2;
        std::vector<std::vector<uint64_t>> choices(count);
        std::vector<std::vector<std::string>> alone(count);
        unsigned busy = 0;
        for (size_t i = 0; i < count; ++i) {
            if (i > 0 && c.s.chance(15)) {  // the same history twice
                choices[i] = choices[i - 1];
                alone[i] = alone[i - 1];
                ++busy;
                c.label("same history");
                continue;
            }
            c.s.record(&choices[i]);
            Life l(c, o);
            l.all();
            c.s.record(nullptr);
            if (l.accepted >= 3) ++busy;
            if (l.documents > 0) c.label("documents");
            if (l.variants > 0) c.label("variants");
            if (l.questions > 0) c.label("questions");
            alone[i] = std::move(l.seen);
        }
        std::vector<std::unique_ptr<Twin>> twins(count);
        if (concurrent) {
            std::vector<std::unique_ptr<Worker>> workers;
            for (size_t i = 0; i < count; ++i) workers.push_back(stdcxx::make_unique<Worker>());
            const unsigned size = c.size();
            for (size_t i = 0; i < count; ++i) {
                workers[i]->start([&twins, &choices, &o, i, size] {
                    twins[i] = stdcxx::make_unique<Twin>(choices[i], o, size);
                    twins[i]->life->all();
                    twins[i]->end();
                });
            }
            std::exception_ptr error;
            for (auto& w : workers) {
                try { w->finish(); } catch (...) { error = std::current_exception(); }
            }
            if (error) std::rethrow_exception(error);
            c.label("concurrent");
        } else {
            std::vector<std::unique_ptr<Worker>> workers;
            if (handed) for (int i = 0; i < 2; ++i) workers.push_back(stdcxx::make_unique<Worker>());
            std::vector<size_t> left;
            for (size_t i = 0; i < count; ++i) left.push_back(i);
            while (!left.empty()) {
                const size_t k = c.s.draw(left.size()), i = left[k];
                auto work = [&]() {
                    if (!twins[i]) twins[i] = stdcxx::make_unique<Twin>(choices[i], o, c.size());
                    else twins[i]->life->step();
                };
                const size_t t = handed ? c.s.draw(3) : 0;
                if (t > 0) workers[t - 1]->run(work); else work();
                if (!twins[i]->life->done()) continue;
                left.erase(left.begin() + static_cast<long>(k));
                if (c.s.chance(60)) {
                    twins[i]->end();
                    if (!left.empty()) c.label("destroyed early");
                } else {
                    twins[i]->seen = twins[i]->life->seen;
                }
            }
            c.label(handed ? "handed over" : "interleaved");
        }
        if (count == 3) c.label("three networks");
        for (size_t i = 0; i < count; ++i) {
            const auto& a = alone[i];
            const auto& b = twins[i]->seen;
            for (size_t k = 0; k < std::max(a.size(), b.size()); ++k) {
                const std::string x = k < a.size() ? a[k] : "nothing", y = k < b.size() ? b[k] : "nothing";
                c.check(x == y, concurrent ? "concurrent-outcome" : "interleaved-outcome", x == y ? "" : "alone: " + x.substr(0, 800) + "\nwith another network: " + y.substr(0, 800) + (x.size() > 800 ? "\n" + model::firstDifference(x, y) : ""));
            }
        }
        c.nontrivial(busy >= 2);
    });
}
