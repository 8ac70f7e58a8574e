// C05: the variant manager follows its documented life cycle.
#include "../model/common.hpp"

#include <algorithm>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

using namespace powsybl::iidm;
using pbt::Case;

namespace {

const std::string NONE = "<none>";

// A thread that executes what it is given, one thing at a time.
class Worker {
public:
    Worker() : m_thread([this] { loop(); }) {}
    ~Worker() {
        { std::lock_guard<std::mutex> l(m_mutex); m_stop = true; }
        m_cv.notify_all();
        m_thread.join();
    }
    void start(std::function<void()> f) {
        { std::lock_guard<std::mutex> l(m_mutex); m_job = std::move(f); m_busy = true; m_error = nullptr; }
        m_cv.notify_all();
    }
    void finish() {
        std::unique_lock<std::mutex> l(m_mutex);
        m_cv.wait(l, [this] { return !m_busy; });
        if (m_error) { auto e = m_error; m_error = nullptr; std::rethrow_exception(e); }
    }
    void run(std::function<void()> f) { start(std::move(f)); finish(); }

private:
    void loop() {
        for (;;) {
            std::function<void()> f;
            {
                std::unique_lock<std::mutex> l(m_mutex);
                m_cv.wait(l, [this] { return m_stop || m_busy; });
                if (m_stop) return;
                f = m_job;
            }
            std::exception_ptr error;
            try { f(); } catch (...) { error = std::current_exception(); }
            { std::lock_guard<std::mutex> l(m_mutex); m_busy = false; m_error = error; }
            m_cv.notify_all();
        }
    }
    std::mutex m_mutex;
    std::condition_variable m_cv;
    std::function<void()> m_job;
    bool m_busy = false, m_stop = false;
    std::exception_ptr m_error;
    std::thread m_thread;
};

// State of one variant.
struct State {
    double p0 = 1, v = 100, q = 2;
    bool sw = false, bk = false, reg = true, conn = true, retained = false;
    long tap = 0, sections = 1;
};

struct Net {
    Network n;
    std::map<std::string, State> variants;
    bool multi = false;
    std::map<int, std::string> working;  // per thread (0 only, when not multi-threaded)
    explicit Net(const std::string& id) : n(id, "test") {
        Substation& s = n.newSubstation().setId("S").add();
        for (int k = 1; k <= 3; ++k) {
            auto& vl = s.newVoltageLevel().setId("VL" + std::to_string(k)).setNominalV(100).setTopologyKind(k == 2 ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
            if (k == 1) {
                vl.getBusBreakerView().newBus().setId("B1").add();
                vl.getBusBreakerView().newBus().setId("B2").add();
                vl.getBusBreakerView().newSwitch().setId("SW").setBus1("B1").setBus2("B2").setOpen(true).add();
                vl.newLoad().setId("LD").setBus("B1").setConnectableBus("B1").setP0(1).setQ0(1).add();
                vl.newGenerator().setId("G").setBus("B1").setConnectableBus("B1").setMinP(0).setMaxP(10).setTargetP(1).setTargetV(100).setTargetQ(0).setVoltageRegulatorOn(true).add();
                vl.newShuntCompensator().setId("SH").setBus("B2").setConnectableBus("B2").setSectionCount(1).newLinearModel().setBPerSection(1).setMaximumSectionCount(9).add().add();
            } else if (k == 2) {
                vl.getNodeBreakerView().newBusbarSection().setId("BBS").setNode(0).add();
                vl.getNodeBreakerView().newDisconnector().setId("DC").setNode1(0).setNode2(1).setOpen(false).add();
                vl.getNodeBreakerView().newBreaker().setId("BK").setNode1(1).setNode2(2).setOpen(true).add();
                vl.newLoad().setId("LN").setNode(2).setP0(1).setQ0(1).add();
            } else {
                vl.getBusBreakerView().newBus().setId("B3").add();
            }
        }
        for (int k = 1; k <= 2; ++k) n.newLine().setId("L" + std::to_string(k)).setVoltageLevel1("VL1").setBus1("B" + std::to_string(k)).setConnectableBus1("B" + std::to_string(k)).setVoltageLevel2("VL3").setBus2("B3").setConnectableBus2("B3").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
        auto& t = s.newTwoWindingsTransformer().setId("T").setVoltageLevel1("VL2").setNode1(3).setVoltageLevel2("VL3").setBus2("B3").setConnectableBus2("B3").setR(1).setX(1).setG(0).setB(0).setRatedU1(1).setRatedU2(1).add();
        n.getVoltageLevel("VL2").getNodeBreakerView().newInternalConnection().setNode1(0).setNode2(3).add();
        auto a = t.newRatioTapChanger();
        a.setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(false);
        for (int k = 0; k < 8; ++k) a.beginStep().setRho(1 + k).setR(0).setX(0).setG(0).setB(0).endStep();
        a.add();
        State init;
        init.sw = false;
        init.bk = false;
        init.retained = false;
        n.getSwitch("BK").setRetained(false);
        n.getLoad("LD").getTerminal().setQ(init.q);
        variants[VariantManager::getInitialVariantId()] = init;
        working[0] = VariantManager::getInitialVariantId();
    }
};

// One access to the state of the working variant; `st` is what must be there. Returns what is wrong.
struct Access {
    int kind;
    long value;
};

// `safe`: whether the access changes or reads
std::string apply(Network& n, State& st, const Access& a) {
    auto& sw = n.getSwitch("SW");
    auto& bk = n.getSwitch("BK");
    auto wrong = [](const std::string& what) { return what + " of the variant is wrong"; };
    switch (a.kind) {
        case 0: n.getLoad("LD").setP0(st.p0 = static_cast<double>(a.value)); return "";
        case 1: sw.setOpen(!(st.sw = a.value % 2 == 0)); return "";
        case 2: bk.setOpen(!(st.bk = a.value % 2 == 0)); return "";
        case 3: n.getGenerator("G").setVoltageRegulatorOn(st.reg = a.value % 2 == 0); return "";
        case 4: n.getGenerator("G").setTargetV(st.v = static_cast<double>(a.value) + 50); return "";
        case 5: n.getTwoWindingsTransformer("T").getRatioTapChanger().setTapPosition(st.tap = a.value % 8); return "";
        case 6: n.getShuntCompensator("SH").setSectionCount(static_cast<unsigned long>(st.sections = a.value % 10)); return "";
        case 7: {
            auto& t = n.getLoad("LD").getTerminal();
            const bool to = a.value % 2 == 0;
            const bool r = to ? t.connect() : t.disconnect();
            const bool was = st.conn;
            st.conn = to;
            return r == (was != to) ? "" : wrong("result of a connection request");
        }
        case 8: {
            auto& t = n.getLoad("LN").getTerminal();
            const bool to = a.value % 2 == 0;
            const bool r = to ? t.connect() : t.disconnect();
            const bool was = st.bk;
            st.bk = to;
            return r == (was != to) ? "" : wrong("result of a connection request (node/breaker)");
        }
        case 9: n.getLoad("LD").getTerminal().setQ(st.q = static_cast<double>(a.value)); return "";
        case 10: return n.getLoad("LD").getP0() == st.p0 && n.getLoad("LD").getTerminal().getQ() == st.q ? "" : wrong("load");
        case 11: return sw.isOpen() == !st.sw && bk.isOpen() == !st.bk ? "" : wrong("switch position");
        case 12: return n.getGenerator("G").isVoltageRegulatorOn() == st.reg && n.getGenerator("G").getTargetV() == st.v ? "" : wrong("regulation");
        case 13: return n.getTwoWindingsTransformer("T").getRatioTapChanger().getTapPosition() == st.tap && n.getTwoWindingsTransformer("T").getRatioTapChanger().getCurrentStep().getRho() == 1 + static_cast<double>(st.tap) ? "" : wrong("tap position");
        case 14: return n.getShuntCompensator("SH").getSectionCount() == static_cast<unsigned long>(st.sections) ? "" : wrong("section count");
        case 15: return n.getLoad("LD").getTerminal().isConnected() == st.conn && static_cast<bool>(n.getLoad("LD").getTerminal().getBusBreakerView().getBus()) == st.conn ? "" : wrong("connection");
        case 16: return n.getLoad("LN").getTerminal().isConnected() == st.bk && static_cast<bool>(n.getLoad("LN").getTerminal().getBusView().getBus()) == st.bk ? "" : wrong("connection (node/breaker)");
        case 17: {
            unsigned long count = 0;
            for (const auto& b : n.getVoltageLevel("VL1").getBusView().getBuses()) count += b.getId().empty() ? 0 : 1;
            return count == (st.sw ? 1UL : 2UL) ? "" : wrong("number of buses");
        }
        case 18: {
            const auto& b1 = n.getLine("L1").getTerminal1().getBusView().getBus();
            const auto& b2 = n.getLine("L2").getTerminal1().getBusView().getBus();
            return b1 && b2 && (&b1.get() == &b2.get()) == st.sw ? "" : wrong("bus");
        }
        case 19: {
            const auto& b = n.getLine("L1").getTerminal1().getBusView().getBus();
            if (!b || !b.get().getConnectedComponent()) return wrong("component");
            return b.get().isInMainConnectedComponent() && b.get().getConnectedComponent().get().getSize() == (st.sw ? 3UL : 4UL) ? "" : wrong("component");
        }
        case 20: {
            unsigned long count = 0;
            for (const auto& l : n.getLoads()) count += l.getId().size() == 2 ? 1 : 0;
            for (const auto& l : n.getBatteries()) count += l.getId().size();
            for (const auto& l : n.getHvdcLines()) count += l.getId().size();
            for (const auto& l : n.getStaticVarCompensators()) count += l.getId().size();
            return count == 2 ? "" : wrong("list of loads");
        }
        case 21: {
            unsigned long count = 0;
            for (const auto& b : n.getVoltageLevel("VL2").getBusBreakerView().getBuses()) count += b.getId().empty() ? 0 : 1;
            return count == (st.bk ? 1UL : 2UL) ? "" : wrong("number of buses (node/breaker)");
        }
        default: {
            const auto& b = n.getVoltageLevel("VL2").getBusView().getBuses();
            unsigned long count = 0;
            for (const auto& x : b) count += x.getConnectedTerminalCount();
            return count == (st.bk ? 3UL : 2UL) ? "" : wrong("number of terminals of the bus (node/breaker)");
        }
    }
}
const int KINDS = 23;

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s) {}
    Case& c;
    pbt::Src& s;
    std::vector<std::unique_ptr<Net>> nets;
    std::vector<std::unique_ptr<Worker>> workers;
    int threads = 1;

    // runs f on thread t (0 is the main thread)
    void on(int t, const std::function<void()>& f) {
        if (t == 0) f(); else workers[static_cast<size_t>(t - 1)]->run(f);
    }
    std::string& working(Net& x, int t) { return x.working.emplace(x.multi ? t : 0, NONE).first->second; }

    template <typename F> bool request(int t, const std::string& what, const std::string& why, const F& f) {
        bool ok = true;
        std::string error;
        on(t, [&] {
            try { f(); }
            catch (const PowsyblException& e) { ok = false; error = e.what(); }
        });
        c.note("thread " + std::to_string(t) + ": " + what + (ok ? "" : " -> " + error));
        c.check(ok == why.empty(), ok ? "accepted" : "refused", what + (ok ? " succeeds: " + why : " fails: " + error));
        if (!ok) c.label("refused");
        return ok;
    }

    std::string name() { return s.pickOf<const char*>({"a", "b", "c", "d", "e", "", "InitialVariant"}); }
    std::string existing(Net& x) {
        std::vector<std::string> v;
        for (const auto& p : x.variants) v.push_back(p.first);
        return s.pick(v);
    }
    std::string anyName(Net& x) { return s.chance(75) ? existing(x) : name(); }

    void verify(Net& x, int t) {
        VariantManager& m = x.n.getVariantManager();
        std::set<std::string> ids;
        for (const auto& p : x.variants) ids.insert(p.first);
        c.check(m.getVariantIds() == ids, "variants", "the variants differ");
        c.check(ids.count(VariantManager::getInitialVariantId()) == 1, "initial-variant", "no initial variant");
        const auto indices = m.getVariantIndices();
        c.checkEq(indices.size(), ids.size(), "indices", "number of indices");
        c.check(m.getVariantArraySize() > *indices.rbegin(), "array-size", "an index is beyond the array");
        c.checkEq(m.isVariantMultiThreadAccessAllowed(), x.multi, "multi-thread", "multi-threaded access");
        const std::string w = working(x, t);
        on(t, [&] {
            if (w == NONE) {
                bool id = false, index = false, data = false;
                try { m.getWorkingVariantId(); id = true; } catch (const PowsyblException&) {}
                try { m.getVariantIndex(); index = true; } catch (const PowsyblException&) {}
                try { x.n.getLoad("LD").getP0(); data = true; } catch (const PowsyblException&) {}
                c.check(!id && !index && !data, "no-working-variant", "thread " + std::to_string(t) + " has a working variant");
                c.label("no working variant");
            } else {
                c.checkEq(m.getWorkingVariantId(), w, "working-variant", "working variant of thread " + std::to_string(t));
                c.check(indices.count(m.getVariantIndex()) == 1, "index", "index of the working variant");
                for (int k = 10; k < KINDS; ++k) {
                    const std::string e = apply(x.n, x.variants[w], Access{k, 0});
                    c.check(e.empty(), "state", e + " (" + w + ")");
                }
            }
        });
    }

    // every variant, from a thread; leaves the working variant as it was
    void verifyAll(Net& x, int t) {
        VariantManager& m = x.n.getVariantManager();
        const std::string was = working(x, t);
        if (was == NONE) return;
        for (const auto& p : x.variants) {
            on(t, [&] { m.setWorkingVariant(p.first); });
            working(x, t) = p.first;
            verify(x, t);
        }
        on(t, [&] { m.setWorkingVariant(was); });
        working(x, t) = was;
    }

    void clone(Net& x, int t) {
        VariantManager& m = x.n.getVariantManager();
        const std::string src = anyName(x);
        std::vector<std::string> to;
        const unsigned count = s.chance(60) ? 1 : static_cast<unsigned>(s.draw(4));
        for (unsigned k = 0; k < count; ++k) to.push_back(s.chance(70) ? name() : existing(x));
        const bool over = s.chance(35), defaulted = !over && s.chance(50);
        std::string why, what = "clone " + src + " to";
        for (const auto& i : to) what += " '" + i + "'";
        if (over) what += " with overwriting";
        if (to.empty()) why = "no target";
        if (x.variants.count(src) == 0) why = "unknown source";
        for (size_t k = 0; k < to.size(); ++k) {
            if (!over && (x.variants.count(to[k]) > 0 || std::find(to.begin(), to.begin() + static_cast<long>(k), to[k]) != to.begin() + static_cast<long>(k))) why = "target exists";
        }
        const bool ok = request(t, what, why, [&] {
            switch (to.size()) {
                case 0: m.cloneVariant(src, std::initializer_list<std::string>{}, over); break;
                case 1: if (defaulted) m.cloneVariant(src, to[0]); else if (m.getVariantArraySize() % 2 == 0) m.cloneVariant(src, to[0], over); else m.cloneVariant(src, {to[0]}, over); break;
                case 2: m.cloneVariant(src, {to[0], to[1]}, over); break;
                default: m.cloneVariant(src, {to[0], to[1], to[2]}, over); break;
            }
        });
        if (!ok) return;
        const State st = x.variants[src];
        for (const auto& i : to) {
            if (x.variants.count(i) > 0) c.label("overwrite");
            x.variants[i] = st;
        }
        c.label("clone");
        if (to.size() > 1) c.label("several targets");
        c.nontrivial();
    }

    bool usedElsewhere(Net& x, int t, const std::string& v) {
        for (const auto& p : x.working) if (x.multi && p.first != t && p.second == v) return true;
        return false;
    }

    void step(Net& x, int t) {
        VariantManager& m = x.n.getVariantManager();
        switch (s.weighted({25, 14, 20, 25, 8, 6, 8})) {
            case 0: clone(x, t); break;
            case 1: {
                const std::string v = anyName(x);
                if (usedElsewhere(x, t, v)) return;
                const std::string why = v == VariantManager::getInitialVariantId() ? "initial variant" : x.variants.count(v) == 0 ? "unknown" : "";
                if (request(t, "remove '" + v + "'", why, [&] { m.removeVariant(v); })) {
                    x.variants.erase(v);
                    if (working(x, t) == v) { working(x, t) = NONE; c.label("working variant removed"); }
                    c.label("remove");
                }
                break;
            }
            case 2: {
                const std::string v = anyName(x);
                if (request(t, "work on '" + v + "'", x.variants.count(v) == 0 ? "unknown" : "", [&] { m.setWorkingVariant(v); })) working(x, t) = v;
                break;
            }
            case 3: {
                const std::string w = working(x, t);
                const Access a{static_cast<int>(s.draw(10)), s.range(0, 9)};
                if (w == NONE) {
                    request(t, "change without working variant", "no working variant", [&] { x.n.getLoad("LD").setP0(5); });
                } else {
                    std::string e;
                    request(t, "change " + std::to_string(a.kind) + " to " + std::to_string(a.value), "", [&] { e = apply(x.n, x.variants[w], a); });
                    c.check(e.empty(), "state", e);
                    c.label("change");
                }
                break;
            }
            case 4: {
                const bool allow = s.chance(70);
                if (!s.chance(40)) return;
                // other threads may not rely on their working variant any more
                on(t, [&] { m.allowVariantMultiThreadAccess(allow); });
                c.note("thread " + std::to_string(t) + ": multi-threaded access " + (allow ? "on" : "off"));
                if (allow && !x.multi) {
                    const std::string w = x.working[0];
                    x.working.clear();
                    x.working[t] = w;
                    x.multi = true;
                } else if (!allow && x.multi) {
                    std::string w = working(x, t);
                    if (w == NONE) w = VariantManager::getInitialVariantId();
                    x.working.clear();
                    x.working[0] = w;
                    x.multi = false;
                    c.label("multi-thread off");
                }
                break;
            }
            default: forEach(x, t, s.chance(25)); break;
        }
    }

    void forEach(Net& x, int t, bool throwing) {
        VariantManager& m = x.n.getVariantManager();
        std::multiset<std::string> seen;
        const bool change = s.chance(50);
        const unsigned long stopAt = throwing ? s.draw(x.variants.size()) : 1000;
        std::string e;
        bool thrown = false;
        std::map<std::string, State> after = x.variants;
        on(t, [&] {
            try {
                m.forEachVariant([&] {
                    const std::string w = m.getWorkingVariantId();
                    if (seen.size() == stopAt) throw powsybl::PowsyblException("stop");
                    seen.insert(w);
                    if (after.count(w) == 0) return;
                    State& st = after[w];
                    for (int k = 10; k < KINDS && e.empty(); ++k) e = apply(x.n, st, Access{k, 0});
                    if (change) apply(x.n, st, Access{0, static_cast<long>(st.p0) + 1});
                });
            } catch (const PowsyblException& ex) {
                if (std::string(ex.what()) != "stop") throw;
                thrown = true;
            }
        });
        x.variants = after;
        c.note("thread " + std::to_string(t) + ": for each variant" + (throwing ? ", stopping" : ""));
        c.check(e.empty(), "for-each-state", "in 'for each variant': " + e);
        c.checkEq(thrown, throwing, "for-each-exception", "an exception of the function is passed on:");
        if (!throwing) {
            std::multiset<std::string> ids;
            for (const auto& p : x.variants) ids.insert(p.first);
            c.check(seen == ids, "for-each", "'for each variant' does not run once in every variant");
        }
        c.label(throwing ? "for each stopped" : "for each");
    }

    // Threads at work at the same time, each in its own variant.
    void concurrent(Net& x) {
        VariantManager& m = x.n.getVariantManager();
        if (!x.multi || threads < 2) return;
        std::vector<std::string> v;
        for (const auto& p : x.variants) v.push_back(p.first);
        while (v.size() < static_cast<size_t>(threads)) {
            std::string id = "t" + std::to_string(v.size());
            while (x.variants.count(id) > 0) id += "x";
            const std::string src = s.pick(v);
            on(0, [&] { m.cloneVariant(src, id); });
            x.variants[id] = x.variants[src];
            v.push_back(id);
        }
        std::vector<State> st(static_cast<size_t>(threads));
        std::vector<std::vector<Access>> plan(static_cast<size_t>(threads));
        std::vector<std::string> mine(static_cast<size_t>(threads)), error(static_cast<size_t>(threads));
        std::vector<size_t> order(v.size());
        for (size_t k = 0; k < v.size(); ++k) order[k] = k;
        for (size_t k = v.size() - 1; k > 0; --k) std::swap(order[k], order[s.draw(k + 1)]);
        for (size_t t = 0; t < static_cast<size_t>(threads); ++t) {
            mine[t] = v[order[t]];
            st[t] = x.variants[mine[t]];
            for (unsigned k = 3 + static_cast<unsigned>(s.draw(20)); k > 0; --k) plan[t].push_back(Access{static_cast<int>(s.draw(KINDS)), s.range(0, 9)});
            c.note("thread " + std::to_string(t) + " at work in " + mine[t] + ", " + std::to_string(plan[t].size()) + " accesses");
        }
        auto work = [&](size_t t) {
            try {
                m.setWorkingVariant(mine[t]);
                for (const Access& a : plan[t]) {
                    const std::string e = apply(x.n, st[t], a);
                    if (!e.empty()) { error[t] = e + " (access " + std::to_string(a.kind) + ")"; return; }
                }
                if (m.getWorkingVariantId() != mine[t]) error[t] = "another working variant";
            } catch (const std::exception& e) {
                error[t] = e.what();
            }
        };
        for (size_t t = 1; t < static_cast<size_t>(threads); ++t) workers[t - 1]->start([&, t] { work(t); });
        work(0);
        for (size_t t = 1; t < static_cast<size_t>(threads); ++t) workers[t - 1]->finish();
        for (size_t t = 0; t < static_cast<size_t>(threads); ++t) {
            c.check(error[t].empty(), "concurrent", "thread " + std::to_string(t) + ", alone in " + mine[t] + ": " + error[t]);
            x.variants[mine[t]] = st[t];
            x.working[static_cast<int>(t)] = mine[t];
        }
        for (int t = 0; t < threads; ++t) verify(x, t);
        verifyAll(x, 0);
        c.label("concurrent");
    }

    void run() {
        const unsigned count = 1 + static_cast<unsigned>(s.draw(2));
        for (unsigned k = 0; k < count; ++k) nets.emplace_back(new Net("n" + std::to_string(k)));
        threads = s.chance(55) ? 1 + static_cast<int>(s.draw(3)) : 1;
        for (int k = 1; k < threads; ++k) workers.emplace_back(new Worker);
        if (threads > 1) c.label("several threads");
        if (count > 1) c.label("several networks");
        if (threads > 1) {
            for (auto& x : nets) {
                if (!s.chance(80)) continue;
                x->n.getVariantManager().allowVariantMultiThreadAccess(true);
                x->multi = true;
            }
        }
        for (unsigned k = 2 + static_cast<unsigned>(s.draw(22)); k > 0; --k) {
            Net& x = *nets[s.draw(nets.size())];
            const int t = static_cast<int>(s.draw(static_cast<uint64_t>(threads)));
            step(x, t);
            verify(x, t);
            for (auto& y : nets) if (s.chance(25)) verify(*y, static_cast<int>(s.draw(static_cast<uint64_t>(threads))));
            if (s.chance(10)) verifyAll(x, t);
            if (s.chance(8)) concurrent(x);
        }
        for (auto& x : nets) {
            if (s.chance(50)) concurrent(*x);
            verifyAll(*x, 0);
        }
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C05";
    cfg.rule = "random histories of variant requests (cloning to one or several targets, overwriting, removing, selecting, running for each, multi-threaded access) by up to 3 threads on up to 2 networks: outcomes, variants, working variants of each thread and the state of every variant are compared with a set model; "
               "then threads work at the same time, each in its own variant, on the same objects, under ThreadSanitizer. Non-trivial: a clone was made.";
    cfg.quick = 16000;
    cfg.thorough = 300000;
    cfg.quickSeconds = 40;
    cfg.caseWallSeconds = 25;
    cfg.requiredLabels = {"refused", "clone", "several targets", "overwrite", "remove", "working variant removed", "no working variant", "change", "for each", "for each stopped", "several threads", "several networks", "multi-thread off", "concurrent"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        r.run();
    });
}
