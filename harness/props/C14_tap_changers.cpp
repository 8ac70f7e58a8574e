// C14: tap changers stay in range and give the current step's values.
#include "../model/common.hpp"

#include <cmath>
#include <powsybl/iidm/PhaseTapChangerStep.hpp>
#include <powsybl/iidm/RatioTapChangerStep.hpp>

using namespace powsybl::iidm;
using pbt::Case;

namespace {

const double NaN = std::nan("");
using Mode = PhaseTapChanger::RegulationMode;

struct State {
    long pos = 0;
    bool reg = false;
    double deadband = NaN;
    double target = NaN;  // target voltage or regulation value
};
struct Tap {
    bool ratio = true;
    long low = 0;
    std::vector<std::vector<double>> steps;  // alpha (phase only), rho, r, x, g, b
    bool ltc = false;
    Mode mode = Mode::FIXED_TAP;
    Terminal* terminal = nullptr;
    std::map<std::string, State> st;
    long high() const { return low + static_cast<long>(steps.size()) - 1; }
};
struct Site {
    std::string name;
    unsigned transformer;
    RatioTapChangerHolder* rh;
    PhaseTapChangerHolder* ph;
    std::unique_ptr<Tap> ratio, phase;
};

// why a tap changer must not be regulating with this data ("" when it may)
std::string invalid(const Tap& t, const State& st, bool ltc, Mode mode, const Terminal* term) {
    if (!st.reg) return "";
    if (t.ratio) {
        if (!ltc) return "";  // documented: reported, not refused
        if (!(st.target > 0)) return "no valid target voltage";
        if (!term) return "no regulation terminal";
    } else {
        if (mode == Mode::FIXED_TAP) return "fixed tap";
        if (std::isnan(st.target)) return "no regulation value";
        if (!term) return "no regulation terminal";
    }
    return "";
}

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s), n("n", "test"), foreign("f", "test") {}
    Case& c;
    pbt::Src& s;
    Network n, foreign;
    std::vector<Site> sites;
    std::vector<Terminal*> terminals;
    Terminal* outside = nullptr;
    std::set<std::string> variants{VariantManager::getInitialVariantId()};
    std::string working = VariantManager::getInitialVariantId();
    unsigned refused = 0, accepted = 0;

    void build() {
        Substation& sub = n.newSubstation().setId("S").add();
        std::vector<VoltageLevel*> ls;
        for (int k = 0; k < 3; ++k) {
            VoltageLevel& vl = sub.newVoltageLevel().setId("VL" + std::to_string(k)).setNominalV(100.0 + k).setTopologyKind(TopologyKind::BUS_BREAKER).add();
            vl.getBusBreakerView().newBus().setId("B" + std::to_string(k)).add();
            ls.push_back(&vl);
            Load& l = vl.newLoad().setId("L" + std::to_string(k)).setBus("B" + std::to_string(k)).setConnectableBus("B" + std::to_string(k)).setP0(1).setQ0(1).add();
            terminals.push_back(&l.getTerminal());
        }
        TwoWindingsTransformer& t2 = sub.newTwoWindingsTransformer().setId("T2").setVoltageLevel1("VL0").setVoltageLevel2("VL1").setBus1("B0").setBus2("B1").setR(1).setX(1).setG(0).setB(0).setRatedU1(1).setRatedU2(1).add();
        terminals.push_back(&t2.getTerminal2());
        sites.push_back(Site{"T2", 0, &t2, &t2, nullptr, nullptr});
        ThreeWindingsTransformer& t3 = sub.newThreeWindingsTransformer().setId("T3")
            .newLeg1().setVoltageLevel("VL0").setBus("B0").setR(1).setX(1).setG(0).setB(0).setRatedU(1).add()
            .newLeg2().setVoltageLevel("VL1").setBus("B1").setR(1).setX(1).setG(0).setB(0).setRatedU(1).add()
            .newLeg3().setVoltageLevel("VL2").setBus("B2").setR(1).setX(1).setG(0).setB(0).setRatedU(1).add().add();
        terminals.push_back(&t3.getLeg2().getTerminal());
        int k = 1;
        for (auto* l : {&t3.getLeg1(), &t3.getLeg2(), &t3.getLeg3()}) sites.push_back(Site{"T3 leg" + std::to_string(k++), 1, l, l, nullptr, nullptr});
        Substation& fs = foreign.newSubstation().setId("S").add();
        VoltageLevel& fv = fs.newVoltageLevel().setId("VL").setNominalV(1).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        fv.getBusBreakerView().newBus().setId("B").add();
        outside = &fv.newLoad().setId("L").setBus("B").setConnectableBus("B").setP0(1).setQ0(1).add().getTerminal();
    }

    double num() { return s.chance(12) ? NaN : s.chance(25) ? s.pickOf({0.0, -1.0, 1.0, -0.5, 1e300, 1e-300, 400.0}) : static_cast<double>(s.range(-1000, 1000)) / 8; }
    double fin() { double d = num(); return std::isnan(d) ? 2.5 : d; }
    double target() { return s.chance(15) ? NaN : s.chance(15) ? s.pickOf({0.0, -1.0}) : 1.0 + s.draw(400); }
    double deadband() { return s.chance(12) ? NaN : s.chance(15) ? s.pickOf({-1.0, -1e-300}) : static_cast<double>(s.draw(10)) / 2; }
    Terminal* terminal() { return s.chance(20) ? nullptr : terminals[s.draw(terminals.size())]; }

    unsigned regulatingOthers(const Site& site, const Tap* but, const std::string& v) {
        unsigned k = 0;
        for (const auto& x : sites) {
            if (x.transformer != site.transformer) continue;
            for (const Tap* t : {x.ratio.get(), x.phase.get()}) if (t && t != but && t->st.at(v).reg) ++k;
        }
        return k;
    }

    // runs a request that must be refused when `why` is not empty
    template <typename F> bool request(const std::string& what, const std::string& why, const F& f) {
        bool ok = true;
        std::string error;
        try { f(); }
        catch (const PowsyblException& e) { ok = false; error = e.what(); }
        c.note("[" + working + "] " + what + (ok ? "" : " -> " + error));
        c.check(ok == why.empty(), ok ? "accepted" : "refused", what + (ok ? " is accepted: " + why : " is refused: " + error));
        if (ok) ++accepted; else { ++refused; c.label("refused"); }
        return ok;
    }

    State& now(Tap& t) { return t.st.at(working); }

    // is the data shared by the variants (or the new tap changer) invalid in a variant other than the working one?
    template <typename F> bool brokenElsewhere(const F& f) {
        for (const auto& v : variants) if (v != working && f(v)) return true;
        return false;
    }
    // the library checks data shared by all variants against the working variant only: a known finding
    bool avoid(bool broken) { return broken && !s.chance(10); }
    void known(bool broken, const std::string& what) {
        if (broken) c.fail(what.compare(0, 4, "new ") == 0 ? "creation-checked-in-working-variant-only" : "shared-data-checked-in-working-variant-only", what + " leaves regulation without valid data, or two regulating tap changers, in another variant");
    }

    void add(Site& site, bool ratio) {
        std::unique_ptr<Tap> t(new Tap());
        t->ratio = ratio;
        std::string why;
        auto bad = [&](const std::string& w) { if (why.empty()) why = w; };
        const size_t count = s.chance(4) ? 0 : 1 + s.draw(6);
        t->low = s.chance(40) ? 0 : s.range(-20, 20);
        if (s.chance(3)) t->low = s.pickOf({-1000000L, 1000000L, 4294967296L, -4294967296L});
        for (size_t k = 0; k < count; ++k) {
            std::vector<double> v;
            for (int i = ratio ? 1 : 0; i < 6; ++i) v.push_back(fin());
            t->steps.push_back(v);
        }
        State st;
        const bool posSet = !s.chance(4);
        st.pos = s.chance(8) ? (s.chance(50) ? t->low - 1 - static_cast<long>(s.draw(2)) : t->high() + 1 + static_cast<long>(s.draw(2))) : count ? s.range(t->low, t->high()) : t->low;
        st.reg = s.chance(35);
        st.deadband = s.chance(70) ? 1.0 : deadband();
        st.target = target();
        t->ltc = s.chance(70);
        t->mode = s.pickOf({Mode::FIXED_TAP, Mode::CURRENT_LIMITER, Mode::ACTIVE_POWER_CONTROL});
        if (st.reg && t->mode == Mode::FIXED_TAP && s.chance(70)) t->mode = Mode::CURRENT_LIMITER;
        t->terminal = terminal();
        const bool away = s.chance(4) && !ratio;
        if (!count) bad("no step");
        if (!posSet) bad("position not set");
        if (st.pos < t->low || st.pos > t->high()) bad("position out of range");
        std::string reason = invalid(*t, st, t->ltc, t->mode, away ? outside : t->terminal);
        if (!reason.empty()) bad(reason);
        if (away) bad("terminal of another network");
        if (st.deadband < 0) bad("negative deadband");
        if (st.reg && std::isnan(st.deadband)) bad("regulating without deadband");
        Tap* old = ratio ? site.ratio.get() : site.phase.get();
        if (st.reg && regulatingOthers(site, old, working)) bad("another one is regulating");
        const bool broken = why.empty() && st.reg && brokenElsewhere([&](const std::string& v) { return regulatingOthers(site, old, v) > 0; });
        if (avoid(broken)) return;
        const std::string what = std::string("new ") + (ratio ? "ratio" : "phase") + " tap changer of " + site.name + " low " + std::to_string(t->low) + " steps " + std::to_string(count) + " position " + std::to_string(st.pos) + (st.reg ? " regulating" : "")
            + (ratio ? (t->ltc ? " ltc" : "") : " mode " + std::to_string(static_cast<int>(t->mode))) + " target " + pbt::show(st.target) + " deadband " + pbt::show(st.deadband) + (old ? " (replaces one)" : "");
        const bool ok = request(what, why, [&] {
            if (ratio) {
                auto a = site.rh->newRatioTapChanger();
                for (const auto& x : t->steps) a.beginStep().setRho(x[0]).setR(x[1]).setX(x[2]).setG(x[3]).setB(x[4]).endStep();
                if (t->low != 0 || s.chance(50)) a.setLowTapPosition(t->low);
                if (posSet) a.setTapPosition(st.pos);
                a.setRegulating(st.reg).setTargetDeadband(st.deadband).setTargetV(st.target).setLoadTapChangingCapabilities(t->ltc);
                if (t->terminal) a.setRegulationTerminal(stdcxx::ref(*t->terminal));
                a.add();
            } else {
                auto a = site.ph->newPhaseTapChanger();
                for (const auto& x : t->steps) a.beginStep().setAlpha(x[0]).setRho(x[1]).setR(x[2]).setX(x[3]).setG(x[4]).setB(x[5]).endStep();
                if (t->low != 0 || s.chance(50)) a.setLowTapPosition(t->low);
                if (posSet) a.setTapPosition(st.pos);
                a.setRegulating(st.reg).setTargetDeadband(st.deadband).setRegulationValue(st.target).setRegulationMode(t->mode);
                if (away || t->terminal) a.setRegulationTerminal(stdcxx::ref(away ? *outside : *t->terminal));
                a.add();
            }
        });
        if (!ok) return;
        known(broken, what);
        for (const auto& v : variants) t->st[v] = st;
        if (old) c.label("replaced");
        c.label(ratio ? "ratio" : "phase");
        (ratio ? site.ratio : site.phase) = std::move(t);
    }

    // a step that is not completely defined is refused
    void incompleteStep(Site& site, bool ratio) {
        const unsigned missing = static_cast<unsigned>(s.draw(ratio ? 5 : 6));
        const bool nan = s.chance(50);
        request("incomplete step", "a value is not set", [&] {
            if (ratio) {
                auto a = site.rh->newRatioTapChanger();
                auto st = a.beginStep();
                for (unsigned k = 0; k < 5; ++k) {
                    if (k == missing && !nan) continue;
                    const double v = k == missing ? NaN : 1.0;
                    switch (k) { case 0: st.setRho(v); break; case 1: st.setR(v); break; case 2: st.setX(v); break; case 3: st.setG(v); break; default: st.setB(v); }
                }
                st.endStep();
            } else {
                auto a = site.ph->newPhaseTapChanger();
                auto st = a.beginStep();
                for (unsigned k = 0; k < 6; ++k) {
                    if (k == missing && !nan) continue;
                    const double v = k == missing ? NaN : 1.0;
                    switch (k) { case 0: st.setRho(v); break; case 1: st.setR(v); break; case 2: st.setX(v); break; case 3: st.setG(v); break; case 4: st.setB(v); break; default: st.setAlpha(v); }
                }
                st.endStep();
            }
        });
    }

    template <typename T> void change(Site& site, Tap& t, T& real) {
        State& st = now(t);
        const std::string name = site.name + (t.ratio ? " ratio: " : " phase: ");
        switch (s.weighted({18, 6, 16, 10, 8, 8, 8, 8, 6})) {
            case 0: {
                const long p = s.chance(25) ? s.pickOf({t.low - 1, t.high() + 1, t.low - 3, t.high() + 5, 2147483648L + t.low, t.low + 4294967296L}) : s.chance(30) ? s.pickOf({t.low, t.high()}) : s.range(t.low, t.high());
                const bool in = p >= t.low && p <= t.high();
                if (request(name + "position " + std::to_string(p), in ? "" : "out of range", [&] { real.setTapPosition(p); })) st.pos = p;
                break;
            }
            case 1: {
                const long l = s.range(-30, 30), d = l - t.low;
                request(name + "low position " + std::to_string(l), "", [&] { real.setLowTapPosition(l); });
                t.low = l;
                for (auto& v : t.st) v.second.pos += d;
                c.label("low position");
                break;
            }
            case 2: {
                const bool on = s.chance(70);
                State x = st;
                x.reg = on;
                std::string why = invalid(t, x, t.ltc, t.mode, t.terminal);
                if (why.empty() && on && std::isnan(st.deadband)) why = "no deadband";
                if (why.empty() && on && regulatingOthers(site, &t, working)) { why = "another one is regulating"; c.label("second regulation refused"); }
                if (request(name + (on ? "regulating" : "not regulating"), why, [&] { real.setRegulating(on); })) st.reg = on;
                if (on && why.empty()) c.label("regulating");
                break;
            }
            case 3: {
                State x = st;
                x.target = target();
                if (request(name + "target " + pbt::show(x.target), invalid(t, x, t.ltc, t.mode, t.terminal), [&] { setTarget(real, x.target); })) st.target = x.target;
                break;
            }
            case 4: {
                const double d = deadband();
                if (request(name + "deadband " + pbt::show(d), d < 0 ? "negative" : st.reg && std::isnan(d) ? "undefined while regulating" : "", [&] { real.setTargetDeadband(d); })) st.deadband = d;
                break;
            }
            case 5: {
                Terminal* x = terminal();
                const bool away = s.chance(15);
                std::string why = invalid(t, st, t.ltc, t.mode, away ? outside : x);
                if (away) why = "terminal of another network";
                const bool broken = why.empty() && brokenElsewhere([&](const std::string& v) { return !invalid(t, t.st.at(v), t.ltc, t.mode, x).empty(); });
                if (avoid(broken)) return;
                if (request(name + (away ? "foreign terminal" : x ? "terminal" : "no terminal"), why, [&] { real.setRegulationTerminal(away ? stdcxx::ref(*outside) : x ? stdcxx::ref(*x) : stdcxx::Reference<Terminal>()); })) { t.terminal = x; known(broken, name + "no terminal"); }
                break;
            }
            case 6: kind(name, t, real); break;
            case 7: {
                // values of one step
                const long p = s.range(t.low, t.high());
                auto& v = t.steps[static_cast<size_t>(p - t.low)];
                const size_t k = s.draw(v.size());
                const double x = fin();
                const bool current = p == st.pos && s.chance(50);
                request(name + "value " + std::to_string(k) + " of step " + std::to_string(p) + " = " + pbt::show(x), "", [&] { setValue(current ? real.getCurrentStep() : real.getStep(p), t.ratio ? k + 1 : k, x); });
                v[k] = x;
                break;
            }
            default: {
                const long p = s.pickOf({t.low - 1, t.high() + 1, t.low - 100, t.high() + 4294967296L});
                request(name + "step " + std::to_string(p), "out of range", [&] { if (s.chance(50)) real.getStep(p); else static_cast<const T&>(real).getStep(p); });
                break;
            }
        }
    }
    void setTarget(RatioTapChanger& r, double v) { r.setTargetV(v); }
    void setTarget(PhaseTapChanger& r, double v) { r.setRegulationValue(v); }
    template <typename S> void setCommon(S& x, size_t k, double v) {
        switch (k) { case 1: x.setRho(v); break; case 2: x.setR(v); break; case 3: x.setX(v); break; case 4: x.setG(v); break; default: x.setB(v); }
    }
    void setValue(RatioTapChangerStep& x, size_t k, double v) { setCommon(x, k, v); }
    void setValue(PhaseTapChangerStep& x, size_t k, double v) { if (k == 0) x.setAlpha(v); else setCommon(x, k, v); }
    void kind(const std::string& name, Tap& t, RatioTapChanger& r) {
        const bool on = s.chance(50);
        const bool broken = brokenElsewhere([&](const std::string& v) { return !invalid(t, t.st.at(v), on, t.mode, t.terminal).empty(); });
        const std::string why = invalid(t, now(t), on, t.mode, t.terminal);
        if (why.empty() && avoid(broken)) return;
        if (request(name + (on ? "load tap changing" : "no load tap changing"), why, [&] { r.setLoadTapChangingCapabilities(on); })) { t.ltc = on; known(broken, name + "load tap changing"); }
    }
    void kind(const std::string& name, Tap& t, PhaseTapChanger& r) {
        const Mode m = s.pickOf({Mode::CURRENT_LIMITER, Mode::ACTIVE_POWER_CONTROL, Mode::FIXED_TAP});
        const bool broken = brokenElsewhere([&](const std::string& v) { return !invalid(t, t.st.at(v), t.ltc, m, t.terminal).empty(); });
        const std::string why = invalid(t, now(t), t.ltc, m, t.terminal);
        if (why.empty() && avoid(broken)) return;
        if (request(name + "mode " + std::to_string(static_cast<int>(m)), why, [&] { r.setRegulationMode(m); })) { t.mode = m; known(broken, name + "mode"); }
    }

    void variantOp() {
        auto& m = n.getVariantManager();
        std::vector<std::string> ids(variants.begin(), variants.end());
        switch (s.weighted({4, 6, 2})) {
            case 0: {
                const std::string src = s.pick(ids);
                std::string dst = "v" + std::to_string(s.draw(5));
                if (dst == src) return;
                m.cloneVariant(src, dst, true);
                c.note("clone " + src + " to " + dst);
                variants.insert(dst);
                each([&](Tap& t) { State x = t.st.at(src); t.st[dst] = x; });
                break;
            }
            case 1:
                working = s.pick(ids);
                m.setWorkingVariant(working);
                c.note("work on " + working);
                break;
            default: {
                const std::string v = s.pick(ids);
                if (v == working || v == VariantManager::getInitialVariantId()) return;
                m.removeVariant(v);
                c.note("remove variant " + v);
                variants.erase(v);
                each([&](Tap& t) { t.st.erase(v); });
                break;
            }
        }
        if (variants.size() > 2) c.label("variants");
    }
    template <typename F> void each(const F& f) { for (auto& x : sites) for (Tap* t : {x.ratio.get(), x.phase.get()}) if (t) f(*t); }

    template <typename S> std::vector<double> common(const S& x) { return {x.getRho(), x.getR(), x.getX(), x.getG(), x.getB()}; }
    std::vector<double> values(const RatioTapChangerStep& x) { return common(x); }
    std::vector<double> values(const PhaseTapChangerStep& x) { auto v = common(x); v.insert(v.begin(), x.getAlpha()); return v; }
    double readTarget(const RatioTapChanger& r) { return r.getTargetV(); }
    double readTarget(const PhaseTapChanger& r) { return r.getRegulationValue(); }

    template <typename T> void compare(const std::string& name, const Tap& t, const State& st, T& real) {
        const T& cr = real;
        c.checkEq(cr.getLowTapPosition(), t.low, "low", name);
        c.checkEq(cr.getHighTapPosition(), t.high(), "high", name);
        c.checkEq(static_cast<size_t>(cr.getStepCount()), t.steps.size(), "count", name);
        c.checkEq(cr.getTapPosition(), st.pos, "position", name);
        c.check(cr.getTapPosition() >= cr.getLowTapPosition() && cr.getTapPosition() <= cr.getHighTapPosition(), "position-range", name);
        c.checkEq(cr.isRegulating(), st.reg, "regulating", name);
        c.checkEq(pbt::hex(cr.getTargetDeadband()), pbt::hex(st.deadband), "deadband", name);
        c.checkEq(pbt::hex(readTarget(cr)), pbt::hex(st.target), "target", name);
        auto term = cr.getRegulationTerminal();
        c.check(t.terminal ? term && &term.get() == t.terminal : !term, "terminal", name);
        auto mt = real.getRegulationTerminal();
        c.check(t.terminal ? mt && &mt.get() == t.terminal : !mt, "terminal", name);
        for (size_t k = 0; k < t.steps.size(); ++k) {
            const long p = t.low + static_cast<long>(k);
            c.check(values(cr.getStep(p)) == t.steps[k], "step", name + "step at " + std::to_string(p));
            c.check(&cr.getStep(p) == &real.getStep(p), "step", name + "step at " + std::to_string(p));
        }
        c.check(values(cr.getCurrentStep()) == t.steps[static_cast<size_t>(st.pos - t.low)], "current-step", name + "current step at " + std::to_string(st.pos));
        c.check(&real.getCurrentStep() == &real.getStep(st.pos), "current-step", name);
        auto all = cr.getAllSteps();
        auto all2 = real.getAllSteps();
        c.checkEq(all.size(), t.steps.size(), "all-steps", name);
        c.checkEq(all2.size(), t.steps.size(), "all-steps", name);
        for (const auto& e : all) {
            c.check(e.first >= t.low && e.first <= t.high() && &e.second.get() == &cr.getStep(e.first), "all-steps", name + "all steps at " + std::to_string(e.first));
            c.check(all2.count(e.first) && &all2.at(e.first).get() == &e.second.get(), "all-steps", name);
        }
    }
    void extra(const std::string& name, const Tap& t, const RatioTapChanger& r) { c.checkEq(r.hasLoadTapChangingCapabilities(), t.ltc, "ltc", name); }
    void extra(const std::string& name, const Tap& t, const PhaseTapChanger& r) { c.checkEq(static_cast<int>(r.getRegulationMode()), static_cast<int>(t.mode), "mode", name); }

    void verify(bool all) {
        for (const auto& v : variants) {
            if (!all && v != working) continue;
            n.getVariantManager().setWorkingVariant(v);
            std::map<unsigned, unsigned> regulating;
            for (auto& x : sites) {
                const std::string name = "in variant " + v + ": " + x.name + ": ";
                c.checkEq(x.rh->hasRatioTapChanger(), static_cast<bool>(x.ratio), "presence", name + "ratio");
                c.checkEq(x.ph->hasPhaseTapChanger(), static_cast<bool>(x.phase), "presence", name + "phase");
                c.checkEq(static_cast<bool>(x.rh->getOptionalRatioTapChanger()), static_cast<bool>(x.ratio), "presence", name + "ratio");
                c.checkEq(static_cast<bool>(x.ph->getOptionalPhaseTapChanger()), static_cast<bool>(x.phase), "presence", name + "phase");
                if (x.ratio) { compare(name + "ratio ", *x.ratio, x.ratio->st.at(v), x.rh->getRatioTapChanger()); extra(name, *x.ratio, x.rh->getRatioTapChanger()); regulating[x.transformer] += x.rh->getRatioTapChanger().isRegulating(); }
                if (x.phase) { compare(name + "phase ", *x.phase, x.phase->st.at(v), x.ph->getPhaseTapChanger()); extra(name, *x.phase, x.ph->getPhaseTapChanger()); regulating[x.transformer] += x.ph->getPhaseTapChanger().isRegulating(); }
            }
            for (const auto& r : regulating) c.check(r.second <= 1, "several-regulating", "in variant " + v + " " + std::to_string(r.second) + " tap changers of one transformer are regulating");
        }
        n.getVariantManager().setWorkingVariant(working);
    }

    void step() {
        if (s.chance(15)) { variantOp(); return; }
        Site& site = sites[s.chance(50) ? 0 : s.draw(sites.size())];
        const bool ratio = s.chance(50);
        Tap* t = ratio ? site.ratio.get() : site.phase.get();
        if (!t || s.chance(6)) { if (s.chance(5)) incompleteStep(site, ratio); else add(site, ratio); return; }
        if (s.chance(4)) {
            c.note("remove the " + std::string(ratio ? "ratio" : "phase") + " tap changer of " + site.name);
            if (ratio) { site.rh->getRatioTapChanger().remove(); site.ratio.reset(); }
            else { site.ph->getPhaseTapChanger().remove(); site.phase.reset(); }
            c.label("removed");
            return;
        }
        if (ratio) change(site, *t, site.rh->getRatioTapChanger()); else change(site, *t, site.ph->getPhaseTapChanger());
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C14";
    cfg.rule = "histories (5-45 steps) of creations (complete and incomplete), replacements, removals and changes of ratio and phase tap changers of a two windings and a three windings transformer in up to 6 variants that are cloned, overwritten, removed and selected in between; "
               "the outcome of each request and every value in every variant are compared with a plain model. Non-trivial: a request was refused and a request accepted.";
    cfg.quick = 240000;
    cfg.thorough = 2000000;
    cfg.quickSeconds = 40;
    cfg.requiredLabels = {"refused", "ratio", "phase", "replaced", "removed", "variants", "regulating", "second regulation refused", "low position"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        r.build();
        const unsigned steps = 5 + static_cast<unsigned>(c.s.draw(40));
        for (unsigned i = 0; i < steps; ++i) {
            r.step();
            if (c.s.chance(40)) r.verify(c.s.chance(40));
        }
        r.verify(true);
        c.nontrivial(r.accepted > 0 && r.refused > 0);
    });
}
