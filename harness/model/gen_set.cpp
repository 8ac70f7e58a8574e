// Setters: for each attribute of each kind of object, a change with its predicted outcome.
#include "gen.hpp"

#include <cmath>
#include <limits>

namespace gen {

using namespace powsybl::iidm;
using pbt::hex;

static const double NaN = std::numeric_limits<double>::quiet_NaN();

std::string prefixOf(const Identifiable& i) {
    if (dynamic_cast<const Network*>(&i)) return "network";
    if (dynamic_cast<const Substation*>(&i)) return "sub:" + i.getId();
    if (dynamic_cast<const VoltageLevel*>(&i)) return "vl:" + i.getId();
    if (dynamic_cast<const Switch*>(&i)) return "sw:" + i.getId();
    if (dynamic_cast<const Bus*>(&i)) return "bus:" + i.getId();
    if (dynamic_cast<const HvdcLine*>(&i)) return "hvdcLine:" + i.getId();
    return "eq:" + i.getId();
}

namespace {

struct B {
    World& w;
    std::vector<SetGen>& v;
    bool stateOnly;
    std::string key;  // dump prefix with trailing dot
    std::string id;

    void add(bool state, const std::string& attr, const std::function<void(SetOp&)>& fill) {
        if (stateOnly && !state) return;
        const std::string k = key, i = id;
        v.push_back([state, attr, fill, i]() {
            SetOp o;
            o.r.what = "set " + attr + " of";
            o.r.id = i;
            o.r.state = state;
            fill(o);
            return o;
        });
    }
    // number with a simple constraint
    void num(bool state, const std::string& attr, K k, double current, const std::function<void(double)>& set) {
        World& ww = w;
        const std::string full = key + attr;
        add(state, attr, [&ww, k, current, set, full, attr](SetOp& o) {
            double x = ww.num(o.r, k, attr, {current});
            o.r.what += " = " + pbt::show(x);
            o.r.exp[full] = hex(x);
            o.apply = [set, x]() { set(x); };
        });
    }
    // number with a check of its own: check(value) gives the reason for refusal or ""
    void numIf(bool state, const std::string& attr, const std::vector<double>& hints, const std::function<void(double)>& set, const std::function<std::string(double)>& why) {
        World& ww = w;
        const std::string full = key + attr;
        add(state, attr, [&ww, hints, set, full, attr, why](SetOp& o) {
            double x = 0;
            for (int i = 0; i < 6; ++i) {
                Rec tmp;
                x = ww.num(tmp, FIN_N, attr, hints);
                if (ww.o.wild || why(x).empty()) break;
                x = std::abs(x);
                if (why(x).empty()) break;
            }
            std::string reason = why(x);
            if (!reason.empty()) o.r.bad(reason);
            o.r.what += " = " + pbt::show(x);
            o.r.exp[full] = hex(x);
            o.apply = [set, x]() { set(x); };
        });
    }
    void flag(bool state, const std::string& attr, const std::function<void(bool)>& set, const std::function<std::string(bool)>& why) {
        World& ww = w;
        const std::string full = key + attr;
        add(state, attr, [&ww, set, full, attr, why](SetOp& o) {
            bool x = ww.s.chance(50);
            if (!ww.o.wild && why && !why(x).empty()) x = !x;
            std::string reason = why ? why(x) : "";
            if (!reason.empty()) o.r.bad(reason);
            o.r.what += x ? " = true" : " = false";
            o.r.exp[full] = x ? "true" : "false";
            o.apply = [set, x]() { set(x); };
        });
    }
    template <typename E> void enumeration(bool state, const std::string& attr, std::vector<E> values, const std::function<void(E)>& set, const std::function<std::string(E)>& why = nullptr) {
        World& ww = w;
        const std::string full = key + attr;
        add(state, attr, [&ww, values, set, full, why](SetOp& o) {
            E x = ww.s.pick(values);
            if (!ww.o.wild && why) for (int i = 0; i < 5 && !why(x).empty(); ++i) x = ww.s.pick(values);
            std::string reason = why ? why(x) : "";
            if (!reason.empty()) o.r.bad(reason);
            o.r.what += " = #" + std::to_string(static_cast<int>(x));
            o.r.exp[full] = std::to_string(static_cast<int>(x));
            o.apply = [set, x]() { set(x); };
        });
    }
    // regulating terminal; null means the local terminal
    void regTerm(const std::string& attr, const std::string& local, const std::function<void(const stdcxx::Reference<Terminal>&)>& set) {
        World& ww = w;
        const std::string full = key + attr;
        if (!ww.o.remoteRegulation) return;
        add(false, attr, [&ww, set, full, local](SetOp& o) {
            auto t = ww.regTerminal(o.r);
            o.r.exp[full] = t && o.r.ok ? model::termRef(t.get()) : local;
            o.apply = [set, t]() { set(t); };
        });
    }
};

std::string needVoltage(double v) { return v > 0 ? "" : "voltage target " + pbt::show(v) + " while the regulator is on"; }
std::string needReactive(double q) { return std::isnan(q) ? "reactive target undefined while the regulator is off" : ""; }

template <typename F> void voltageControl(B& b, const std::string& onKey, const std::string& vKey, const std::string& qKey, bool on, double v, double q, const F& setOn, const std::function<void(double)>& setV, const std::function<void(double)>& setQ) {
    b.flag(true, onKey, setOn, [v, q](bool x) { return x ? needVoltage(v) : needReactive(q); });
    b.numIf(true, vKey, {v}, setV, [on, q](double x) { return on ? needVoltage(x) : needReactive(q); });
    b.numIf(true, qKey, {q}, setQ, [on, v](double x) { return on ? needVoltage(v) : needReactive(x); });
}

template <typename O> void activeLimits(B& b, O& o, double mn, double mx) {
    O* p = &o;
    b.numIf(false, "minP", {mn, mx}, [p](double x) { p->setMinP(x); }, [mx](double x) { return std::isnan(x) ? std::string("minP undefined") : x > mx ? std::string("minP above maxP") : std::string(); });
    b.numIf(false, "maxP", {mn, mx}, [p](double x) { p->setMaxP(x); }, [mn](double x) { return std::isnan(x) ? std::string("maxP undefined") : x < mn ? std::string("maxP below minP") : std::string(); });
}

void tapChangers(B& b, const TapSite& site) {
    World& w = b.w;
    const std::string save = b.key;
    if (site.ratio->hasRatioTapChanger()) {
        RatioTapChanger* r = &site.ratio->getRatioTapChanger();
        b.key = site.key + "rtc.";
        const std::string k = b.key;
        const long lo = r->getLowTapPosition(), hi = r->getHighTapPosition(), pos = r->getTapPosition();
        const bool reg = r->isRegulating(), ltc = r->hasLoadTapChangingCapabilities();
        const double tv = r->getTargetV(), db = r->getTargetDeadband();
        const bool term = static_cast<bool>(r->getRegulationTerminal());
        b.add(true, "rtc.position", [=, &w](SetOp& o) {
            long x = w.wild() ? (w.s.chance(50) ? lo - 1 - static_cast<long>(w.s.draw(2)) : hi + 1 + static_cast<long>(w.s.draw(2))) : w.s.range(lo, hi);
            if (x < lo || x > hi) o.r.bad("position " + std::to_string(x) + " out of range");
            o.r.exp[k + "position"] = std::to_string(x);
            o.apply = [r, x]() { r->setTapPosition(x); };
        });
        b.numIf(true, "targetV", {tv}, [r](double x) { r->setTargetV(x); }, [=](double x) { return reg && ltc ? needVoltage(x) : std::string(); });
        b.numIf(true, "deadband", {db, 0.0}, [r](double x) { r->setTargetDeadband(x); }, [=](double x) { return x < 0 ? std::string("negative deadband") : reg && std::isnan(x) ? std::string("deadband undefined while regulating") : std::string(); });
        TapSite s2 = site;
        b.flag(true, "regulating", [r](bool x) { r->setRegulating(x); }, [=](bool x) -> std::string {
            if (!x) return "";
            if (std::isnan(db)) return "regulating without deadband";
            if (ltc && !(tv > 0)) return "regulating without target";
            if (ltc && !term) return "regulating without terminal";
            if (otherRegulating(s2, true)) return "another tap changer of the transformer is regulating";
            return "";
        });
        b.flag(false, "ltc", [r](bool x) { r->setLoadTapChangingCapabilities(x); }, [=](bool x) -> std::string {
            if (x && reg && !(tv > 0)) return "regulating without target";
            if (x && reg && !term) return "regulating without terminal";
            return "";
        });
        if (w.o.remoteRegulation) b.add(false, "rtc.terminal", [=, &w](SetOp& o) {
            auto t = w.regTerminal(o.r);
            if (!t && reg && ltc) {
                if (w.o.wild) o.r.bad("regulating without terminal");
                else if (!w.terminals().empty()) t = stdcxx::ref(*w.terminals().front());
            }
            o.r.exp[k + "terminal"] = t && o.r.ok ? model::termRef(t.get()) : "none";
            o.apply = [r, t]() { r->setRegulationTerminal(t); };
        });
        b.add(false, "rtc.low", [=, &w](SetOp& o) {
            long x = w.s.range(-10, 10);
            o.r.exp[k + "low"] = std::to_string(x);
            o.r.exp[k + "high"] = std::to_string(x + hi - lo);
            o.r.exp[k + "position"] = std::to_string(pos + x - lo);
            o.r.also = {k + "steps", k + "position"};
            o.apply = [r, x]() { r->setLowTapPosition(x); };
        });
    }
    if (site.phase->hasPhaseTapChanger()) {
        PhaseTapChanger* r = &site.phase->getPhaseTapChanger();
        using Mode = PhaseTapChanger::RegulationMode;
        b.key = site.key + "ptc.";
        const std::string k = b.key;
        const long lo = r->getLowTapPosition(), hi = r->getHighTapPosition(), pos = r->getTapPosition();
        const bool reg = r->isRegulating();
        const double rv = r->getRegulationValue(), db = r->getTargetDeadband();
        const bool term = static_cast<bool>(r->getRegulationTerminal());
        const Mode mode = r->getRegulationMode();
        b.add(true, "ptc.position", [=, &w](SetOp& o) {
            long x = w.wild() ? (w.s.chance(50) ? lo - 1 - static_cast<long>(w.s.draw(2)) : hi + 1 + static_cast<long>(w.s.draw(2))) : w.s.range(lo, hi);
            if (x < lo || x > hi) o.r.bad("position " + std::to_string(x) + " out of range");
            o.r.exp[k + "position"] = std::to_string(x);
            o.apply = [r, x]() { r->setTapPosition(x); };
        });
        auto valid = [=](bool on, Mode m, double val, bool t) -> std::string {
            if (!on) return "";
            if (m == Mode::FIXED_TAP) return "regulating with fixed tap";
            if (std::isnan(val)) return "regulating without value";
            if (!t) return "regulating without terminal";
            return "";
        };
        b.numIf(true, "value", {rv}, [r](double x) { r->setRegulationValue(x); }, [=](double x) { return valid(reg, mode, x, term); });
        b.numIf(true, "deadband", {db, 0.0}, [r](double x) { r->setTargetDeadband(x); }, [=](double x) { return x < 0 ? std::string("negative deadband") : reg && std::isnan(x) ? std::string("deadband undefined while regulating") : std::string(); });
        TapSite s2 = site;
        b.flag(true, "regulating", [r](bool x) { r->setRegulating(x); }, [=](bool x) -> std::string {
            if (!x) return "";
            if (std::isnan(db)) return "regulating without deadband";
            std::string y = valid(true, mode, rv, term);
            if (!y.empty()) return y;
            if (otherRegulating(s2, false)) return "another tap changer of the transformer is regulating";
            return "";
        });
        b.enumeration<Mode>(false, "mode", {Mode::CURRENT_LIMITER, Mode::ACTIVE_POWER_CONTROL, Mode::FIXED_TAP}, [r](Mode m) { r->setRegulationMode(m); }, [=](Mode m) { return valid(reg, m, rv, term); });
        if (w.o.remoteRegulation) b.add(false, "ptc.terminal", [=, &w](SetOp& o) {
            auto t = w.regTerminal(o.r);
            if (!t && reg) {
                if (w.o.wild) o.r.bad("regulating without terminal");
                else if (!w.terminals().empty()) t = stdcxx::ref(*w.terminals().front());
            }
            o.r.exp[k + "terminal"] = t && o.r.ok ? model::termRef(t.get()) : "none";
            o.apply = [r, t]() { r->setRegulationTerminal(t); };
        });
        b.add(false, "ptc.low", [=, &w](SetOp& o) {
            long x = w.s.range(-10, 10);
            o.r.exp[k + "low"] = std::to_string(x);
            o.r.exp[k + "high"] = std::to_string(x + hi - lo);
            o.r.exp[k + "position"] = std::to_string(pos + x - lo);
            o.r.also = {k + "steps", k + "position"};
            o.apply = [r, x]() { r->setLowTapPosition(x); };
        });
    }
    b.key = save;
}

void limitsOf(B& b, const std::string& attr, const stdcxx::Reference<LoadingLimits>& l) {
    if (!l) return;
    World& w = b.w;
    LoadingLimits* p = &l.get();
    const std::string full = b.key + attr;
    const double cur = p->getPermanentLimit();
    b.add(false, attr + " permanent", [&w, p, full, cur](SetOp& o) {
        double x = w.num(o.r, POS_N, "permanent limit", {cur});
        std::string e = "perm=" + hex(x);
        for (const auto& t : p->getTemporaryLimits()) e += "; " + t.getName() + "|" + hex(t.getValue()) + "|" + std::to_string(t.getAcceptableDuration()) + "|" + (t.isFictitious() ? "f" : "-");
        o.r.exp[full] = e;
        o.apply = [p, x]() { p->setPermanentLimit(x); };
    });
}
template <typename L> stdcxx::Reference<LoadingLimits> up(const stdcxx::Reference<L>& l) { return l ? stdcxx::ref<LoadingLimits>(l.get()) : stdcxx::Reference<LoadingLimits>(); }

void branchLimits(B& b, Branch& x) {
    limitsOf(b, "currentLimits1", up(x.getCurrentLimits1()));
    limitsOf(b, "currentLimits2", up(x.getCurrentLimits2()));
    limitsOf(b, "activeLimits1", up(x.getActivePowerLimits1()));
    limitsOf(b, "activeLimits2", up(x.getActivePowerLimits2()));
    limitsOf(b, "apparentLimits1", up(x.getApparentPowerLimits1()));
    limitsOf(b, "apparentLimits2", up(x.getApparentPowerLimits2()));
}
void flowLimits(B& b, const std::string& k, FlowsLimitsHolder& x) {
    limitsOf(b, k + "currentLimits", up(x.getCurrentLimits()));
    limitsOf(b, k + "activeLimits", up(x.getActivePowerLimits()));
    limitsOf(b, k + "apparentLimits", up(x.getApparentPowerLimits()));
}

}  // namespace

std::vector<SetGen> setters(World& w, Identifiable& i, bool stateOnly) {
    std::vector<SetGen> v;
    B b{w, v, stateOnly, prefixOf(i) + ".", i.getId()};
    Identifiable* ip = &i;
    b.flag(false, "fictitious", [ip](bool x) { ip->setFictitious(x); }, nullptr);

    if (auto* k = dynamic_cast<Connectable*>(&i)) {
        unsigned n = 1;
        const bool bbs = k->getType() == ConnectableType::BUSBAR_SECTION, shunt = k->getType() == ConnectableType::SHUNT_COMPENSATOR;
        for (Terminal& t : k->getTerminals()) {
            Terminal* tp = &t;
            const std::string pre = "t" + std::to_string(n++) + ".";
            if (!bbs || w.o.wild) {
                if (!shunt || w.o.wild) b.numIf(true, pre + "p", {}, [tp](double x) { tp->setP(x); }, [bbs, shunt](double x) { return bbs ? std::string("p of a busbar section") : shunt && !std::isnan(x) ? std::string("p of a shunt") : std::string(); });
                b.numIf(true, pre + "q", {}, [tp](double x) { tp->setQ(x); }, [bbs](double) { return bbs ? std::string("q of a busbar section") : std::string(); });
            }
        }
    }
    if (auto* o = dynamic_cast<Network*>(&i)) {
        w.n.getId();
        b.add(false, "forecastDistance", [&w, o](SetOp& op) {
            int x = static_cast<int>(w.s.draw(2000));
            if (w.wild()) { x = -1 - x; op.r.bad("negative forecast distance"); }
            op.r.exp["network.forecastDistance"] = std::to_string(x);
            op.apply = [o, x]() { o->setForecastDistance(x); };
        });
        b.add(false, "caseDate", [&w, o](SetOp& op) {
            static const char* const dates[] = {"2020-01-02T03:04:05.006Z", "1999-12-31T23:59:59.999Z", "2016-02-29T12:00:00.000Z", "2038-01-19T03:14:08.500Z"};
            stdcxx::DateTime d = stdcxx::DateTime::parse(dates[w.s.draw(4)]);
            op.r.exp["network.caseDate"] = d.toString();
            op.apply = [o, d]() { o->setCaseDate(d); };
        });
    } else if (auto* o = dynamic_cast<Substation*>(&i)) {
        b.add(false, "country", [&w, o](SetOp& op) {
            stdcxx::optional<Country> c;
            if (w.s.chance(80)) c = w.s.pickOf({Country::FR, Country::BE, Country::DE, Country::US, Country::ZW});
            op.r.exp["sub:" + o->getId() + ".country"] = c ? std::to_string(static_cast<int>(*c)) : "none";
            op.r.also = {"network.list.countries"};
            op.apply = [o, c]() { o->setCountry(c); };
        });
        b.add(false, "tso", [&w, o](SetOp& op) {
            std::string t = w.text();
            op.r.exp["sub:" + o->getId() + ".tso"] = t;
            op.apply = [o, t]() { o->setTso(t); };
        });
        b.add(false, "tags", [&w, o](SetOp& op) {
            std::string t = w.word();
            if (t.find(',') != std::string::npos) t = "tag";
            std::set<std::string> tags(o->getGeographicalTags().begin(), o->getGeographicalTags().end());
            tags.insert(t);
            std::string j = "[";
            for (const auto& x : tags) j += (j.size() > 1 ? "," : "") + x;
            op.r.exp["sub:" + o->getId() + ".tags"] = j + "]";
            op.apply = [o, t]() { o->addGeographicalTag(t); };
        });
    } else if (auto* o = dynamic_cast<VoltageLevel*>(&i)) {
        b.num(false, "nominalV", POS, o->getNominalV(), [o](double x) { o->setNominalV(x); });
        const double lo = o->getLowVoltageLimit(), hi = o->getHighVoltageLimit();
        b.numIf(false, "lowVoltageLimit", {lo, hi}, [o](double x) { o->setLowVoltageLimit(x); }, [=](double x) { return x < 0 ? std::string("negative limit") : x > hi ? std::string("low above high") : std::string(); });
        b.numIf(false, "highVoltageLimit", {lo, hi}, [o](double x) { o->setHighVoltageLimit(x); }, [=](double x) { return x < 0 ? std::string("negative limit") : x < lo ? std::string("high below low") : std::string(); });
    } else if (auto* o = dynamic_cast<Switch*>(&i)) {
        b.flag(true, "open", [o](bool x) { o->setOpen(x); }, nullptr);
        const bool nb = o->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER;
        if (nb || w.o.wild) b.flag(true, "retained", [o](bool x) { o->setRetained(x); }, [nb](bool) { return nb ? std::string() : std::string("retained in a bus/breaker level"); });
    } else if (auto* o = dynamic_cast<Bus*>(&i)) {
        b.num(true, "v", NONNEG_N, o->getV(), [o](double x) { o->setV(x); });
        b.num(true, "angle", FIN_N, o->getAngle(), [o](double x) { o->setAngle(x); });
    } else if (auto* o = dynamic_cast<HvdcLine*>(&i)) {
        b.num(false, "r", FIN, o->getR(), [o](double x) { o->setR(x); });
        b.num(false, "nominalV", POS, o->getNominalV(), [o](double x) { o->setNominalV(x); });
        b.num(false, "maxP", NONNEG, o->getMaxP(), [o](double x) { o->setMaxP(x); });
        b.num(true, "activePowerSetpoint", NONNEG, o->getActivePowerSetpoint(), [o](double x) { o->setActivePowerSetpoint(x); });
        b.enumeration<HvdcLine::ConvertersMode>(true, "convertersMode", {HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER, HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER}, [o](HvdcLine::ConvertersMode m) { o->setConvertersMode(m); });
    } else if (auto* o = dynamic_cast<Load*>(&i)) {
        b.num(true, "p0", FIN, o->getP0(), [o](double x) { o->setP0(x); });
        b.num(true, "q0", FIN, o->getQ0(), [o](double x) { o->setQ0(x); });
        b.enumeration<LoadType>(false, "loadType", {LoadType::UNDEFINED, LoadType::AUXILIARY, LoadType::FICTITIOUS}, [o](LoadType m) { o->setLoadType(m); });
    } else if (auto* o = dynamic_cast<Battery*>(&i)) {
        b.num(true, "p0", FIN, o->getP0(), [o](double x) { o->setP0(x); });
        b.num(true, "q0", FIN, o->getQ0(), [o](double x) { o->setQ0(x); });
        activeLimits(b, *o, o->getMinP(), o->getMaxP());
    } else if (auto* o = dynamic_cast<Generator*>(&i)) {
        activeLimits(b, *o, o->getMinP(), o->getMaxP());
        const bool syn = w.s.chance(50);
        if (syn) b.num(true, "targetP", FIN, o->getTargetP(), [o](double x) { o->setTargetP(x); });
        else b.num(true, "targetP", FIN, o->getTargetP(), [o](double x) { o->setActivePowerSetpoint(x); });
        if (syn) voltageControl(b, "voltageRegulatorOn", "targetV", "targetQ", o->isVoltageRegulatorOn(), o->getTargetV(), o->getTargetQ(), [o](bool x) { o->setVoltageRegulatorOn(x); }, [o](double x) { o->setTargetV(x); }, [o](double x) { o->setTargetQ(x); });
        else voltageControl(b, "voltageRegulatorOn", "targetV", "targetQ", o->isVoltageRegulatorOn(), o->getTargetV(), o->getTargetQ(), [o](bool x) { o->setVoltageRegulatorOn(x); }, [o](double x) { o->setVoltageSetpoint(x); }, [o](double x) { o->setReactivePowerSetpoint(x); });
        b.num(false, "ratedS", POS_N, o->getRatedS(), [o](double x) { o->setRatedS(x); });
        b.enumeration<EnergySource>(false, "energySource", {EnergySource::HYDRO, EnergySource::NUCLEAR, EnergySource::WIND, EnergySource::THERMAL, EnergySource::SOLAR, EnergySource::OTHER}, [o](EnergySource m) { o->setEnergySource(m); });
        b.regTerm("regulatingTerminal", o->getId() + "#1", [o](const stdcxx::Reference<Terminal>& t) { o->setRegulatingTerminal(t); });
    } else if (auto* o = dynamic_cast<ShuntCompensator*>(&i)) {
        const unsigned long mx = o->getMaximumSectionCount(), cur = o->getSectionCount();
        b.add(true, "sectionCount", [&w, o, mx](SetOp& op) {
            unsigned long x = w.s.draw(mx + 1);
            if (w.wild()) { x = mx + 1 + w.s.draw(3); op.r.bad("section count above maximum"); }
            op.r.exp["eq:" + o->getId() + ".sectionCount"] = std::to_string(x);
            op.apply = [o, x]() { o->setSectionCount(x); };
        });
        const bool on = o->isVoltageRegulatorOn();
        const double tv = o->getTargetV(), db = o->getTargetDeadband();
        b.numIf(true, "targetV", {tv}, [o](double x) { o->setTargetV(x); }, [=](double x) { return on ? needVoltage(x) : std::string(); });
        b.numIf(true, "targetDeadband", {db, 0.0}, [o](double x) { o->setTargetDeadband(x); }, [=](double x) { return x < 0 ? std::string("negative deadband") : on && std::isnan(x) ? std::string("deadband undefined while regulating") : std::string(); });
        b.flag(true, "voltageRegulatorOn", [o](bool x) { o->setVoltageRegulatorOn(x); }, [=](bool x) -> std::string {
            if (!x) return "";
            if (std::isnan(db)) return "regulating without deadband";
            return needVoltage(tv);
        });
        b.regTerm("regulatingTerminal", o->getId() + "#1", [o](const stdcxx::Reference<Terminal>& t) { o->setRegulatingTerminal(t); });
        if (o->getModelType() == ShuntCompensatorModelType::LINEAR) {
            auto* m = &o->getModel<ShuntCompensatorLinearModel>();
            b.num(false, "bPerSection", FIN, m->getBPerSection(), [m](double x) { m->setBPerSection(x); });
            b.num(false, "gPerSection", FIN_N, m->getGPerSection(), [m](double x) { m->setGPerSection(x); });
            b.add(false, "maxSections", [&w, o, m, cur](SetOp& op) {
                unsigned long need = cur;
                auto& vm = w.n.getVariantManager();
                const std::string here = vm.getWorkingVariantId();
                for (const std::string& id : vm.getVariantIds()) { vm.setWorkingVariant(id); need = std::max(need, o->getSectionCount()); }
                vm.setWorkingVariant(here);
                unsigned long x = std::max(1UL, need) + w.s.draw(6);
                if (w.wild()) x = need > 0 && w.s.chance(80) ? need - 1 : 0;
                if (x < need || x == 0) op.r.bad("maximum below the section count of a variant");
                op.r.exp["eq:" + o->getId() + ".maxSections"] = std::to_string(x);
                op.apply = [m, x]() { m->setMaximumSectionCount(x); };
            });
        } else {
            auto& m = o->getModel<ShuntCompensatorNonLinearModel>();
            const size_t count = static_cast<size_t>(mx);
            auto text = [o](size_t changed, bool isB, double x) {
                std::string t;
                size_t n = 0;
                for (const auto& s : o->getModel<ShuntCompensatorNonLinearModel>().getAllSections()) {
                    t += "(" + hex(n == changed && isB ? x : s.getB()) + " " + hex(n == changed && !isB ? x : s.getG()) + ")";
                    ++n;
                }
                return t;
            };
            (void)m;
            b.add(false, "section", [&w, o, count, text](SetOp& op) {
                size_t at = w.s.draw(count);
                bool isB = w.s.chance(50);
                double x = w.num(op.r, FIN, isB ? "section b" : "section g");
                op.r.exp["eq:" + o->getId() + ".sections"] = text(at, isB, x);
                op.apply = [o, at, isB, x]() {
                    size_t n = 0;
                    for (auto& s : o->getModel<ShuntCompensatorNonLinearModel>().getAllSections()) {
                        if (n++ == at) { if (isB) s.setB(x); else s.setG(x); }
                    }
                };
            });
        }
    } else if (auto* o = dynamic_cast<StaticVarCompensator*>(&i)) {
        using Mode = StaticVarCompensator::RegulationMode;
        const Mode mode = o->getRegulationMode();
        const double sv = o->getVoltageSetpoint(), sq = o->getReactivePowerSetpoint();
        auto valid = [](Mode m, double vv, double q) -> std::string {
            if (m == Mode::VOLTAGE && std::isnan(vv)) return "voltage regulation without setpoint";
            if (m == Mode::REACTIVE_POWER && std::isnan(q)) return "reactive regulation without setpoint";
            return "";
        };
        b.num(false, "bMin", FIN, o->getBmin(), [o](double x) { o->setBmin(x); });
        b.num(false, "bMax", FIN, o->getBmax(), [o](double x) { o->setBmax(x); });
        b.numIf(true, "voltageSetpoint", {sv}, [o](double x) { o->setVoltageSetpoint(x); }, [=](double x) { return valid(mode, x, sq); });
        b.numIf(true, "reactivePowerSetpoint", {sq}, [o](double x) { o->setReactivePowerSetpoint(x); }, [=](double x) { return valid(mode, sv, x); });
        b.enumeration<Mode>(true, "regulationMode", {Mode::OFF, Mode::VOLTAGE, Mode::REACTIVE_POWER}, [o](Mode m) { o->setRegulationMode(m); }, [=](Mode m) { return valid(m, sv, sq); });
        b.regTerm("regulatingTerminal", o->getId() + "#1", [o](const stdcxx::Reference<Terminal>& t) { o->setRegulatingTerminal(t); });
    } else if (auto* o = dynamic_cast<DanglingLine*>(&i)) {
        b.num(false, "r", FIN, o->getR(), [o](double x) { o->setR(x); });
        b.num(false, "x", FIN, o->getX(), [o](double x) { o->setX(x); });
        b.num(false, "g", FIN, o->getG(), [o](double x) { o->setG(x); });
        b.num(false, "b", FIN, o->getB(), [o](double x) { o->setB(x); });
        b.num(true, "p0", FIN, o->getP0(), [o](double x) { o->setP0(x); });
        b.num(true, "q0", FIN, o->getQ0(), [o](double x) { o->setQ0(x); });
        if (o->getGeneration()) {
            auto* g = &o->getGeneration().get();
            const std::string save = b.key;
            b.key += "gen.";
            activeLimits(b, *g, g->getMinP(), g->getMaxP());
            b.num(true, "targetP", FIN, g->getTargetP(), [g](double x) { g->setTargetP(x); });
            voltageControl(b, "voltageRegulationOn", "targetV", "targetQ", g->isVoltageRegulationOn(), g->getTargetV(), g->getTargetQ(), [g](bool x) { g->setVoltageRegulationOn(x); }, [g](double x) { g->setTargetV(x); }, [g](double x) { g->setTargetQ(x); });
            b.key = save;
        }
        flowLimits(b, "", *o);
    } else if (auto* o = dynamic_cast<LccConverterStation*>(&i)) {
        b.num(false, "lossFactor", PCT, o->getLossFactor(), [o](double x) { o->setLossFactor(x); });
        b.num(false, "powerFactor", UNIT, o->getPowerFactor(), [o](double x) { o->setPowerFactor(x); });
    } else if (auto* o = dynamic_cast<VscConverterStation*>(&i)) {
        b.num(false, "lossFactor", PCT, o->getLossFactor(), [o](double x) { o->setLossFactor(x); });
        voltageControl(b, "voltageRegulatorOn", "voltageSetpoint", "reactivePowerSetpoint", o->isVoltageRegulatorOn(), o->getVoltageSetpoint(), o->getReactivePowerSetpoint(), [o](bool x) { o->setVoltageRegulatorOn(x); }, [o](double x) { o->setVoltageSetpoint(x); }, [o](double x) { o->setReactivePowerSetpoint(x); });
    } else if (auto* o = dynamic_cast<TieLine*>(&i)) {
        unsigned h = 1;
        for (auto* half : {&o->getHalf1(), &o->getHalf2()}) {
            auto* hp = const_cast<TieLine::HalfLine*>(half);
            const std::string save = b.key;
            b.key += "half" + std::to_string(h++) + ".";
            b.num(false, "r", FIN, hp->getR(), [hp](double x) { hp->setR(x); });
            b.num(false, "x", FIN, hp->getX(), [hp](double x) { hp->setX(x); });
            b.num(false, "g1", FIN, hp->getG1(), [hp](double x) { hp->setG1(x); });
            b.num(false, "g2", FIN, hp->getG2(), [hp](double x) { hp->setG2(x); });
            b.num(false, "b1", FIN, hp->getB1(), [hp](double x) { hp->setB1(x); });
            b.num(false, "b2", FIN, hp->getB2(), [hp](double x) { hp->setB2(x); });
            b.flag(false, "fictitious", [hp](bool x) { hp->setFictitious(x); }, nullptr);
            b.key = save;
        }
        if (w.o.wild) {
            b.add(false, "parameter", [&w, o](SetOp& op) {
                op.r.bad("direct modification of a tie line");
                int which = static_cast<int>(w.s.draw(6));
                op.apply = [o, which]() {
                    switch (which) {
                        case 0: o->setR(1); break;
                        case 1: o->setX(1); break;
                        case 2: o->setG1(1); break;
                        case 3: o->setG2(1); break;
                        case 4: o->setB1(1); break;
                        default: o->setB2(1); break;
                    }
                };
            });
        }
        branchLimits(b, *o);
    } else if (auto* o = dynamic_cast<Line*>(&i)) {
        b.num(false, "r", FIN, o->getR(), [o](double x) { o->setR(x); });
        b.num(false, "x", FIN, o->getX(), [o](double x) { o->setX(x); });
        b.num(false, "g1", FIN, o->getG1(), [o](double x) { o->setG1(x); });
        b.num(false, "g2", FIN, o->getG2(), [o](double x) { o->setG2(x); });
        b.num(false, "b1", FIN, o->getB1(), [o](double x) { o->setB1(x); });
        b.num(false, "b2", FIN, o->getB2(), [o](double x) { o->setB2(x); });
        branchLimits(b, *o);
    } else if (auto* o = dynamic_cast<TwoWindingsTransformer*>(&i)) {
        b.num(false, "r", FIN, o->getR(), [o](double x) { o->setR(x); });
        b.num(false, "x", FIN, o->getX(), [o](double x) { o->setX(x); });
        b.num(false, "g", FIN, o->getG(), [o](double x) { o->setG(x); });
        b.num(false, "b", FIN, o->getB(), [o](double x) { o->setB(x); });
        b.num(false, "ratedU1", FIN, o->getRatedU1(), [o](double x) { o->setRatedU1(x); });
        b.num(false, "ratedU2", FIN, o->getRatedU2(), [o](double x) { o->setRatedU2(x); });
        b.num(false, "ratedS", POS_N, o->getRatedS(), [o](double x) { o->setRatedS(x); });
        tapChangers(b, TapSite{o, "eq:" + o->getId() + ".", o, o, 0});
        branchLimits(b, *o);
    } else if (auto* o = dynamic_cast<ThreeWindingsTransformer*>(&i)) {
        unsigned k = 1;
        for (auto* l : {&o->getLeg1(), &o->getLeg2(), &o->getLeg3()}) {
            const std::string save = b.key, leg = "leg" + std::to_string(k) + ".";
            b.key += leg;
            b.num(false, "r", FIN, l->getR(), [l](double x) { l->setR(x); });
            b.num(false, "x", FIN, l->getX(), [l](double x) { l->setX(x); });
            b.num(false, "g", FIN, l->getG(), [l](double x) { l->setG(x); });
            b.num(false, "b", FIN, l->getB(), [l](double x) { l->setB(x); });
            b.num(false, "ratedU", FIN, l->getRatedU(), [l](double x) { l->setRatedU(x); });
            b.num(false, "ratedS", POS_N, l->getRatedS(), [l](double x) { l->setRatedS(x); });
            b.key = save;
            tapChangers(b, TapSite{o, "eq:" + o->getId() + "." + leg, l, l, k});
            flowLimits(b, leg, *l);
            ++k;
        }
    }
    return v;
}

void World::setOn(Identifiable& i, bool stateOnly) {
    last = Rec();
    auto v = setters(*this, i, stateOnly);
    if (v.empty()) return;
    SetOp op = v[s.draw(v.size())]();
    if (!op.apply) return;
    attempt(op.r, op.apply);
}

void World::set(bool stateOnly) {
    last = Rec();
    std::vector<Identifiable*> v;
    for (Identifiable* i : identifiables()) {
        if (stateOnly && (dynamic_cast<Substation*>(i) || dynamic_cast<VoltageLevel*>(i) || dynamic_cast<BusbarSection*>(i) || dynamic_cast<Network*>(i))) continue;
        v.push_back(i);
    }
    if (v.empty()) return;
    if (s.chance(50)) { setOn(*pickVaried(), stateOnly); return; }
    setOn(*v[s.draw(v.size())], stateOnly);
}

}  // namespace gen
