// Extensions: creation, modification and removal with predicted outcome.
#include "gen.hpp"

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>

#include <cmath>
#include <limits>

namespace gen {

using namespace powsybl::iidm;
namespace ex = powsybl::iidm::extensions;
using pbt::hex;

static const double NaN = std::numeric_limits<double>::quiet_NaN();

namespace {

struct E {
    World& w;
    Identifiable& i;
    std::vector<ExtGen>& v;
    std::string name, key;

    void type(const std::string& extName) { name = extName; key = prefixOf(i) + ".ext[" + extName + "]."; }
    void op(int kind, const std::string& what, bool state, const std::function<void(SetOp&)>& fill) {
        const std::string id = i.getId(), n = name;
        v.push_back(ExtGen{kind, name, [=]() {
            SetOp o;
            o.r.what = what + " " + n + " of";
            o.r.id = id;
            o.r.state = state;
            fill(o);
            return o;
        }, state});
    }
    template <typename T> bool has() { return static_cast<bool>(i.findExtension<T>()); }
    template <typename T> void removal() {
        Identifiable* p = &i;
        const std::string pre = key;
        op(REMOVE, "remove", false, [p](SetOp& o) { o.apply = [p]() { p->removeExtension<T>(); }; });
    }
    // setter of a number with a check
    void num(const std::string& attr, bool state, K k, const std::function<void(double)>& set) {
        World& ww = w;
        const std::string full = key + attr;
        op(SET, "set " + attr + " of", state, [&ww, k, set, full, attr](SetOp& o) {
            double x = ww.num(o.r, k, attr);
            o.r.what += " = " + pbt::show(x);
            o.r.exp[full] = hex(x);
            o.apply = [set, x]() { set(x); };
        });
    }
    template <typename T> void value(const std::string& attr, std::function<T()> draw, std::function<std::string(const T&)> show, std::function<void(const T&)> set, std::function<bool(const T&)> valid = nullptr) {
        const std::string full = key + attr;
        op(SET, "set " + attr + " of", false, [=](SetOp& o) {
            T x = draw();
            o.r.what += " = " + show(x);
            o.r.exp[full] = show(x);
            if (valid && !valid(x)) o.r.bad("invalid " + attr);
            o.apply = [set, x]() { set(x); };
        });
    }
    void flag(const std::string& attr, const std::function<void(bool)>& set) {
        World& ww = w;
        value<bool>(attr, [&ww]() { return ww.s.chance(50); }, [](const bool& b) { return std::string(b ? "true" : "false"); }, [set](const bool& b) { set(b); });
    }
    void text(const std::string& attr, bool nonEmpty, const std::function<void(const std::string&)>& set) {
        World& ww = w;
        value<std::string>(attr, [&ww, nonEmpty]() { return nonEmpty && !ww.wild() ? ww.word() : nonEmpty && ww.o.wild ? ww.text() : ww.text(); }, [](const std::string& x) { return x; },
                           [set](const std::string& x) { set(x); }, [nonEmpty](const std::string& x) { return !nonEmpty || !x.empty(); });
    }
    void index(const std::string& attr, unsigned long max, const std::function<void(unsigned long)>& set) {
        World& ww = w;
        value<unsigned long>(attr, [&ww, max]() { return ww.wild() ? ww.s.pickOf({max + 1, max + 7, ~0UL}) : ww.s.draw(std::min(max + 1, 100UL)); }, [](const unsigned long& x) { return std::to_string(x); },
                             [set](const unsigned long& x) { set(x); }, [max](const unsigned long& x) { return x <= max; });
    }
};

std::string feederText(const std::string& name, unsigned long order, ex::sld::ConnectablePosition::Direction d) {
    return name + "|" + std::to_string(order) + "|" + std::to_string(static_cast<int>(d));
}
std::string joined(const std::map<std::string, std::string>& m) {
    std::string o = "[";
    for (const auto& e : m) o += (o.size() > 1 ? "," : "") + e.first + "=" + e.second;
    return o + "]";
}

std::string listed(std::vector<std::string> v) {
    std::sort(v.begin(), v.end());
    std::string o = "[";
    for (const auto& x : v) o += (o.size() > 1 ? "," : "") + x;
    return o + "]";
}

// a measurement, as the dump shows it
struct M1 {
    std::string id, type, place, value, deviation;  // (deviation: only for measurements)
    bool valid = false;
    std::map<std::string, std::string> props;
    std::string text() const { return id + "|" + type + "|" + place + "|" + value + "|" + (deviation.empty() ? "" : deviation + "|") + (valid ? "v" : "-") + "|" + joined(props); }
};
std::vector<M1> measurementsOf(ex::iidm::Measurements& x) {
    std::vector<M1> r;
    for (const auto& m : x.getMeasurements()) {
        M1 e{m.getId(), std::to_string(static_cast<int>(m.getType())), m.getSide() ? std::to_string(static_cast<int>(*m.getSide())) : "-", hex(m.getValue()), hex(m.getStandardDeviation()), m.isValid(), {}};
        for (const auto& n : m.getPropertyNames()) e.props[n] = m.getProperty(n);
        r.push_back(e);
    }
    return r;
}
std::vector<M1> measurementsOf(ex::iidm::DiscreteMeasurements& x) {
    using T = ex::iidm::DiscreteMeasurement::ValueType;
    std::vector<M1> r;
    for (const auto& m : x.getDiscreteMeasurements()) {
        const T t = m.getValueType();
        M1 e{m.getId(), std::to_string(static_cast<int>(m.getType())), m.getTapChanger() ? std::to_string(static_cast<int>(*m.getTapChanger())) : "-",
             t == T::BOOLEAN ? std::string("b") + (m.getValueAsBoolean() ? "1" : "0") : t == T::INT ? "i" + std::to_string(m.getValueAsInt()) : "s" + m.getValueAsString(), "", m.isValid(), {}};
        for (const auto& n : m.getPropertyNames()) e.props[n] = m.getProperty(n);
        r.push_back(e);
    }
    return r;
}
std::string textOf(const std::vector<M1>& v) {
    std::vector<std::string> r;
    for (const auto& m : v) r.push_back(m.text());
    return listed(r);
}

}  // namespace

std::vector<ExtGen> extensionOps(World& w, Identifiable& i) {
    std::vector<ExtGen> v;
    E e{w, i, v, "", ""};
    Identifiable* p = &i;
    World* ww = &w;

    auto anyTerminal = [ww]() -> Terminal* {
        auto t = ww->terminals();
        return t.empty() ? nullptr : t[ww->s.draw(t.size())];
    };

    if (dynamic_cast<Load*>(p) || w.o.wrongOwners) {
        e.type("detail");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::LoadDetailAdder>(p->newExtension<ex::LoadDetailAdder>());
            double x[4];
            const char* names[] = {"fixedP", "fixedQ", "variableP", "variableQ"};
            const bool unset = ww->wild();
            for (int j = 0; j < 4; ++j) {
                if (j == 0 && unset) continue;
                x[j] = ww->num(o.r, FIN, names[j]);
                o.r.exp[k + names[j]] = hex(x[j]);
            }
            if (unset) o.r.exp[k + "fixedP"] = hex(0.0); else a->withFixedActivePower(x[0]);
            a->withFixedReactivePower(x[1]).withVariableActivePower(x[2]).withVariableReactivePower(x[3]);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::LoadDetail>()) {
            auto* x = &i.getExtension<ex::LoadDetail>();
            e.num("fixedP", true, FIN, [x](double d) { x->setFixedActivePower(d); });
            e.num("fixedQ", true, FIN, [x](double d) { x->setFixedReactivePower(d); });
            e.num("variableP", true, FIN, [x](double d) { x->setVariableActivePower(d); });
            e.num("variableQ", true, FIN, [x](double d) { x->setVariableReactivePower(d); });
            e.removal<ex::LoadDetail>();
        }
    }
    if (auto* vl = dynamic_cast<VoltageLevel*>(p)) {
        e.type("slackTerminal");
        const std::string k = e.key, id = i.getId();
        auto pickTerminal = [ww, vl](Rec& r) -> Terminal* {
            std::vector<Terminal*> own, foreign;
            for (Terminal* t : ww->terminals()) (&t->getVoltageLevel() == vl ? own : foreign).push_back(t);
            if (ww->wild() && !foreign.empty()) { r.bad("terminal of another voltage level"); return foreign[ww->s.draw(foreign.size())]; }
            return own.empty() ? nullptr : own[ww->s.draw(own.size())];
        };
        e.op(ADD, "add", false, [ww, p, k, pickTerminal](SetOp& o) {
            auto a = std::make_shared<ex::SlackTerminalAdder>(p->newExtension<ex::SlackTerminalAdder>());
            Terminal* t = ww->wild() ? nullptr : pickTerminal(o.r);
            if (!t && !ww->o.wild) return;
            if (!t) o.r.bad("terminal not set");
            else { a->withTerminal(*t); o.r.exp[k + "terminal"] = model::termRef(*t); }
            // (defined in the working variant only)
            o.r.state = true;
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::SlackTerminal>()) {
            auto* x = &i.getExtension<ex::SlackTerminal>();
            e.op(SET, "set terminal of", true, [ww, x, k, pickTerminal](SetOp& o) {
                Terminal* t = ww->s.chance(30) ? nullptr : pickTerminal(o.r);
                o.r.exp[k + "terminal"] = t ? model::termRef(*t) : "none";
                o.apply = [x, t]() { x->setTerminal(t ? stdcxx::ref<Terminal>(*t) : stdcxx::Reference<Terminal>()); };
            });
            e.removal<ex::SlackTerminal>();
        }
    }
    if (dynamic_cast<Substation*>(p)) {
        e.type("entsoeArea");
        const std::string k = e.key;
        auto draw = [ww]() { return static_cast<ex::entsoe::EntsoeGeographicalCode>(ww->s.draw(43)); };
        e.op(ADD, "add", false, [ww, p, k, draw](SetOp& o) {
            auto a = std::make_shared<ex::entsoe::EntsoeAreaAdder>(p->newExtension<ex::entsoe::EntsoeAreaAdder>());
            if (ww->wild()) o.r.bad("code not set");
            else { auto c = draw(); a->withCode(c); o.r.exp[k + "code"] = std::to_string(static_cast<int>(c)); }
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::entsoe::EntsoeArea>()) {
            auto* x = &i.getExtension<ex::entsoe::EntsoeArea>();
            e.value<ex::entsoe::EntsoeGeographicalCode>("code", draw, [](const ex::entsoe::EntsoeGeographicalCode& c) { return std::to_string(static_cast<int>(c)); }, [x](const ex::entsoe::EntsoeGeographicalCode& c) { x->setCode(c); });
            e.removal<ex::entsoe::EntsoeArea>();
        }
    }
    if (dynamic_cast<Line*>(p)) {
        e.type("mergedXnode");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::entsoe::MergedXnodeAdder>(p->newExtension<ex::entsoe::MergedXnodeAdder>());
            auto frac = [&](const char* what) {
                double d = ww->wild() ? ww->s.pickOf({-0.1, 1.1, NaN, std::nextafter(1.0, 2.0), -5e-324}) : static_cast<double>(ww->s.draw(101)) / 100.0;
                if (!(d >= 0 && d <= 1)) o.r.bad(std::string(what) + " out of [0,1]");
                o.r.exp[k + what] = hex(d);
                return d;
            };
            auto power = [&](const char* what) { double d = ww->num(o.r, FIN, what); o.r.exp[k + what] = hex(d); return d; };
            a->withRdp(frac("rdp")).withXdp(frac("xdp"));
            a->withXnodeP1(power("p1")).withXnodeP2(power("p2")).withXnodeQ1(power("q1")).withXnodeQ2(power("q2"));
            std::string l1 = ww->word(), l2 = ww->word();
            a->withLine1Name(l1).withLine2Name(l2);
            o.r.exp[k + "line1"] = l1;
            o.r.exp[k + "line2"] = l2;
            if (ww->wild()) o.r.bad("code not set");
            else { std::string c = ww->word(); a->withCode(c); o.r.exp[k + "code"] = c; }
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::entsoe::MergedXnode>()) {
            auto* x = &i.getExtension<ex::entsoe::MergedXnode>();
            auto frac = [&](const std::string& attr, const std::function<void(double)>& set) {
                const std::string full = k + attr;
                e.op(SET, "set " + attr + " of", false, [ww, full, set](SetOp& o) {
                    double d = ww->wild() ? ww->s.pickOf({-0.1, 1.1, NaN, std::nextafter(1.0, 2.0), -5e-324}) : static_cast<double>(ww->s.draw(101)) / 100.0;
                    if (!(d >= 0 && d <= 1)) o.r.bad("out of [0,1]");
                    o.r.exp[full] = hex(d);
                    o.apply = [set, d]() { set(d); };
                });
            };
            frac("rdp", [x](double d) { x->setRdp(d); });
            frac("xdp", [x](double d) { x->setXdp(d); });
            e.num("p1", false, FIN, [x](double d) { x->setXnodeP1(d); });
            e.num("p2", false, FIN, [x](double d) { x->setXnodeP2(d); });
            e.num("q1", false, FIN, [x](double d) { x->setXnodeQ1(d); });
            e.num("q2", false, FIN, [x](double d) { x->setXnodeQ2(d); });
            e.text("code", true, [x](const std::string& t) { x->setCode(t); });
            e.text("line1", false, [x](const std::string& t) { x->setLine1Name(t); });
            e.text("line2", false, [x](const std::string& t) { x->setLine2Name(t); });
            e.removal<ex::entsoe::MergedXnode>();
        }
    }
    if (dynamic_cast<DanglingLine*>(p)) {
        e.type("xnode");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::entsoe::XnodeAdder>(p->newExtension<ex::entsoe::XnodeAdder>());
            if (ww->wild()) o.r.bad("code not set");
            else { std::string c = ww->word(); a->withCode(c); o.r.exp[k + "code"] = c; }
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::entsoe::Xnode>()) {
            auto* x = &i.getExtension<ex::entsoe::Xnode>();
            e.text("code", true, [x](const std::string& t) { x->setCode(t); });
            e.removal<ex::entsoe::Xnode>();
        }
    }
    if (dynamic_cast<Battery*>(p) || dynamic_cast<Generator*>(p)) {
        e.type("activePowerControl");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::ActivePowerControlAdder>(p->newExtension<ex::iidm::ActivePowerControlAdder>());
            double d = ww->num(FIN);
            bool b = ww->s.chance(50);
            a->withDroop(d).withParticipate(b);
            o.r.exp[k + "droop"] = hex(d);
            o.r.exp[k + "participate"] = b ? "true" : "false";
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::ActivePowerControl>()) {
            auto* x = &i.getExtension<ex::iidm::ActivePowerControl>();
            e.num("droop", false, FIN_N, [x](double d) { x->setDroop(d); });
            e.flag("participate", [x](bool b) { x->setParticipate(b); });
            e.removal<ex::iidm::ActivePowerControl>();
        }
    }
    if (dynamic_cast<Generator*>(p)) {
        e.type("coordinatedReactiveControl");
        std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::CoordinatedReactiveControlAdder>(p->newExtension<ex::iidm::CoordinatedReactiveControlAdder>());
            double d = ww->num(o.r, FIN, "qPercent");
            a->withQPercent(d);
            o.r.exp[k + "qPercent"] = hex(d);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::CoordinatedReactiveControl>()) {
            auto* x = &i.getExtension<ex::iidm::CoordinatedReactiveControl>();
            e.num("qPercent", false, FIN, [x](double d) { x->setQPercent(d); });
            e.removal<ex::iidm::CoordinatedReactiveControl>();
        }
        if (!w.o.serializableOnly) {
            e.type("generatorRemoteReactivePowerControl");
            k = e.key;
            e.op(ADD, "add", false, [ww, p, k, anyTerminal](SetOp& o) {
                auto a = std::make_shared<ex::iidm::RemoteReactivePowerControlAdder>(p->newExtension<ex::iidm::RemoteReactivePowerControlAdder>());
                double d = ww->num(FIN);
                bool b = ww->s.chance(50);
                Terminal* t = anyTerminal();
                if (!t) return;
                a->withTargetQ(d).withEnabled(b).withRegulatingTerminal(*t);
                o.r.exp[k + "targetQ"] = hex(d);
                o.r.exp[k + "enabled"] = b ? "true" : "false";
                o.r.exp[k + "terminal"] = model::termRef(*t);
                o.apply = [a]() { a->add(); };
            });
            if (e.has<ex::iidm::RemoteReactivePowerControl>()) e.removal<ex::iidm::RemoteReactivePowerControl>();
        }
    }
    if (dynamic_cast<HvdcLine*>(p)) {
        e.type("hvdcAngleDroopActivePowerControl");
        std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::HvdcAngleDroopActivePowerControlAdder>(p->newExtension<ex::iidm::HvdcAngleDroopActivePowerControlAdder>());
            double p0 = ww->num(o.r, FIN, "p0"), d = ww->num(o.r, FIN, "droop");
            bool b = ww->s.chance(50);
            a->withP0(p0).withDroop(d).withEnabled(b);
            o.r.exp[k + "p0"] = hex(p0);
            o.r.exp[k + "droop"] = hex(d);
            o.r.exp[k + "enabled"] = b ? "true" : "false";
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::HvdcAngleDroopActivePowerControl>()) {
            auto* x = &i.getExtension<ex::iidm::HvdcAngleDroopActivePowerControl>();
            e.num("p0", false, FIN, [x](double d) { x->setP0(d); });
            e.num("droop", false, FIN, [x](double d) { x->setDroop(d); });
            e.flag("enabled", [x](bool b) { x->setEnabled(b); });
            e.removal<ex::iidm::HvdcAngleDroopActivePowerControl>();
        }
        e.type("hvdcOperatorActivePowerRange");
        k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::HvdcOperatorActivePowerRangeAdder>(p->newExtension<ex::iidm::HvdcOperatorActivePowerRangeAdder>());
            // (undefined values: some maintainers refuse them, not decided here)
            double x = ww->num(NONNEG), y = ww->num(NONNEG);
            if (ww->wild()) { x = -1; o.r.bad("negative range"); }
            if (ww->wild()) { y = -5e-324; o.r.bad("negative range"); }
            a->withOprFromCS1toCS2(x).withOprFromCS2toCS1(y);
            o.r.exp[k + "cs1cs2"] = hex(x);
            o.r.exp[k + "cs2cs1"] = hex(y);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::HvdcOperatorActivePowerRange>()) {
            auto* x = &i.getExtension<ex::iidm::HvdcOperatorActivePowerRange>();
            e.num("cs1cs2", false, NONNEG_N, [x](double d) { x->setOprFromCS1toCS2(d); });
            e.num("cs2cs1", false, NONNEG_N, [x](double d) { x->setOprFromCS2toCS1(d); });
            e.removal<ex::iidm::HvdcOperatorActivePowerRange>();
        }
    }
    if (dynamic_cast<ThreeWindingsTransformer*>(p)) {
        e.type("threeWindingsTransformerPhaseAngleClock");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::ThreeWindingsTransformerPhaseAngleClockAdder>(p->newExtension<ex::iidm::ThreeWindingsTransformerPhaseAngleClockAdder>());
            for (int leg = 2; leg <= 3; ++leg) {
                unsigned long x = ww->wild() ? 12 : ww->s.draw(12);
                if (x > 11) o.r.bad("clock above 11");
                o.r.exp[k + "leg" + std::to_string(leg)] = std::to_string(x);
                if (ww->wild()) o.r.bad("clock not set");
                else if (leg == 2) a->withPhaseAngleClockLeg2(x);
                else a->withPhaseAngleClockLeg3(x);
            }
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::ThreeWindingsTransformerPhaseAngleClock>()) {
            auto* x = &i.getExtension<ex::iidm::ThreeWindingsTransformerPhaseAngleClock>();
            e.index("leg2", 11, [x](unsigned long n) { x->setPhaseAngleClockLeg2(n); });
            e.index("leg3", 11, [x](unsigned long n) { x->setPhaseAngleClockLeg3(n); });
            e.removal<ex::iidm::ThreeWindingsTransformerPhaseAngleClock>();
        }
    }
    if (dynamic_cast<TwoWindingsTransformer*>(p)) {
        e.type("twoWindingsTransformerPhaseAngleClock");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::TwoWindingsTransformerPhaseAngleClockAdder>(p->newExtension<ex::iidm::TwoWindingsTransformerPhaseAngleClockAdder>());
            unsigned long x = ww->wild() ? ww->s.pickOf({12UL, 13UL, ~0UL}) : ww->s.draw(12);
            if (x > 11) o.r.bad("clock above 11");
            o.r.exp[k + "clock"] = std::to_string(x);
            if (ww->wild()) o.r.bad("clock not set"); else a->withPhaseAngleClock(x);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::TwoWindingsTransformerPhaseAngleClock>()) {
            auto* x = &i.getExtension<ex::iidm::TwoWindingsTransformerPhaseAngleClock>();
            e.index("clock", 11, [x](unsigned long n) { x->setPhaseAngleClock(n); });
            e.removal<ex::iidm::TwoWindingsTransformerPhaseAngleClock>();
        }
    }
    if (dynamic_cast<StaticVarCompensator*>(p)) {
        e.type("voltagePerReactivePowerControl");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::VoltagePerReactivePowerControlAdder>(p->newExtension<ex::iidm::VoltagePerReactivePowerControlAdder>());
            double d = ww->num(o.r, NONNEG, "slope");
            a->withSlope(d);
            o.r.exp[k + "slope"] = hex(d);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::VoltagePerReactivePowerControl>()) {
            auto* x = &i.getExtension<ex::iidm::VoltagePerReactivePowerControl>();
            e.num("slope", false, NONNEG, [x](double d) { x->setSlope(d); });
            e.removal<ex::iidm::VoltagePerReactivePowerControl>();
        }
    }
    if (dynamic_cast<BusbarSection*>(p)) {
        e.type("busbarSectionPosition");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::sld::BusbarSectionPositionAdder>(p->newExtension<ex::sld::BusbarSectionPositionAdder>());
            unsigned long x = ww->s.draw(20), y = ww->s.draw(20);
            if (ww->wild()) o.r.bad("busbar index not set"); else a->withBusbarIndex(x);
            if (ww->wild()) o.r.bad("section index not set"); else a->withSectionIndex(y);
            o.r.exp[k + "busbar"] = std::to_string(x);
            o.r.exp[k + "section"] = std::to_string(y);
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::sld::BusbarSectionPosition>()) {
            auto* x = &i.getExtension<ex::sld::BusbarSectionPosition>();
            // (any index is accepted)
            auto big = [ww]() { return ww->s.draw(1000); };
            auto show = [](const unsigned long& n) { return std::to_string(n); };
            e.value<unsigned long>("busbar", big, show, [x](const unsigned long& n) { x->setBusbarIndex(n); });
            e.value<unsigned long>("section", big, show, [x](const unsigned long& n) { x->setSectionIndex(n); });
            e.removal<ex::sld::BusbarSectionPosition>();
        }
    }
    if (auto* c = dynamic_cast<Connectable*>(p)) {
        (void)c;
        e.type("branchStatus");
        std::string k = e.key;
        auto draw = [ww]() { return static_cast<ex::sld::BranchStatus::Status>(ww->s.draw(3)); };
        e.op(ADD, "add", false, [ww, p, k, draw](SetOp& o) {
            auto a = std::make_shared<ex::sld::BranchStatusAdder>(p->newExtension<ex::sld::BranchStatusAdder>());
            if (ww->wild()) o.r.bad("status not set");
            else { auto x = draw(); a->withStatus(x); o.r.exp[k + "status"] = std::to_string(static_cast<int>(x)); }
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::sld::BranchStatus>()) {
            auto* x = &i.getExtension<ex::sld::BranchStatus>();
            e.value<ex::sld::BranchStatus::Status>("status", draw, [](const ex::sld::BranchStatus::Status& st) { return std::to_string(static_cast<int>(st)); }, [x](const ex::sld::BranchStatus::Status& st) { x->setStatus(st); });
            e.removal<ex::sld::BranchStatus>();
        }
        e.type("position");
        k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::sld::ConnectablePositionAdder>(p->newExtension<ex::sld::ConnectablePositionAdder>());
            unsigned mask = ww->wild() ? static_cast<unsigned>(ww->s.draw(16)) : ww->s.pickOf({1u, 2u, 6u, 14u});
            if (mask != 1 && mask != 2 && mask != 6 && mask != 14) o.r.bad("inconsistent feeders");
            std::string err;
            for (int f = 0; f < 4; ++f) {
                const std::string key = f == 0 ? "feeder" : "feeder" + std::to_string(f);
                if (!(mask & (1u << f))) { o.r.exp[k + key] = "none"; continue; }
                auto fa = f == 0 ? a->newFeeder() : f == 1 ? a->newFeeder1() : f == 2 ? a->newFeeder2() : a->newFeeder3();
                std::string name = ww->word();
                unsigned long order = ww->s.draw(50);
                auto d = static_cast<ex::sld::ConnectablePosition::Direction>(ww->s.draw(3));
                if (ww->wild()) o.r.bad("feeder name not set"); else fa.withName(name);
                if (ww->wild()) o.r.bad("feeder order not set"); else fa.withOrder(order);
                if (ww->wild()) o.r.bad("feeder direction not set"); else fa.withDirection(d);
                o.r.exp[k + key] = feederText(name, order, d);
                try { fa.add(); } catch (const PowsyblException& x) { err = x.what(); }
            }
            o.apply = [a, err]() { if (!err.empty()) throw PowsyblException(err); a->add(); };
        });
        if (e.has<ex::sld::ConnectablePosition>()) {
            auto* x = &i.getExtension<ex::sld::ConnectablePosition>();
            auto feeder = [&](const std::string& key, const stdcxx::Reference<ex::sld::ConnectablePosition::Feeder>& ref) {
                if (!ref) return;
                auto* f = &ref.get();
                const std::string full = k + key;
                e.op(SET, "set " + key + " of", false, [ww, f, full](SetOp& o) {
                    std::string name = ww->word();
                    unsigned long order = ww->s.draw(50);
                    auto d = static_cast<ex::sld::ConnectablePosition::Direction>(ww->s.draw(3));
                    o.r.exp[full] = feederText(name, order, d);
                    o.apply = [f, name, order, d]() { f->setName(name).setOrder(order).setDirection(d); };
                });
            };
            feeder("feeder", x->getFeeder());
            feeder("feeder1", x->getFeeder1());
            feeder("feeder2", x->getFeeder2());
            feeder("feeder3", x->getFeeder3());
            e.removal<ex::sld::ConnectablePosition>();
        }
        e.type("measurements");
        k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::MeasurementsAdder>(p->newExtension<ex::iidm::MeasurementsAdder>());
            o.r.exp[k + "measurements"] = "[]";
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::Measurements>()) {
            auto* x = &i.getExtension<ex::iidm::Measurements>();
            const bool injection = dynamic_cast<Injection*>(p) != nullptr;
            e.op(SET, "new measurement in", false, [ww, x, k, injection](SetOp& o) {
                using M = ex::iidm::Measurement;
                auto a = std::make_shared<ex::iidm::MeasurementAdder>(x->newMeasurement());
                std::string id = ww->s.chance(20) ? "" : "M" + std::to_string(ww->counter++);
                if (ww->wild()) for (const auto& m : x->getMeasurements()) { id = m.getId(); if (!id.empty()) o.r.bad("measurement id taken"); break; }
                a->setId(id);
                auto type = static_cast<M::Type>(ww->s.draw(8));
                if (ww->wild()) o.r.bad("type not set"); else a->setType(type);
                bool side = !injection, valid = ww->s.chance(60);
                if (ww->wild()) { side = !side; if (side || type != M::Type::OTHER) o.r.bad("side"); }
                auto sd = static_cast<M::Side>(ww->s.draw(3));
                if (side) a->setSide(sd);
                double val = ww->num(FIN), dev = ww->s.chance(50) ? ww->num(FIN) : NaN;
                if (!valid && ww->s.chance(40)) val = NaN;
                if (ww->wild()) { val = NaN; valid = true; o.r.bad("valid without value"); }
                a->setValue(val).setStandardDeviation(dev).setValid(valid);
                std::map<std::string, std::string> props;
                while (ww->s.more(1) && props.size() < 3) { std::string n = ww->word(); props[n] = ww->text(); a->putProperty(n, props[n]); }
                auto all = measurementsOf(*x);
                all.push_back(M1{id, std::to_string(static_cast<int>(type)), side ? std::to_string(static_cast<int>(sd)) : "-", hex(val), hex(dev), valid, props});
                o.r.exp[k + "measurements"] = textOf(all);
                Case* cs = &ww->c;
                o.apply = [a, cs, val, type]() {
                    auto& m = a->add();
                    cs->check(pbt::hex(m.getValue()) == pbt::hex(val) && m.getType() == type, "new-measurement", "newMeasurement returns another measurement");
                };
            });
            if (!x->getMeasurements().empty()) {
                e.op(SET, "modify measurement in", false, [ww, x, k](SetOp& o) {
                    auto all = measurementsOf(*x);
                    const size_t at = ww->s.draw(all.size());
                    ex::iidm::Measurement* m = nullptr;
                    size_t n = 0;
                    for (auto& y : const_cast<const ex::iidm::Measurements*>(x)->getMeasurements()) if (n++ == at) m = const_cast<ex::iidm::Measurement*>(&y);
                    M1& e = all[at];
                    const double value = m->getValue();
                    switch (ww->s.draw(6)) {
                        case 0: all.erase(all.begin() + static_cast<long>(at)); o.r.what = "remove " + o.r.what; o.apply = [m]() { m->remove(); }; break;
                        case 1: {
                            double v = ww->num(FIN_N);
                            if (std::isnan(v) && e.valid) { if (ww->o.wild) o.r.bad("valid without value"); else v = 1; }
                            e.value = hex(v);
                            o.apply = [m, v]() { m->setValue(v); };
                            break;
                        }
                        case 2: { double v = ww->num(FIN_N); e.deviation = hex(v); o.apply = [m, v]() { m->setStandardDeviation(v); }; break; }
                        case 3: {
                            bool v = ww->s.chance(50);
                            if (v && std::isnan(value)) { if (ww->o.wild) o.r.bad("valid without value"); else v = false; }
                            e.valid = v;
                            o.apply = [m, v]() { m->setValid(v); };
                            break;
                        }
                        case 4: {
                            std::string n2 = "p" + std::to_string(ww->s.draw(3)), v = ww->text();
                            if (ww->wild()) { n2 = ""; o.r.bad("empty property name"); }
                            e.props[n2] = v;
                            o.apply = [m, n2, v]() { m->putProperty(n2, v); };
                            break;
                        }
                        default: {
                            const std::string n2 = e.props.empty() ? "p0" : e.props.begin()->first;
                            e.props.erase(n2);
                            o.apply = [m, n2]() { m->removeProperty(n2); };
                            break;
                        }
                    }
                    o.r.exp[k + "measurements"] = textOf(all);
                });
            }
            {
                const bool empty = measurementsOf(*x).empty();
                e.op(empty ? REMOVE : SET, "clean", false, [x, k, empty](SetOp& o) {
                    if (!empty) o.r.exp[k + "measurements"] = textOf(measurementsOf(*x));
                    o.apply = [x]() { x->cleanIfEmpty(); };
                });
            }
            e.removal<ex::iidm::Measurements>();
        }
    }
    if (dynamic_cast<Switch*>(p) || dynamic_cast<Connectable*>(p)) {
        e.type("discreteMeasurements");
        const std::string k = e.key;
        e.op(ADD, "add", false, [ww, p, k](SetOp& o) {
            auto a = std::make_shared<ex::iidm::DiscreteMeasurementsAdder>(p->newExtension<ex::iidm::DiscreteMeasurementsAdder>());
            o.r.exp[k + "measurements"] = "[]";
            o.apply = [a]() { a->add(); };
        });
        if (e.has<ex::iidm::DiscreteMeasurements>()) {
            using M = ex::iidm::DiscreteMeasurement;
            auto* x = &i.getExtension<ex::iidm::DiscreteMeasurements>();
            const bool sw = dynamic_cast<Switch*>(p) != nullptr, t2 = dynamic_cast<TwoWindingsTransformer*>(p) != nullptr, t3 = dynamic_cast<ThreeWindingsTransformer*>(p) != nullptr;
            e.op(SET, "new measurement in", false, [ww, x, k, sw, t2, t3](SetOp& o) {
                auto a = std::make_shared<ex::iidm::DiscreteMeasurementAdder>(x->newDiscreteMeasurement());
                std::string id = ww->s.chance(20) ? "" : "D" + std::to_string(ww->counter++);
                if (ww->wild()) for (const auto& m : x->getDiscreteMeasurements()) { id = m.getId(); if (!id.empty()) o.r.bad("measurement id taken"); break; }
                a->setId(id);
                M::Type type = ww->wild() ? static_cast<M::Type>(ww->s.draw(4)) : (t2 || t3) ? ww->s.pickOf({M::Type::TAP_POSITION, M::Type::OTHER}) : sw ? ww->s.pickOf({M::Type::SWITCH_POSITION, M::Type::OTHER}) : ww->s.pickOf({M::Type::OTHER, M::Type::SHUNT_COMPENSATOR_SECTION});
                if (type == M::Type::SWITCH_POSITION && !sw) o.r.bad("not a switch");
                if (type == M::Type::TAP_POSITION && !t2 && !t3) o.r.bad("not a transformer");
                a->setType(type);
                bool tap = type == M::Type::TAP_POSITION;
                if (ww->wild()) tap = !tap;
                int place = 0;
                if (tap) {
                    place = static_cast<int>(ww->wild() ? ww->s.draw(8) : t3 ? 2 + ww->s.draw(6) : ww->s.draw(2));
                    a->setTapChanger(static_cast<M::TapChanger>(place));
                    if (!t2 && !t3) o.r.bad("tap changer given for another equipment");
                    if (t2 && place > 1) o.r.bad("tap changer place");
                    if (t3 && place < 2) o.r.bad("tap changer place");
                } else if (type == M::Type::TAP_POSITION) o.r.bad("tap changer missing");
                std::string val;
                switch (ww->s.draw(3)) {
                    case 0: { bool b = ww->s.chance(50); a->setValue(b); val = std::string("b") + (b ? "1" : "0"); break; }
                    case 1: { int n = static_cast<int>(ww->s.range(-5, 1000)); a->setValue(n); val = "i" + std::to_string(n); break; }
                    default: {
                        if (ww->wild()) { o.r.bad("value not set"); break; }
                        std::string t = ww->word(); a->setValue(t); val = "s" + t; break;
                    }
                }
                bool valid = ww->s.chance(60);
                a->setValid(valid);
                std::map<std::string, std::string> props;
                while (ww->s.more(1) && props.size() < 3) { std::string n = ww->word(); props[n] = ww->text(); a->putProperty(n, props[n]); }
                auto all = measurementsOf(*x);
                all.push_back(M1{id, std::to_string(static_cast<int>(type)), tap ? std::to_string(place) : "-", val, "", valid, props});
                o.r.exp[k + "measurements"] = textOf(all);
                Case* cs = &ww->c;
                o.apply = [a, cs, type, props, id]() {
                    auto& m = a->add();
                    bool same = m.getId() == id && m.getType() == type;
                    for (const auto& e : props) same = same && m.getProperty(e.first) == e.second;
                    cs->check(same, "new-measurement", "newDiscreteMeasurement returns another measurement");
                };
            });
            if (!x->getDiscreteMeasurements().empty()) {
                e.op(SET, "modify measurement in", false, [ww, x, k](SetOp& o) {
                    auto all = measurementsOf(*x);
                    const size_t at = ww->s.draw(all.size());
                    ex::iidm::DiscreteMeasurement* m = nullptr;
                    size_t n = 0;
                    for (auto& y : x->getDiscreteMeasurements()) if (n++ == at) m = &y;
                    M1& e = all[at];
                    switch (ww->s.draw(8)) {
                        case 0: all.erase(all.begin() + static_cast<long>(at)); o.r.what = "remove " + o.r.what; o.apply = [m]() { m->remove(); }; break;
                        case 1: { bool v = ww->s.chance(50); e.value = std::string("b") + (v ? "1" : "0"); o.apply = [m, v]() { m->setValue(v); }; break; }
                        case 2: { int v = static_cast<int>(ww->s.range(-100, 100)); e.value = "i" + std::to_string(v); o.apply = [m, v]() { m->setValue(v); }; break; }
                        case 3: { std::string v = ww->text(); e.value = "s" + v; o.apply = [m, v]() { m->setValue(v); }; break; }
                        case 4: { std::string v = ww->word(); e.value = "s" + v; o.apply = [m, v]() { m->setValue(v.c_str()); }; break; }
                        case 5: { bool v = ww->s.chance(50); e.valid = v; o.apply = [m, v]() { m->setValid(v); }; break; }
                        case 6: {
                            std::string n2 = "p" + std::to_string(ww->s.draw(3)), v = ww->text();
                            if (ww->wild()) { n2 = ""; o.r.bad("empty property name"); }
                            e.props[n2] = v;
                            o.apply = [m, n2, v]() { m->putProperty(n2, v); };
                            break;
                        }
                        default: {
                            const std::string n2 = e.props.empty() ? "p0" : e.props.begin()->first;
                            e.props.erase(n2);
                            o.apply = [m, n2]() { m->removeProperty(n2); };
                            break;
                        }
                    }
                    o.r.exp[k + "measurements"] = textOf(all);
                });
            }
            {
                const bool empty = measurementsOf(*x).empty();
                e.op(empty ? REMOVE : SET, "clean", false, [x, k, empty](SetOp& o) {
                    if (!empty) o.r.exp[k + "measurements"] = textOf(measurementsOf(*x));
                    o.apply = [x]() { x->cleanIfEmpty(); };
                });
            }
            e.removal<ex::iidm::DiscreteMeasurements>();
        }
    }
    return v;
}

void World::extensionOn(Identifiable& i, int kind) {
    last = Rec();
    auto v = extensionOps(*this, i);
    if (kind >= 0) v.erase(std::remove_if(v.begin(), v.end(), [kind](const ExtGen& g) { return kind == STATE_SET ? g.kind != SET || !g.state : g.kind != kind; }), v.end());
    if (v.empty()) return;
    std::vector<unsigned> weights;
    for (const auto& g : v) weights.push_back(g.kind == ADD ? 4 : g.kind == SET ? 5 : 2);
    const ExtGen& g = v[s.weighted(weights)];
    SetOp op = g.make();
    if (!op.apply) return;
    op.r.extName = g.name;
    op.r.extKind = g.kind;
    attempt(op.r, op.apply);
}

void World::extension() {
    last = Rec();
    auto v = identifiables();
    if (v.empty()) return;
    extensionOn(*v[s.draw(v.size())]);
}

}  // namespace gen
