#include "dump.hpp"

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>

#include <algorithm>

namespace model {

using namespace powsybl::iidm;
namespace ext = powsybl::iidm::extensions;

unsigned sideOf(const Terminal& t) {
    unsigned i = 1;
    for (const auto& x : t.getConnectable().get().getTerminals()) {
        if (&x.get() == &t) return i;
        ++i;
    }
    return 0;
}
std::string termRef(const Terminal& t) { return t.getConnectable().get().getId() + "#" + std::to_string(sideOf(t)); }
std::string termRef(const stdcxx::CReference<Terminal>& t) { return t ? termRef(t.get()) : "none"; }

namespace {

struct D {
    Dump& d;
    unsigned flags;
    std::string p;  // current object prefix

    void put(const std::string& k, const std::string& v, bool state, unsigned flag = LISTS) {
        auto r = d.emplace(p + "." + k, Val{v, state, flag});
        if (!r.second) r.first->second.v += " & " + v;
    }
    // structural values
    void s(const std::string& k, const std::string& v) { if (flags & STRUCT) put(k, v, false, STRUCT); }
    void s(const std::string& k, double v) { s(k, pbt::hex(v)); }
    void s(const std::string& k, bool v) { s(k, std::string(v ? "true" : "false")); }
    void s(const std::string& k, unsigned long v) { s(k, std::to_string(v)); }
    void s(const std::string& k, long v) { s(k, std::to_string(v)); }
    void s(const std::string& k, int v) { s(k, std::to_string(v)); }
    void s(const std::string& k, unsigned v) { s(k, std::to_string(v)); }
    // per variant values
    void v(const std::string& k, const std::string& x) { if (flags & STATE) put(k, x, true, STATE); }
    void v(const std::string& k, double x) { v(k, pbt::hex(x)); }
    void v(const std::string& k, bool x) { v(k, std::string(x ? "true" : "false")); }
    void v(const std::string& k, unsigned long x) { v(k, std::to_string(x)); }
    void v(const std::string& k, long x) { v(k, std::to_string(x)); }
    void v(const std::string& k, int x) { v(k, std::to_string(x)); }
    // calculated values
    void c(unsigned flag, const std::string& k, const std::string& x) { if (flags & flag) put(k, x, true, flag); }
    void c(unsigned flag, const std::string& k, double x) { c(flag, k, pbt::hex(x)); }
    void c(unsigned flag, const std::string& k, unsigned long x) { c(flag, k, std::to_string(x)); }
};

std::string join(std::vector<std::string> v, bool sort = true) {
    if (sort) std::sort(v.begin(), v.end());
    std::string o = "[";
    for (const auto& x : v) { if (o.size() > 1) o += ","; o += x; }
    return o + "]";
}
template <typename R> std::string ids(const R& range) {
    std::vector<std::string> v;
    for (const auto& x : range) v.push_back(x.getId());
    return join(v);
}
std::string busRef(const stdcxx::CReference<Bus>& b) { return b ? b.get().getId() : "none"; }

void common(D& x, const Identifiable& i) {
    x.s("id", i.getId());
    x.s("name", i.getOptionalName());
    x.s("nameOrId", i.getNameOrId());
    x.s("fictitious", i.isFictitious());
    std::vector<std::string> a;
    for (const std::string& alias : i.getAliases()) a.push_back(alias + "(" + i.getAliasType(alias) + ")");
    x.s("aliases", join(a));
    a.clear();
    for (const std::string& k : i.getPropertyNames()) a.push_back(k + "=" + i.getProperty(k));
    x.s("properties", join(a));
}

void component(D& x, const std::string& k, const stdcxx::CReference<Component>& c) {
    if (!(x.flags & COMP)) return;
    if (!c) x.c(COMP, k, std::string("none"));
    else x.c(COMP, k, std::to_string(c.get().getNum()) + "/" + std::to_string(c.get().getSize()));
}

void bus(D& x, const Bus& b, bool configured) {
    std::vector<std::string> t;
    for (const Terminal& term : b.getConnectedTerminals()) t.push_back(termRef(term));
    x.c(TOPO, "terminals", join(t));
    x.c(TOPO, "terminalCount", static_cast<unsigned long>(b.getConnectedTerminalCount()));
    x.c(TOPO, "voltageLevel", b.getVoltageLevel().getId());
    x.c(TOPO, "loads", ids(b.getLoads()));
    x.c(TOPO, "generators", ids(b.getGenerators()));
    x.c(TOPO, "batteries", ids(b.getBatteries()));
    x.c(TOPO, "shunts", ids(b.getShuntCompensators()));
    x.c(TOPO, "svcs", ids(b.getStaticVarCompensators()));
    x.c(TOPO, "danglingLines", ids(b.getDanglingLines()));
    x.c(TOPO, "lines", ids(b.getLines()));
    x.c(TOPO, "t2", ids(b.getTwoWindingsTransformers()));
    x.c(TOPO, "t3", ids(b.getThreeWindingsTransformers()));
    x.c(TOPO, "lcc", ids(b.getLccConverterStations()));
    x.c(TOPO, "vsc", ids(b.getVscConverterStations()));
    if (configured) {
        x.v("v", b.getV());
        x.v("angle", b.getAngle());
    } else {
        x.c(TOPO, "v", b.getV());
        x.c(TOPO, "angle", b.getAngle());
    }
    component(x, "cc", b.getConnectedComponent());
    component(x, "sc", b.getSynchronousComponent());
    if (x.flags & COMP) x.c(COMP, "main", std::string(b.isInMainConnectedComponent() ? "cc" : "") + (b.isInMainSynchronousComponent() ? "sc" : ""));
    x.c(DERIVED, "p", b.getP());
    x.c(DERIVED, "q", b.getQ());
}

void limits(D& x, const std::string& k, const stdcxx::CReference<LoadingLimits>& l) {
    if (!l) { x.s(k, std::string("none")); return; }
    std::string o = "perm=" + pbt::hex(l.get().getPermanentLimit());
    for (const auto& t : l.get().getTemporaryLimits()) {
        o += "; " + t.getName() + "|" + pbt::hex(t.getValue()) + "|" + std::to_string(t.getAcceptableDuration()) + "|" + (t.isFictitious() ? "f" : "-");
        if (pbt::hex(l.get().getTemporaryLimitValue(t.getAcceptableDuration())) != pbt::hex(t.getValue())) o += "!lookup";
    }
    x.s(k, o);
}
template <typename L> stdcxx::CReference<LoadingLimits> up(const stdcxx::CReference<L>& l) {
    return l ? stdcxx::cref<LoadingLimits>(l.get()) : stdcxx::CReference<LoadingLimits>();
}

void reactive(D& x, const ReactiveLimitsHolder& h) {
    const auto& l = h.getReactiveLimits<ReactiveLimits>();
    if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
        const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
        x.s("reactiveLimits", "minmax " + pbt::hex(m.getMinQ()) + " " + pbt::hex(m.getMaxQ()));
    } else {
        const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
        std::string o = "curve";
        for (const auto& p : c.getPoints()) o += " (" + pbt::hex(p.getP()) + " " + pbt::hex(p.getMinQ()) + " " + pbt::hex(p.getMaxQ()) + ")";
        o += " n=" + std::to_string(c.getPointCount()) + " minP=" + pbt::hex(c.getMinP()) + " maxP=" + pbt::hex(c.getMaxP());
        x.s("reactiveLimits", o);
    }
}

void terminal(D& x, const Terminal& t, unsigned num) {
    const std::string n = "t" + std::to_string(num) + ".";
    x.s(n + "vl", t.getVoltageLevel().getId());
    x.v(n + "p", t.getP());
    x.v(n + "q", t.getQ());
    x.c(DERIVED, n + "i", t.getI());
    x.c(DERIVED, n + "v", t.getV());
    x.c(DERIVED, n + "angle", t.getAngle());
    if (t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) {
        x.s(n + "node", static_cast<unsigned long>(t.getNodeBreakerView().getNode()));
        x.c(TOPO, n + "connected", std::string(t.isConnected() ? "true" : "false"));
        x.c(TOPO, n + "busBreaker", busRef(t.getBusBreakerView().getBus()));
        x.c(TOPO, n + "busBreakerConnectable", busRef(t.getBusBreakerView().getConnectableBus()));
    } else {
        x.v(n + "connected", t.isConnected());
        x.v(n + "bus", busRef(t.getBusBreakerView().getBus()));
        x.v(n + "connectableBus", busRef(t.getBusBreakerView().getConnectableBus()));
    }
    x.c(TOPO, n + "busView", busRef(t.getBusView().getBus()));
    if (x.flags & TOPO) x.c(TOPO, n + "busViewConnectable", busRef(t.getBusView().getConnectableBus()));
}

template <typename S> std::string stepText(const S& s) {
    return pbt::hex(s.getRho()) + " " + pbt::hex(s.getR()) + " " + pbt::hex(s.getX()) + " " + pbt::hex(s.getG()) + " " + pbt::hex(s.getB());
}

void ratio(D& x, const std::string& k, const RatioTapChangerHolder& h) {
    if (!h.hasRatioTapChanger()) { x.s(k, std::string("none")); return; }
    const RatioTapChanger& r = h.getRatioTapChanger();
    std::string steps;
    for (const auto& s : r.getAllSteps()) steps += std::to_string(s.first) + ":(" + stepText(s.second.get()) + ")";
    x.s(k + ".steps", steps);
    x.s(k + ".low", r.getLowTapPosition());
    x.s(k + ".high", r.getHighTapPosition());
    x.s(k + ".count", r.getStepCount());
    x.s(k + ".ltc", r.hasLoadTapChangingCapabilities());
    x.s(k + ".terminal", termRef(r.getRegulationTerminal()));
    x.v(k + ".position", r.getTapPosition());
    x.v(k + ".regulating", r.isRegulating());
    x.v(k + ".deadband", r.getTargetDeadband());
    x.v(k + ".targetV", r.getTargetV());
    x.c(DERIVED, k + ".current", stepText(r.getCurrentStep()));
}
void phase(D& x, const std::string& k, const PhaseTapChangerHolder& h) {
    if (!h.hasPhaseTapChanger()) { x.s(k, std::string("none")); return; }
    const PhaseTapChanger& r = h.getPhaseTapChanger();
    std::string steps;
    for (const auto& s : r.getAllSteps()) steps += std::to_string(s.first) + ":(" + pbt::hex(s.second.get().getAlpha()) + " " + stepText(s.second.get()) + ")";
    x.s(k + ".steps", steps);
    x.s(k + ".low", r.getLowTapPosition());
    x.s(k + ".high", r.getHighTapPosition());
    x.s(k + ".count", r.getStepCount());
    x.s(k + ".mode", static_cast<int>(r.getRegulationMode()));
    x.s(k + ".terminal", termRef(r.getRegulationTerminal()));
    x.v(k + ".position", r.getTapPosition());
    x.v(k + ".regulating", r.isRegulating());
    x.v(k + ".deadband", r.getTargetDeadband());
    x.v(k + ".value", r.getRegulationValue());
    x.c(DERIVED, k + ".current", pbt::hex(r.getCurrentStep().getAlpha()) + " " + stepText(r.getCurrentStep()));
}

void boundary(D& x, const std::string& k, const Boundary& b) {
    x.c(DERIVED, k + ".v", b.getV());
    x.c(DERIVED, k + ".angle", b.getAngle());
    x.c(DERIVED, k + ".p", b.getP());
    x.c(DERIVED, k + ".q", b.getQ());
}

void branchLimits(D& x, const Branch& b) {
    limits(x, "currentLimits1", up(b.getCurrentLimits1()));
    limits(x, "currentLimits2", up(b.getCurrentLimits2()));
    limits(x, "activeLimits1", up(b.getActivePowerLimits1()));
    limits(x, "activeLimits2", up(b.getActivePowerLimits2()));
    limits(x, "apparentLimits1", up(b.getApparentPowerLimits1()));
    limits(x, "apparentLimits2", up(b.getApparentPowerLimits2()));
}
void flowLimits(D& x, const std::string& k, const FlowsLimitsHolder& b) {
    limits(x, k + "currentLimits", up(b.getCurrentLimits()));
    limits(x, k + "activeLimits", up(b.getActivePowerLimits()));
    limits(x, k + "apparentLimits", up(b.getApparentPowerLimits()));
}

const char* connectableTypeName(const Connectable& c) {
    switch (c.getType()) {
        case ConnectableType::BUSBAR_SECTION: return "bbs";
        case ConnectableType::LINE: return "line";
        case ConnectableType::TWO_WINDINGS_TRANSFORMER: return "t2";
        case ConnectableType::THREE_WINDINGS_TRANSFORMER: return "t3";
        case ConnectableType::GENERATOR: return "generator";
        case ConnectableType::BATTERY: return "battery";
        case ConnectableType::LOAD: return "load";
        case ConnectableType::SHUNT_COMPENSATOR: return "shunt";
        case ConnectableType::DANGLING_LINE: return "danglingLine";
        case ConnectableType::STATIC_VAR_COMPENSATOR: return "svc";
        case ConnectableType::HVDC_CONVERTER_STATION: return "hvdcStation";
    }
    return "?";
}

void feeder(D& x, const std::string& k, const stdcxx::CReference<ext::sld::ConnectablePosition::Feeder>& f) {
    if (!f) x.s(k, std::string("none"));
    else x.s(k, f.get().getName() + "|" + std::to_string(f.get().getOrder()) + "|" + std::to_string(static_cast<int>(f.get().getDirection())));
}

void extensionsOf(D& x, const Extendable& e) {
    if (!(x.flags & EXT)) return;
    const std::string prefix = x.p;
    std::vector<std::string> names;
    for (const Extension& extension : e.getExtensions()) {
        const std::string name = extension.getName();
        names.push_back(name);
        x.p = prefix + ".ext[" + name + "]";
        x.s("owner", std::string(extension.getExtendable<Extendable>() && &extension.getExtendable<Extendable>().get() == &e ? "ok" : "WRONG"));
        const Extension* ptr = &extension;
        if (auto* o = dynamic_cast<const ext::LoadDetail*>(ptr)) {
            x.v("fixedP", o->getFixedActivePower());
            x.v("fixedQ", o->getFixedReactivePower());
            x.v("variableP", o->getVariableActivePower());
            x.v("variableQ", o->getVariableReactivePower());
        } else if (auto* o = dynamic_cast<const ext::SlackTerminal*>(ptr)) {
            x.v("terminal", termRef(o->getTerminal()));
            // (emptiness spans all variants: it changes with any of them)
        } else if (auto* o = dynamic_cast<const ext::entsoe::EntsoeArea*>(ptr)) {
            x.s("code", static_cast<int>(o->getCode()));
        } else if (auto* o = dynamic_cast<const ext::entsoe::MergedXnode*>(ptr)) {
            x.s("code", o->getCode()); x.s("line1", o->getLine1Name()); x.s("line2", o->getLine2Name());
            x.s("rdp", o->getRdp()); x.s("xdp", o->getXdp());
            x.s("p1", o->getXnodeP1()); x.s("p2", o->getXnodeP2()); x.s("q1", o->getXnodeQ1()); x.s("q2", o->getXnodeQ2());
        } else if (auto* o = dynamic_cast<const ext::entsoe::Xnode*>(ptr)) {
            x.s("code", o->getCode());
        } else if (auto* o = dynamic_cast<const ext::iidm::ActivePowerControl*>(ptr)) {
            x.s("droop", o->getDroop()); x.s("participate", o->isParticipate());
        } else if (auto* o = dynamic_cast<const ext::iidm::CoordinatedReactiveControl*>(ptr)) {
            x.s("qPercent", o->getQPercent());
        } else if (auto* o = dynamic_cast<const ext::iidm::HvdcAngleDroopActivePowerControl*>(ptr)) {
            x.s("p0", o->getP0()); x.s("droop", o->getDroop()); x.s("enabled", o->isEnabled());
        } else if (auto* o = dynamic_cast<const ext::iidm::HvdcOperatorActivePowerRange*>(ptr)) {
            x.s("cs1cs2", o->getOprFromCS1toCS2()); x.s("cs2cs1", o->getOprFromCS2toCS1());
        } else if (auto* o = dynamic_cast<const ext::iidm::RemoteReactivePowerControl*>(ptr)) {
            x.s("targetQ", o->getTargetQ()); x.s("enabled", o->isEnabled()); x.s("terminal", termRef(o->getRegulatingTerminal()));
        } else if (auto* o = dynamic_cast<const ext::iidm::ThreeWindingsTransformerPhaseAngleClock*>(ptr)) {
            x.s("leg2", static_cast<unsigned long>(o->getPhaseAngleClockLeg2())); x.s("leg3", static_cast<unsigned long>(o->getPhaseAngleClockLeg3()));
        } else if (auto* o = dynamic_cast<const ext::iidm::TwoWindingsTransformerPhaseAngleClock*>(ptr)) {
            x.s("clock", static_cast<unsigned long>(o->getPhaseAngleClock()));
        } else if (auto* o = dynamic_cast<const ext::iidm::VoltagePerReactivePowerControl*>(ptr)) {
            x.s("slope", o->getSlope());
        } else if (auto* o = dynamic_cast<const ext::sld::BranchStatus*>(ptr)) {
            x.s("status", static_cast<int>(o->getStatus()));
        } else if (auto* o = dynamic_cast<const ext::sld::BusbarSectionPosition*>(ptr)) {
            x.s("busbar", static_cast<unsigned long>(o->getBusbarIndex())); x.s("section", static_cast<unsigned long>(o->getSectionIndex()));
        } else if (auto* o = dynamic_cast<const ext::sld::ConnectablePosition*>(ptr)) {
            feeder(x, "feeder", o->getFeeder()); feeder(x, "feeder1", o->getFeeder1()); feeder(x, "feeder2", o->getFeeder2()); feeder(x, "feeder3", o->getFeeder3());
        } else if (auto* o = dynamic_cast<const ext::iidm::Measurements*>(ptr)) {
            std::vector<std::string> ms;
            for (const auto& m : o->getMeasurements()) {
                std::vector<std::string> props;
                for (const auto& n : m.getPropertyNames()) props.push_back(n + "=" + m.getProperty(n));
                ms.push_back(m.getId() + "|" + std::to_string(static_cast<int>(m.getType())) + "|" + (m.getSide() ? std::to_string(static_cast<int>(*m.getSide())) : "-") + "|" + pbt::hex(m.getValue()) + "|" + pbt::hex(m.getStandardDeviation()) + "|" + (m.isValid() ? "v" : "-") + "|" + join(props));
            }
            x.s("measurements", join(ms));
        } else if (auto* o = dynamic_cast<const ext::iidm::DiscreteMeasurements*>(ptr)) {
            std::vector<std::string> ms;
            for (const auto& m : o->getDiscreteMeasurements()) {
                std::vector<std::string> props;
                for (const auto& n : m.getPropertyNames()) props.push_back(n + "=" + m.getProperty(n));
                std::string val;
                switch (m.getValueType()) {
                    case ext::iidm::DiscreteMeasurement::ValueType::BOOLEAN: val = std::string("b") + (m.getValueAsBoolean() ? "1" : "0"); break;
                    case ext::iidm::DiscreteMeasurement::ValueType::INT: val = "i" + std::to_string(m.getValueAsInt()); break;
                    case ext::iidm::DiscreteMeasurement::ValueType::STRING: val = "s" + m.getValueAsString(); break;
                }
                ms.push_back(m.getId() + "|" + std::to_string(static_cast<int>(m.getType())) + "|" + (m.getTapChanger() ? std::to_string(static_cast<int>(*m.getTapChanger())) : "-") + "|" + val + "|" + (m.isValid() ? "v" : "-") + "|" + join(props));
            }
            x.s("measurements", join(ms));
        } else {
            x.s("type", std::string("unknown"));
        }
        x.p = prefix;
        x.s("extByName[" + name + "]", std::string(e.getExtensionByName<Extension>(name) && &e.getExtensionByName<Extension>(name).get() == &extension ? "ok" : "WRONG"));
    }
    x.p = prefix;
    x.s("extensions", join(names));
}

void connectable(D& x, const Connectable& c) {
    const char* type = connectableTypeName(c);
    x.p = std::string("eq:") + c.getId();
    common(x, c);
    x.s("type", std::string(type));
    unsigned n = 1;
    for (const auto& t : c.getTerminals()) {
        terminal(x, t.get(), n++);
        if (!t.get().getConnectable() || &t.get().getConnectable().get() != &c) x.s("connectableRef", std::string("WRONG"));
    }
    x.s("terminalCount", static_cast<unsigned long>(n - 1));
    switch (c.getType()) {
        case ConnectableType::BUSBAR_SECTION: {
            const auto& o = dynamic_cast<const BusbarSection&>(c);
            x.c(DERIVED, "v", o.getV());
            x.c(DERIVED, "angle", o.getAngle());
            break;
        }
        case ConnectableType::LINE: {
            const auto& o = dynamic_cast<const Line&>(c);
            x.s("tie", o.isTieLine());
            if (o.isTieLine()) {
                const auto& tl = dynamic_cast<const TieLine&>(c);
                x.s("xnode", tl.getUcteXnodeCode());
                unsigned h = 1;
                for (const auto* half : {&tl.getHalf1(), &tl.getHalf2()}) {
                    std::string k = "half" + std::to_string(h++) + ".";
                    x.s(k + "id", half->getId()); x.s(k + "name", half->getName()); x.s(k + "fictitious", half->isFictitious());
                    x.s(k + "r", half->getR()); x.s(k + "x", half->getX());
                    x.s(k + "g1", half->getG1()); x.s(k + "b1", half->getB1()); x.s(k + "g2", half->getG2()); x.s(k + "b2", half->getB2());
                    if (x.flags & DERIVED) boundary(x, k + "boundary", half->getBoundary());
                }
                if (x.flags & DERIVED) {
                    x.c(DERIVED, "r", o.getR()); x.c(DERIVED, "x", o.getX()); x.c(DERIVED, "g1", o.getG1()); x.c(DERIVED, "b1", o.getB1()); x.c(DERIVED, "g2", o.getG2()); x.c(DERIVED, "b2", o.getB2());
                }
            } else {
                x.s("r", o.getR()); x.s("x", o.getX()); x.s("g1", o.getG1()); x.s("b1", o.getB1()); x.s("g2", o.getG2()); x.s("b2", o.getB2());
            }
            branchLimits(x, o);
            break;
        }
        case ConnectableType::TWO_WINDINGS_TRANSFORMER: {
            const auto& o = dynamic_cast<const TwoWindingsTransformer&>(c);
            x.s("substation", o.getSubstation() ? o.getSubstation().get().getId() : std::string("none"));
            x.s("r", o.getR()); x.s("x", o.getX()); x.s("g", o.getG()); x.s("b", o.getB());
            x.s("ratedU1", o.getRatedU1()); x.s("ratedU2", o.getRatedU2()); x.s("ratedS", o.getRatedS());
            branchLimits(x, o);
            ratio(x, "rtc", o);
            phase(x, "ptc", o);
            break;
        }
        case ConnectableType::THREE_WINDINGS_TRANSFORMER: {
            const auto& o = dynamic_cast<const ThreeWindingsTransformer&>(c);
            x.s("substation", o.getSubstation().getId());
            x.s("ratedU0", o.getRatedU0());
            unsigned l = 1;
            for (const auto& leg : o.getLegs()) {
                std::string k = "leg" + std::to_string(l++) + ".";
                x.s(k + "r", leg.getR()); x.s(k + "x", leg.getX()); x.s(k + "g", leg.getG()); x.s(k + "b", leg.getB());
                x.s(k + "ratedU", leg.getRatedU()); x.s(k + "ratedS", leg.getRatedS());
                x.s(k + "terminal", termRef(leg.getTerminal()));
                flowLimits(x, k, leg);
                ratio(x, k + "rtc", leg);
                phase(x, k + "ptc", leg);
            }
            break;
        }
        case ConnectableType::GENERATOR: {
            const auto& o = dynamic_cast<const Generator&>(c);
            x.s("energySource", static_cast<int>(o.getEnergySource()));
            x.s("minP", o.getMinP()); x.s("maxP", o.getMaxP()); x.s("ratedS", o.getRatedS());
            x.s("regulatingTerminal", termRef(o.getRegulatingTerminal()));
            x.v("voltageRegulatorOn", o.isVoltageRegulatorOn());
            x.v("targetP", o.getTargetP()); x.v("targetQ", o.getTargetQ()); x.v("targetV", o.getTargetV());
            if (pbt::hex(o.getTargetP()) != pbt::hex(o.getActivePowerSetpoint()) || pbt::hex(o.getTargetQ()) != pbt::hex(o.getReactivePowerSetpoint()) || pbt::hex(o.getTargetV()) != pbt::hex(o.getVoltageSetpoint())) x.v("synonyms", std::string("WRONG"));
            reactive(x, o);
            break;
        }
        case ConnectableType::BATTERY: {
            const auto& o = dynamic_cast<const Battery&>(c);
            x.s("minP", o.getMinP()); x.s("maxP", o.getMaxP());
            x.v("p0", o.getP0()); x.v("q0", o.getQ0());
            reactive(x, o);
            break;
        }
        case ConnectableType::LOAD: {
            const auto& o = dynamic_cast<const Load&>(c);
            x.s("loadType", static_cast<int>(o.getLoadType()));
            x.v("p0", o.getP0()); x.v("q0", o.getQ0());
            break;
        }
        case ConnectableType::SHUNT_COMPENSATOR: {
            const auto& o = dynamic_cast<const ShuntCompensator&>(c);
            x.s("modelType", static_cast<int>(o.getModelType()));
            x.s("maxSections", static_cast<unsigned long>(o.getMaximumSectionCount()));
            if (o.getModelType() == ShuntCompensatorModelType::LINEAR) {
                const auto& m = o.getModel<ShuntCompensatorLinearModel>();
                x.s("bPerSection", m.getBPerSection()); x.s("gPerSection", m.getGPerSection());
            } else {
                std::string t;
                for (const auto& s : o.getModel<ShuntCompensatorNonLinearModel>().getAllSections()) t += "(" + pbt::hex(s.getB()) + " " + pbt::hex(s.getG()) + ")";
                x.s("sections", t);
            }
            x.s("regulatingTerminal", termRef(o.getRegulatingTerminal()));
            x.v("sectionCount", static_cast<unsigned long>(o.getSectionCount()));
            x.v("voltageRegulatorOn", o.isVoltageRegulatorOn());
            x.v("targetV", o.getTargetV()); x.v("targetDeadband", o.getTargetDeadband());
            x.c(DERIVED, "B", o.getB()); x.c(DERIVED, "G", o.getG());
            break;
        }
        case ConnectableType::DANGLING_LINE: {
            const auto& o = dynamic_cast<const DanglingLine&>(c);
            x.s("r", o.getR()); x.s("x", o.getX()); x.s("g", o.getG()); x.s("b", o.getB());
            x.s("xnode", o.getUcteXnodeCode());
            x.v("p0", o.getP0()); x.v("q0", o.getQ0());
            flowLimits(x, "", o);
            if (o.getGeneration()) {
                const auto& g = o.getGeneration().get();
                std::string p = x.p;
                x.s("gen.minP", g.getMinP()); x.s("gen.maxP", g.getMaxP());
                x.v("gen.targetP", g.getTargetP()); x.v("gen.targetQ", g.getTargetQ()); x.v("gen.targetV", g.getTargetV());
                x.v("gen.voltageRegulationOn", g.isVoltageRegulationOn());
                x.p = p + ".gen";
                reactive(x, g);
                x.p = p;
            } else x.s("gen", std::string("none"));
            if (x.flags & DERIVED) boundary(x, "boundary", o.getBoundary());
            break;
        }
        case ConnectableType::STATIC_VAR_COMPENSATOR: {
            const auto& o = dynamic_cast<const StaticVarCompensator&>(c);
            x.s("bMin", o.getBmin()); x.s("bMax", o.getBmax());
            x.s("regulatingTerminal", termRef(o.getRegulatingTerminal()));
            x.v("voltageSetpoint", o.getVoltageSetpoint()); x.v("reactivePowerSetpoint", o.getReactivePowerSetpoint());
            x.v("regulationMode", static_cast<int>(o.getRegulationMode()));
            break;
        }
        case ConnectableType::HVDC_CONVERTER_STATION: {
            const auto& o = dynamic_cast<const HvdcConverterStation&>(c);
            x.s("hvdcType", static_cast<int>(o.getHvdcType()));
            x.s("lossFactor", o.getLossFactor());
            x.s("hvdcLine", o.getHvdcLine() ? o.getHvdcLine().get().getId() : std::string("none"));
            if (o.getHvdcType() == HvdcConverterStation::HvdcType::LCC) {
                x.s("powerFactor", dynamic_cast<const LccConverterStation&>(c).getPowerFactor());
            } else {
                const auto& v = dynamic_cast<const VscConverterStation&>(c);
                x.v("voltageRegulatorOn", v.isVoltageRegulatorOn());
                x.v("voltageSetpoint", v.getVoltageSetpoint()); x.v("reactivePowerSetpoint", v.getReactivePowerSetpoint());
                reactive(x, v);
            }
            break;
        }
    }
    extensionsOf(x, c);
}

void switchDump(D& x, const Switch& s) {
    x.p = "sw:" + s.getId();
    common(x, s);
    const VoltageLevel& vl = s.getVoltageLevel();
    x.s("vl", vl.getId());
    x.s("kind", static_cast<int>(s.getKind()));
    x.v("open", s.isOpen());
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        x.v("retained", s.isRetained());
        x.s("nodes", std::to_string(vl.getNodeBreakerView().getNode1(s.getId())) + "-" + std::to_string(vl.getNodeBreakerView().getNode2(s.getId())));
        if (s.isRetained() && (x.flags & TOPO)) {
            x.c(TOPO, "bus1", busRef(vl.getBusBreakerView().getBus1(s.getId())));
            x.c(TOPO, "bus2", busRef(vl.getBusBreakerView().getBus2(s.getId())));
        }
    } else {
        x.s("retained", s.isRetained());
        x.s("buses", busRef(vl.getBusBreakerView().getBus1(s.getId())) + "-" + busRef(vl.getBusBreakerView().getBus2(s.getId())));
    }
    extensionsOf(x, s);
}

}  // namespace

Dump dump(const Network& network, unsigned flags) {
    Dump out;
    D x{out, flags, "network"};
    common(x, network);
    x.s("caseDate", network.getCaseDate().toString());
    x.s("forecastDistance", network.getForecastDistance());
    x.s("sourceFormat", network.getSourceFormat());
    extensionsOf(x, network);
    if (flags & LISTS) {
        x.p = "network.list";
        auto put = [&](const char* k, const std::string& list, unsigned long n) {
            x.put(k, list + " n=" + std::to_string(n), false);
        };
        put("substations", ids(network.getSubstations()), network.getSubstationCount());
        put("voltageLevels", ids(network.getVoltageLevels()), network.getVoltageLevelCount());
        put("batteries", ids(network.getBatteries()), network.getBatteryCount());
        put("branches", ids(network.getBranches()), network.getBranchCount());
        put("busbarSections", ids(network.getBusbarSections()), network.getBusbarSectionCount());
        put("danglingLines", ids(network.getDanglingLines()), network.getDanglingLineCount());
        put("generators", ids(network.getGenerators()), network.getGeneratorCount());
        put("hvdcStations", ids(network.getHvdcConverterStations()), network.getHvdcConverterStationCount());
        put("hvdcLines", ids(network.getHvdcLines()), network.getHvdcLineCount());
        put("lcc", ids(network.getLccConverterStations()), network.getLccConverterStationCount());
        put("vsc", ids(network.getVscConverterStations()), network.getVscConverterStationCount());
        put("lines", ids(network.getLines()), network.getLineCount());
        put("loads", ids(network.getLoads()), network.getLoadCount());
        put("shunts", ids(network.getShuntCompensators()), network.getShuntCompensatorCount());
        put("svcs", ids(network.getStaticVarCompensators()), network.getStaticVarCompensatorCount());
        put("switches", ids(network.getSwitches()), network.getSwitchCount());
        put("t3", ids(network.getThreeWindingsTransformers()), network.getThreeWindingsTransformerCount());
        put("t2", ids(network.getTwoWindingsTransformers()), network.getTwoWindingsTransformerCount());
        put("connectables", ids(network.getConnectables<Connectable>()), network.getConnectableCount<Connectable>());
        std::vector<std::string> countries;
        for (const auto& c : network.getCountries()) countries.push_back(std::to_string(static_cast<int>(c)));
        put("countries", join(countries), network.getCountryCount());
        put("identifiables", ids(network.getIdentifiables()), 0);
    }
    for (const Substation& s : network.getSubstations()) {
        x.p = "sub:" + s.getId();
        common(x, s);
        x.s("country", s.getCountry() ? std::to_string(static_cast<int>(*s.getCountry())) : std::string("none"));
        x.s("tso", s.getTso());
        std::vector<std::string> tags(s.getGeographicalTags().begin(), s.getGeographicalTags().end());
        x.s("tags", join(tags));
        if (flags & LISTS) {
            x.put("voltageLevels", ids(s.getVoltageLevels()), false);
            x.put("t2", ids(s.getTwoWindingsTransformers()) + std::to_string(s.getTwoWindingsTransformerCount()), false);
            x.put("t3", ids(s.getThreeWindingsTransformers()) + std::to_string(s.getThreeWindingsTransformerCount()), false);
        }
        extensionsOf(x, s);
    }
    for (const VoltageLevel& vl : network.getVoltageLevels()) {
        const std::string prefix = "vl:" + vl.getId();
        x.p = prefix;
        common(x, vl);
        x.s("substation", vl.getSubstation().getId());
        x.s("nominalV", vl.getNominalV());
        x.s("lowVoltageLimit", vl.getLowVoltageLimit());
        x.s("highVoltageLimit", vl.getHighVoltageLimit());
        x.s("topologyKind", static_cast<int>(vl.getTopologyKind()));
        extensionsOf(x, vl);
        if (flags & LISTS) {
            auto put = [&](const char* k, const std::string& list, unsigned long n) { x.put(k, list + " n=" + std::to_string(n), false); };
            put("batteries", ids(vl.getBatteries()), vl.getBatteryCount());
            put("danglingLines", ids(vl.getDanglingLines()), vl.getDanglingLineCount());
            put("generators", ids(vl.getGenerators()), vl.getGeneratorCount());
            put("lcc", ids(vl.getLccConverterStations()), vl.getLccConverterStationCount());
            put("vsc", ids(vl.getVscConverterStations()), vl.getVscConverterStationCount());
            put("loads", ids(vl.getLoads()), vl.getLoadCount());
            put("shunts", ids(vl.getShuntCompensators()), vl.getShuntCompensatorCount());
            put("svcs", ids(vl.getStaticVarCompensators()), vl.getStaticVarCompensatorCount());
            put("switches", ids(vl.getSwitches()), vl.getSwitchCount());
            put("connectables", ids(vl.getConnectables<Connectable>()), vl.getConnectableCount<Connectable>());
            put("lines", ids(vl.getConnectables<Line>()), vl.getConnectableCount<Line>());
            put("t2", ids(vl.getConnectables<TwoWindingsTransformer>()), vl.getConnectableCount<TwoWindingsTransformer>());
            put("t3", ids(vl.getConnectables<ThreeWindingsTransformer>()), vl.getConnectableCount<ThreeWindingsTransformer>());
        }
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            const auto& nb = vl.getNodeBreakerView();
            if (flags & LISTS) {
                x.put("busbarSections", ids(nb.getBusbarSections()) + std::to_string(nb.getBusbarSectionCount()), false);
                x.put("nbSwitches", ids(nb.getSwitches()) + std::to_string(nb.getSwitchCount()), false);
            }
            if (flags & STRUCT) {
                std::vector<std::string> nodes;
                std::map<unsigned long, bool> attached;
                for (unsigned long node : nb.getNodes()) {
                    auto t = nb.getOptionalTerminal(node);
                    if (t) nodes.push_back(std::to_string(node) + "=" + termRef(t));
                }
                x.put("nodes", join(nodes), false, STRUCT);
                std::vector<std::string> ic;
                for (const auto& i : nb.getInternalConnections()) {
                    auto a = std::min(i.getNode1(), i.getNode2()), b = std::max(i.getNode1(), i.getNode2());
                    ic.push_back(std::to_string(a) + "-" + std::to_string(b));
                }
                x.put("internalConnections", join(ic) + std::to_string(nb.getInternalConnectionCount()), false, STRUCT);
            }
            if (flags & TOPO) {
                x.c(TOPO, "bbvSwitches", ids(vl.getBusBreakerView().getSwitches()) + std::to_string(vl.getBusBreakerView().getSwitchCount()));
                for (const Bus& b : vl.getBusBreakerView().getBuses()) {
                    x.p = prefix + ".bbv[" + b.getId() + "]";
                    bus(x, b, false);
                }
            }
        } else {
            if (flags & LISTS) x.put("bbSwitches", ids(vl.getBusBreakerView().getSwitches()) + std::to_string(vl.getBusBreakerView().getSwitchCount()), false);
            for (const Bus& b : vl.getBusBreakerView().getBuses()) {
                x.p = "bus:" + b.getId();
                common(x, b);
                x.s("vl", vl.getId());
                bus(x, b, true);
                extensionsOf(x, b);
            }
        }
        if (flags & TOPO) {
            for (const Bus& b : vl.getBusView().getBuses()) {
                x.p = prefix + ".bv[" + b.getId() + "]";
                bus(x, b, false);
            }
        }
        for (const Switch& s : vl.getSwitches()) switchDump(x, s);
    }
    for (const Connectable& c : network.getConnectables<Connectable>()) connectable(x, c);
    for (const HvdcLine& l : network.getHvdcLines()) {
        x.p = "hvdcLine:" + l.getId();
        common(x, l);
        x.s("r", l.getR()); x.s("nominalV", l.getNominalV()); x.s("maxP", l.getMaxP());
        x.s("station1", l.getConverterStation1() ? l.getConverterStation1().get().getId() : std::string("none"));
        x.s("station2", l.getConverterStation2() ? l.getConverterStation2().get().getId() : std::string("none"));
        x.v("convertersMode", static_cast<int>(l.getConvertersMode()));
        x.v("activePowerSetpoint", l.getActivePowerSetpoint());
        extensionsOf(x, l);
    }
    if (flags & TOPO) {
        x.p = "network.views";
        x.c(TOPO, "busView", ids(network.getBusView().getBuses()));
        x.c(TOPO, "busBreakerView", ids(network.getBusBreakerView().getBuses()));
        x.c(TOPO, "switches", ids(network.getBusBreakerView().getSwitches()) + std::to_string(network.getBusBreakerView().getSwitchCount()));
    }
    if (flags & COMP) {
        x.p = "network.components";
        for (const auto& c : network.getBusView().getConnectedComponents()) x.c(COMP, "cc" + std::to_string(c.getNum()), std::to_string(c.getSize()) + ids(c.getBuses()));
        for (const auto& c : network.getBusView().getSynchronousComponents()) x.c(COMP, "sc" + std::to_string(c.getNum()), std::to_string(c.getSize()) + ids(c.getBuses()));
    }
    return out;
}

Dump only(const Dump& d, unsigned flags) {
    Dump o;
    for (const auto& e : d) if (e.second.flag & flags) o.insert(e);
    return o;
}

std::map<std::string, std::pair<std::string, std::string>> diffMap(const Dump& a, const Dump& b) {
    std::map<std::string, std::pair<std::string, std::string>> r;
    auto i = a.begin();
    auto j = b.begin();
    while (i != a.end() || j != b.end()) {
        if (j == b.end() || (i != a.end() && i->first < j->first)) { r[i->first] = {i->second.v, "<none>"}; ++i; }
        else if (i == a.end() || j->first < i->first) { r[j->first] = {"<none>", j->second.v}; ++j; }
        else {
            if (i->second.v != j->second.v) r[i->first] = {i->second.v, j->second.v};
            ++i; ++j;
        }
    }
    return r;
}

std::string diff(const Dump& a, const Dump& b, size_t max, const std::function<bool(const std::string&)>& ignore) {
    std::string o;
    size_t n = 0;
    for (const auto& e : diffMap(a, b)) {
        if (ignore && ignore(e.first)) continue;
        if (n++ < max) o += e.first + ": " + e.second.first + " -> " + e.second.second + "\n";
    }
    if (n > max) o += "... " + std::to_string(n) + " differences\n";
    return o;
}

}  // namespace model
