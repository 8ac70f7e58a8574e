// Random questions put to a network (C23, C24).
#pragma once
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/util/ConnectedComponents.hpp>
#include <powsybl/iidm/util/Identifiables.hpp>
#include <powsybl/iidm/util/Networks.hpp>
#include <powsybl/iidm/util/SV.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>

#include "gen.hpp"
#include "xml.hpp"

using namespace gen;
using namespace powsybl::iidm;
using model::Dump;

namespace {

std::string guarded(const std::function<std::string()>& f) {
    try {
        return f();
    } catch (const PowsyblException& e) {
        return std::string("error: ") + e.what();
    } catch (const powsybl::AssertionError& e) {
        return std::string("assertion: ") + e.what();
    } catch (const std::runtime_error& e) {  // missing property, empty reference
        return std::string("runtime error: ") + e.what();
    }
}

struct Walk : voltage_level::TopologyTraverser {
    uint64_t salt = 0;
    int pct = 50;
    std::string seen;
    // the order of the walk is not specified: the answers (and the choices consumed) must not depend on it
    bool answer(const std::string& id) const { return static_cast<int>(std::hash<std::string>()(id + std::to_string(salt)) % 100) < pct; }
    bool traverse(Terminal& t, bool connected) override { seen += t.getConnectable().get().getId() + (connected ? "+" : "-"); return answer(t.getConnectable().get().getId()); }
    bool traverse(Switch& sw) override { seen += sw.getId(); return answer(sw.getId()); }
};

struct Visits : TopologyVisitor {
    std::string seen;
    void visitBattery(const Battery& x) override { seen += x.getId(); }
    void visitBusbarSection(const BusbarSection& x) override { seen += x.getId(); }
    void visitDanglingLine(const DanglingLine& x) override { seen += x.getId(); }
    void visitGenerator(const Generator& x) override { seen += x.getId(); }
    void visitHvdcConverterStation(const HvdcConverterStation& x) override { seen += x.getId(); }
    void visitLine(const Line& x, const Branch::Side& /*s*/) override { seen += x.getId(); }
    void visitLoad(const Load& x) override { seen += x.getId(); }
    void visitShuntCompensator(const ShuntCompensator& x) override { seen += x.getId(); }
    void visitStaticVarCompensator(const StaticVarCompensator& x) override { seen += x.getId(); }
    void visitThreeWindingsTransformer(const ThreeWindingsTransformer& x, const ThreeWindingsTransformer::Side& /*s*/) override { seen += x.getId(); }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer& x, const Branch::Side& /*s*/) override { seen += x.getId(); }
};

struct Asker {
    Case& c;
    Network& n;
    World& w;
    pbt::Src& s;
    std::vector<std::string>* answers = nullptr;  // everything answered, for comparisons

    template <typename T> T* pick(const std::vector<T*>& v) { return v.empty() ? nullptr : v[s.draw(v.size())]; }

    // the question is asked twice
    void twice(const std::string& what, const std::function<std::string()>& f) {
        const std::string a = guarded(f), b = guarded(f);
        c.checkEq(b, a, "answers-differ", what + " asked twice");
        if (answers != nullptr) answers->push_back(what + ": " + a);
        c.label(what);
    }

    void ask() {
        switch (s.weighted({10, 12, 8, 12, 10, 10, 10, 10, 8, 14, 6, 8})) {
            case 0: whole(); break;
            case 1: document(); break;
            case 2: walk(); break;
            case 3: buses(); break;
            case 4: missing(); break;
            case 5: electrical(); break;
            case 6: variants(); break;
            case 7: listings(); break;
            case 8: utilities(); break;
            case 9: abandoned(); break;
            case 10: reading(); break;
            default: ranges(); break;
        }
    }

    void whole() {
        const unsigned flags = 1 + static_cast<unsigned>(s.draw(model::ALL));
        const Dump a = model::dump(n, flags), b = model::dump(n, flags);
        const std::string d = model::diff(a, b);
        c.check(d.empty(), "answers-differ", "the whole state asked twice:\n" + d);
        c.label("state");
    }

    void document() {
        converter::ExportOptions o;
        o.setVersion("1." + std::to_string(s.draw(6)));
        if (s.chance(60)) o.setVersion("1.5");
        o.setWithBranchSV(s.chance(50)).setIndent(s.chance(50));
        if (s.chance(50)) o.setTopologyLevel(s.chance(50) ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH);
        if (s.chance(30)) o.setIidmVersionIncompatibilityBehavior(converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
        if (s.chance(20)) o.setThrowExceptionIfExtensionNotFound(true);
        if (s.chance(20)) o.setExtensions({"slackTerminal", "detail"});
        const bool anonymized = s.chance(15);
        o.setAnonymized(anonymized);
        twice("document", [&]() {
            std::string table;
            std::string x = anonymized ? model::toXmlAnonymized(n, o, table) : model::toXml(n, o);
            return x + table;
        });
    }

    void walk() {
        Terminal* t = pick(w.terminals());
        if (t == nullptr) return;
        Walk v;
        v.salt = s.draw(1000);
        v.pct = static_cast<int>(s.draw(101));
        guarded([&]() { t->traverse(v); return v.seen; });
        auto& vl = t->getVoltageLevel();
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            const unsigned long start = t->getNodeBreakerView().getNode();
            guarded([&]() { vl.getNodeBreakerView().traverse(start, [&](unsigned long, const stdcxx::Reference<Switch>&, unsigned long to) { return v.answer(std::to_string(to)); }); return std::string(); });
        }
        twice("visit", [&]() {
            Visits x;
            t->getVoltageLevel().visitEquipments(x);
            return x.seen;
        });
        c.label("traversal");
    }

    void buses() {
        twice("buses", [&]() {
            std::string r;
            for (const auto& vl : n.getVoltageLevels()) {
                for (const auto& b : vl.getBusView().getBuses()) r += b.getId() + pbt::hex(b.getV()) + pbt::hex(b.getAngle()) + pbt::hex(b.getP()) + pbt::hex(b.getQ()) + std::to_string(b.getConnectedTerminalCount());
                for (const auto& b : vl.getBusBreakerView().getBuses()) r += b.getId() + pbt::hex(b.getV());
                for (const auto& x : vl.getBusBreakerView().getSwitches()) r += x.getId();
                r += guarded([&]() { const auto b = vl.getBusView().getBus("missing"); return std::string(b ? "bus" : "none"); });
                r += guarded([&]() { const auto b = vl.getBusView().getMergedBus("missing"); return std::string(b ? "bus" : "none"); });
            }
            return r;
        });
        twice("components", [&]() {
            std::string r;
            for (const auto& b : n.getBusView().getBuses()) {
                r += b.getId();
                const auto cc = b.getConnectedComponent();
                const auto sc = b.getSynchronousComponent();
                if (cc) r += std::to_string(cc.get().getNum()) + ":" + std::to_string(cc.get().getSize());
                if (sc) r += std::to_string(sc.get().getNum()) + ":" + std::to_string(sc.get().getSize());
                r += b.isInMainConnectedComponent() ? "m" : "-";
            }
            return r;
        });
    }

    void missing() {
        Identifiable* i = pick(w.identifiables());
        VoltageLevel* vl = pick(w.levels());
        twice("missing", [&]() {
            std::string r;
            r += guarded([&]() { return n.getLoad("missing").getId(); });
            r += guarded([&]() { return n.get("missing").getId(); });
            r += guarded([&]() { return n.find("missing") ? std::string("found") : std::string("none"); });
            r += guarded([&]() { return n.getLine("missing").getId(); });
            r += guarded([&]() { return n.getSubstation("missing").getId(); });
            r += guarded([&]() { return n.getVoltageLevel("missing").getId(); });
            r += guarded([&]() { return n.getHvdcLine("missing").getId(); });
            if (i != nullptr) {
                // typed requests for objects of another type
                const std::string id = i->getId();
                r += guarded([&]() { return n.getLoad(id).getId(); });
                r += guarded([&]() { return n.getSwitch(id).getId(); });
                r += guarded([&]() { return n.getTwoWindingsTransformer(id).getId(); });
                r += guarded([&]() { return n.getVoltageLevel(id).getId(); });
                r += guarded([&]() { return i->getProperty("missing"); });
                r += guarded([&]() { return i->getProperty("missing", "default"); });
                r += i->hasProperty("missing") ? "has" : "no";
                r += guarded([&]() { return i->getAliasFromType("missing").get_value_or("none"); });
                r += guarded([&]() { return i->getAliasType("missing"); });
                r += guarded([&]() { return i->findExtension<extensions::LoadDetail>() ? std::string("has") : std::string("no"); });
                r += guarded([&]() { return i->getExtension<extensions::LoadDetail>().getName(); });
                r += guarded([&]() { return i->getExtensionByName<Extension>("missing") ? std::string("has") : std::string("no"); });
            }
            r += guarded([&]() { n.getVariantManager().setWorkingVariant("missing"); return std::string("set"); });
            r += guarded([&]() { n.getVariantManager().removeVariant("missing"); return std::string("removed"); });
            r += guarded([&]() { n.getVariantManager().cloneVariant("missing", "new"); return std::string("cloned"); });
            if (vl != nullptr) {
                r += guarded([&]() { return vl->getBusView().getMergedBus("missing") ? std::string("bus") : std::string("none"); });
                r += guarded([&]() { return vl->getBusBreakerView().getBus("missing") ? std::string("bus") : std::string("none"); });
                r += guarded([&]() { return std::to_string(vl->getNodeBreakerView().getNode1("missing")); });
                r += guarded([&]() { return vl->getBusBreakerView().getBus1("missing") ? std::string("bus") : std::string("none"); });
                r += guarded([&]() { vl->getNodeBreakerView().removeSwitch("missing"); return std::string("removed"); });
                r += guarded([&]() { vl->getBusBreakerView().removeBus("missing"); return std::string("removed"); });
                r += guarded([&]() { vl->getNodeBreakerView().removeInternalConnections(900, 901); return std::string("removed"); });
            }
            return r;
        });
    }

    void electrical() {
        twice("electrical", [&]() {
            std::string r;
            for (const auto& x : n.getLines()) r += guarded([&]() { return branch(x); });
            for (const auto& x : n.getTwoWindingsTransformers()) r += guarded([&]() { return branch(x); });
            for (const auto& x : n.getDanglingLines()) {
                r += guarded([&]() { return pbt::hex(x.getBoundary().getP()) + pbt::hex(x.getBoundary().getV()) + pbt::hex(x.getBoundary().getAngle()); });
                r += guarded([&]() { SV sv(x.getTerminal().getP(), x.getTerminal().getQ(), 380, 0, Branch::Side::ONE); return pbt::hex(sv.otherSideP(x)) + pbt::hex(sv.otherSideU(x, true)); });
            }
            for (const auto& x : n.getGenerators()) r += pbt::hex(guardedNumber([&]() { return x.getReactiveLimits<ReactiveLimits>().getMinQ(x.getTargetP()); }));
            for (const auto& x : n.getShuntCompensators()) r += guarded([&]() { return pbt::hex(x.getB()) + pbt::hex(x.getG()) + pbt::hex(x.getB(x.getMaximumSectionCount() + 1)); });
            for (const auto& x : n.getTwoWindingsTransformers()) {
                if (x.hasRatioTapChanger()) r += guarded([&]() { const auto& t = x.getRatioTapChanger(); return pbt::hex(t.getCurrentStep().getRho()) + pbt::hex(t.getStep(t.getHighTapPosition() + 1).getRho()); });
                if (x.hasPhaseTapChanger()) r += guarded([&]() { const auto& t = x.getPhaseTapChanger(); return pbt::hex(t.getCurrentStep().getAlpha()) + pbt::hex(t.getStep(t.getLowTapPosition() - 1).getRho()); });
            }
            return r;
        });
    }

    double guardedNumber(const std::function<double()>& f) {
        try { return f(); } catch (const PowsyblException&) { return -12345; }
    }

    std::string branch(const Branch& b) {
        std::string r = b.isOverloaded() ? "overloaded" : "";
        r += std::to_string(b.getOverloadDuration());
        for (const auto& side : {Branch::Side::ONE, Branch::Side::TWO}) {
            r += b.checkPermanentLimit(side, LimitType::CURRENT) ? "x" : "-";
            const auto o = b.checkTemporaryLimits(side, LimitType::CURRENT);
            if (o) r += o->getPreviousLimitName() + std::to_string(o->getTemporaryLimit().getAcceptableDuration());
            r += pbt::hex(b.getTerminal(side).getI());
        }
        return r;
    }

    void variants() {
        auto& m = n.getVariantManager();
        const std::string working = m.getWorkingVariantId();
        const auto names = m.getVariantIds();
        std::string seen;
        m.forEachVariant([&]() { seen += pbt::hex(static_cast<double>(n.getLoadCount())); for (const auto& x : n.getSwitches()) seen += x.isOpen() ? "o" : "c"; });
        c.checkEq(m.getWorkingVariantId(), working, "working-variant", "working variant after a run for each variant");
        for (const auto& v : names) {
            m.setWorkingVariant(v);
            if (s.chance(30)) buses();
        }
        m.setWorkingVariant(working);
        c.check(m.getVariantIds() == names, "variants", "the variants changed");
        c.label("each variant");
    }

    void listings() {
        twice("listings", [&]() {
            std::string r;
            for (const auto& x : n.getIdentifiables()) r += x.getId() + ",";
            for (const auto& x : n.getConnectables<Injection>()) r += x.getId();
            for (const auto& x : n.getBranches()) r += x.getId();
            r += std::to_string(n.getBranchCount()) + std::to_string(n.getGeneratorCount()) + std::to_string(n.getLineCount());
            for (const auto& x : n.getCountries()) r += Enum::toString(x);
            for (const auto& x : n.getVoltageLevels()) {
                r += std::to_string(x.getConnectableCount<Load>()) + std::to_string(x.getConnectableCount());
                for (const auto& y : x.getConnectables()) r += y.getId();
            }
            return r;
        });
    }

    void utilities() {
        twice("utilities", [&]() {
            std::string r = Identifiables::getUniqueId("L1", [&](const std::string& id) { return static_cast<bool>(n.find(id)); });
            for (const auto& vl : n.getVoltageLevels()) {
                r += guarded([&]() {
                    std::string x;
                    for (const auto& e : Networks::getNodesByBus(vl)) { x += e.first; for (unsigned long k : e.second) x += std::to_string(k); }
                    return x;
                });
                r += guarded([&]() {
                    std::string x;
                    for (unsigned long k : vl.getNodeBreakerView().getNodes()) { const auto t = Networks::getEquivalentTerminal(vl, k); x += t ? t.get().getConnectable().get().getId() : "none"; }
                    return x;
                });
                for (const auto& b : vl.getBusView().getBuses()) r += std::to_string(ConnectedComponents::getCcNum(b).get_value_or(99));
            }
            return r;
        });
    }

    // a list kept by the caller tells the same each time it is gone through
    static std::string key(const std::string& x) { return x; }
    static std::string key(const Identifiable& x) { return x.getId(); }
    static std::string key(const Terminal& x) { return x.getConnectable().get().getId(); }
    static std::string key(const Extension& x) { return x.getName(); }
    static std::string key(const Component& x) { return std::to_string(x.getNum()); }
    static std::string key(const ThreeWindingsTransformer::Leg& x) { return x.getTerminal().getVoltageLevel().getId(); }
    static std::string key(const powsybl::iidm::node_breaker_view::InternalConnection& x) { return std::to_string(x.getNode1()) + "-" + std::to_string(x.getNode2()); }
    static std::string key(unsigned long x) { return std::to_string(x); }
    template <typename R> void again(const std::string& what, R&& range) {
        auto other = range;
        auto pass = [](decltype(other)& r) {
            std::string x;
            for (auto&& e : r) x += key(e) + "|";
            return x;
        };
        const std::string a = pass(range);
        const auto size = boost::size(range);
        const std::string b = pass(range), d = pass(other);
        auto half = other;
        auto it = half.begin();
        for (long k = 0; k < static_cast<long>(size) / 2; ++k) ++it;
        const auto saved = it;
        std::string tail, tail2;
        for (auto i = saved; i != half.end(); ++i) tail += key(*i) + "|";
        for (auto i = saved; i != half.end(); ++i) tail2 += key(*i) + "|";
        c.checkEq(b, a, "list-gone-through-again", what + " gone through again");
        c.checkEq(d, a, "list-gone-through-again", "a copy of " + what);
        c.checkEq(static_cast<long>(size), static_cast<long>(std::distance(range.begin(), range.end())), "list-gone-through-again", "size of " + what);
        c.checkEq(tail2, tail, "list-gone-through-again", "the end of " + what);
        c.check(a.size() >= tail.size() && a.compare(a.size() - tail.size(), tail.size(), tail) == 0, "list-gone-through-again", "the end of " + what + ": " + tail + " of " + a);
        if (size > 1) c.label("list gone through again");
    }
#define AGAIN(x, call) do { again(#call, (x).call); again("const " #call, static_cast<const typename std::remove_reference<decltype(x)>::type&>(x).call); } while (0)
    void ranges() {
        guarded([&]() {
            switch (s.draw(6)) {
                case 0:
                    AGAIN(n, getIdentifiables()); AGAIN(n, getBranches()); AGAIN(n, getBatteries()); AGAIN(n, getBusbarSections()); AGAIN(n, getDanglingLines()); AGAIN(n, getGenerators());
                    AGAIN(n, getHvdcConverterStations()); AGAIN(n, getHvdcLines()); AGAIN(n, getLccConverterStations()); AGAIN(n, getLines()); AGAIN(n, getLoads()); AGAIN(n, getShuntCompensators());
                    AGAIN(n, getStaticVarCompensators()); AGAIN(n, getSubstations()); AGAIN(n, getSwitches()); AGAIN(n, getThreeWindingsTransformers()); AGAIN(n, getTwoWindingsTransformers());
                    AGAIN(n, getVoltageLevels()); AGAIN(n, getVscConverterStations()); AGAIN(n, getConnectables<Load>()); AGAIN(n, getConnectables<Injection>());
                    break;
                case 1:
                    AGAIN(n, getBusView().getBuses()); AGAIN(n, getBusView().getConnectedComponents()); AGAIN(n, getBusBreakerView().getBuses()); AGAIN(n, getBusBreakerView().getSwitches());
                    break;
                case 2:
                    if (VoltageLevel* vl = pick(w.levels())) {
                        auto& x = *vl;
                        AGAIN(x, getConnectables<Line>()); AGAIN(x, getConnectables<Branch>()); AGAIN(x, getConnectables<TwoWindingsTransformer>()); AGAIN(x, getConnectables<ThreeWindingsTransformer>()); AGAIN(x, getConnectables<Load>());
                        AGAIN(x, getConnectables<Injection>()); AGAIN(x, getConnectables()); AGAIN(x, getBatteries()); AGAIN(x, getDanglingLines()); AGAIN(x, getGenerators()); AGAIN(x, getLccConverterStations()); AGAIN(x, getLoads());
                        AGAIN(x, getShuntCompensators()); AGAIN(x, getStaticVarCompensators()); AGAIN(x, getVscConverterStations()); AGAIN(x, getSwitches());
                    }
                    break;
                case 3:
                    if (VoltageLevel* vl = pick(w.levels())) {
                        auto& x = *vl;
                        AGAIN(x, getBusView().getBuses()); AGAIN(x, getBusBreakerView().getBuses()); AGAIN(x, getBusBreakerView().getSwitches());
                        if (x.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                            AGAIN(x, getNodeBreakerView().getSwitches()); AGAIN(x, getNodeBreakerView().getBusbarSections());
                            again("internal connections", static_cast<const VoltageLevel&>(x).getNodeBreakerView().getInternalConnections());
                        }
                    }
                    break;
                case 4:
                    for (auto& x : n.getSubstations()) { AGAIN(x, getVoltageLevels()); AGAIN(x, getTwoWindingsTransformers()); AGAIN(x, getThreeWindingsTransformers()); }
                    for (auto& vl : n.getVoltageLevels()) {
                        for (auto& x : vl.getBusView().getBuses()) {
                            AGAIN(x, getConnectedTerminals()); AGAIN(x, getLoads()); AGAIN(x, getGenerators()); AGAIN(x, getLines()); AGAIN(x, getTwoWindingsTransformers()); AGAIN(x, getThreeWindingsTransformers()); AGAIN(x, getBatteries()); AGAIN(x, getDanglingLines());
                        }
                        for (auto& x : vl.getBusBreakerView().getBuses()) { AGAIN(x, getConnectedTerminals()); AGAIN(x, getLines()); AGAIN(x, getShuntCompensators()); AGAIN(x, getVscConverterStations()); AGAIN(x, getLccConverterStations()); AGAIN(x, getStaticVarCompensators()); }
                    }
                    break;
                default:
                    if (Identifiable* i = pick(w.identifiables())) {
                        AGAIN(*i, getExtensions());
                        again("aliases", static_cast<const Identifiable&>(*i).getAliases());
                        again("properties", static_cast<const Identifiable&>(*i).getPropertyNames());
                    }
                    for (auto& x : n.getThreeWindingsTransformers()) AGAIN(x, getLegs());
                    for (auto* t : w.connectables()) { auto& x = *t; AGAIN(x, getTerminals()); }
                    break;
            }
            return std::string();
        });
        c.label("lists");
    }
#undef AGAIN

    // an adder that is not added leaves nothing
    void abandoned() {
        c.label("abandoned creation");
        VoltageLevel* vl = pick(w.levels());
        VoltageLevel* other = pick(w.levels());
        Identifiable* i = pick(w.identifiables());
        Terminal* terminal = pick(w.terminals());
        if (vl == nullptr || i == nullptr || terminal == nullptr || n.getSubstationCount() == 0) return;
        const std::string id = s.chance(50) ? i->getId() : "abandoned";
        guarded([&]() {
            switch (s.draw(24)) {
                case 0: n.newSubstation().setId(id).setName("x").setTso("t"); break;
                case 1: n.getSubstations().begin()->newVoltageLevel().setId(id).setNominalV(1).setTopologyKind(TopologyKind::BUS_BREAKER); break;
                case 2: vl->newLoad().setId(id).setNode(0).setBus("b").setP0(1).setQ0(2); break;
                case 3: vl->newGenerator().setId(id).setNode(1).setMinP(0).setMaxP(1).setVoltageRegulatorOn(true).setRegulatingTerminal(stdcxx::Reference<Terminal>(*terminal)); break;
                case 4: vl->newBattery().setId(id).setNode(1).setMinP(0); break;
                case 5: { auto a = vl->newShuntCompensator(); a.setId(id).setNode(2); a.newLinearModel().setMaximumSectionCount(3).setBPerSection(1).add(); a.newNonLinearModel().beginSection().setB(1).setG(2).endSection().add(); break; }
                case 6: vl->newStaticVarCompensator().setId(id).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF); break;
                case 7: { auto a = vl->newDanglingLine(); a.setId(id).setNode(4).setR(1); a.newGeneration().setTargetP(3).setMinP(0).setMaxP(1).add(); break; }
                case 8: vl->newLccConverterStation().setId(id).setNode(1).setPowerFactor(0.5f); vl->newVscConverterStation().setId(id).setNode(1).setVoltageRegulatorOn(false); break;
                case 9: if (vl->getTopologyKind() == TopologyKind::NODE_BREAKER) { vl->getNodeBreakerView().newSwitch().setId(id).setNode1(70).setNode2(71).setOpen(true); vl->getNodeBreakerView().newBreaker().setId(id).setNode1(0).setNode2(50); vl->getNodeBreakerView().newInternalConnection().setNode1(60).setNode2(61); vl->getNodeBreakerView().newBusbarSection().setId(id).setNode(77); }
                    else { vl->getBusBreakerView().newBus().setId(id); vl->getBusBreakerView().newSwitch().setId(id).setBus1("a").setBus2("b"); }
                    break;
                case 10: n.newLine().setId(id).setVoltageLevel1(vl->getId()).setVoltageLevel2(other->getId()).setNode1(0).setNode2(1).setR(1).setX(1); break;
                case 11: { auto a = n.newTieLine(); a.setId(id).setVoltageLevel1(vl->getId()).setVoltageLevel2(other->getId()); a.newHalfLine1().setId("h1").setR(1).add(); a.newHalfLine2().setId("h2").setR(1).add(); break; }
                case 12: n.newHvdcLine().setId(id).setR(1).setNominalV(2).setConverterStationId1("a").setConverterStationId2("b"); break;
                case 13: { auto& sub = *n.getSubstations().begin(); sub.newTwoWindingsTransformer().setId(id).setVoltageLevel1(vl->getId()).setR(1).setRatedU1(3); break; }
                case 14: { auto& sub = *n.getSubstations().begin(); auto a = sub.newThreeWindingsTransformer(); a.setId(id).newLeg1().setVoltageLevel(vl->getId()).setNode(3).setR(1).setX(1).setG(0).setB(0).setRatedU(5).add(); break; }
                case 15: for (auto& x : n.getGenerators()) { x.newMinMaxReactiveLimits().setMinQ(-777).setMaxQ(777); x.newReactiveCapabilityCurve().beginPoint().setP(1).setMinQ(2).setMaxQ(3).endPoint(); } break;
                case 16: for (auto& x : n.getLines()) { x.newCurrentLimits1().setPermanentLimit(777).beginTemporaryLimit().setName("x").setAcceptableDuration(3).setValue(999).endTemporaryLimit(); x.newActivePowerLimits2().setPermanentLimit(777); } break;
                case 17: for (auto& x : n.getDanglingLines()) { x.newCurrentLimits().setPermanentLimit(777); x.newApparentPowerLimits().setPermanentLimit(777); } break;
                case 18: for (auto& x : n.getTwoWindingsTransformers()) { x.newRatioTapChanger().setLowTapPosition(7).setTapPosition(8).beginStep().setRho(77).endStep(); x.newPhaseTapChanger().setLowTapPosition(7).beginStep().setAlpha(77).endStep(); } break;
                case 19: for (auto& x : n.getThreeWindingsTransformers()) { x.getLeg2().newRatioTapChanger().setLowTapPosition(7).beginStep().setRho(77).endStep(); x.getLeg1().newCurrentLimits().setPermanentLimit(777); } break;
                case 20: for (auto& x : n.getLoads()) x.newExtension<extensions::LoadDetailAdder>().withFixedActivePower(777); break;
                case 21: for (auto& x : n.getGenerators()) x.newExtension<extensions::iidm::ActivePowerControlAdder>().withDroop(777).withParticipate(true); break;
                case 22: for (auto& x : n.getVoltageLevels()) x.newExtension<extensions::SlackTerminalAdder>(); break;
                default: for (auto& x : n.getBatteries()) x.newReactiveCapabilityCurve().beginPoint().setP(1); break;
            }
            return std::string();
        });
    }

    // reading a document makes another network
    void reading() {
        guarded([&]() {
            Network other = model::fromXml(model::toXml(n));
            for (auto& l : other.getLoads()) l.setP0(4321.5);
            for (auto& x : other.getSwitches()) x.setOpen(!x.isOpen());
            other.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "elsewhere");
            other.getVariantManager().setWorkingVariant("elsewhere");
            return model::toXml(other);
        });
        c.label("document read");
    }
};

}  // namespace
