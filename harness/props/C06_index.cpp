// C06: identifiers and aliases resolve uniquely, listings and counts match the content.
// The oracle is a plain table of the objects created and not removed, built from the requests alone.
#include "../model/common.hpp"

#include <algorithm>

// the message is only built when the check fails
#define CHECK(cond, key, message) do { c.compared(); if (!(cond)) c.fail(key, message); } while (false)

#include <memory>

using pbt::Case;
using pbt::quote;
namespace vl = iidm::voltage_level;

namespace {

enum Type { NETWORK, SUBSTATION, LEVEL, BUS, SWITCH, BBS, LOAD, GEN, BATTERY, SHUNT, SVC, DANGLING, LCC, VSC, HVDC, LINE, TIE, T2, T3, TYPES };
const char* const NAMES[TYPES] = {"network", "substation", "voltage level", "bus", "switch", "busbar section", "load", "generator", "battery", "shunt", "svc", "dangling line", "lcc", "vsc", "hvdc line", "line", "tie line", "2wt", "3wt"};
bool injection(Type t) { return t >= BBS && t <= VSC; }
bool connectable(Type t) { return t >= BBS && t <= T3 && t != HVDC; }

struct Obj {
    std::string id;
    Type type = LOAD;
    const iidm::Identifiable* address = nullptr;
    std::vector<std::string> levels;         // of the ends
    std::string substation;                  // of a level
    bool nodeBreaker = false;                // of a level
    std::string b1, b2;                      // buses of a bus/breaker switch, of injections (b1)
    std::vector<std::string> ends;           // bus of each end ("" in node/breaker levels)
    std::string s1, s2;                      // converter stations
    int country = -1;
    std::set<std::string> plain;             // aliases without type
    std::map<std::string, std::string> typed;  // type -> alias
    unsigned long nextNode = 0;              // of a level
};

using Set = std::multiset<std::string>;

template <typename R> Set ids(const R& range) {
    Set r;
    for (const auto& x : range) r.insert(x.getId());
    return r;
}

std::string show(const Set& s) {
    std::string r;
    for (const auto& x : s) r += quote(x) + " ";
    return r;
}

struct Model {
    std::map<std::string, Obj> objects;      // by id
    std::map<std::string, std::string> alias;  // alias -> id

    bool taken(const std::string& x) const { return objects.count(x) || alias.count(x); }
    const Obj* resolve(const std::string& x) const {
        auto a = alias.find(x);
        auto o = objects.find(a == alias.end() ? x : a->second);
        return o == objects.end() ? nullptr : &o->second;
    }
    std::string unique(const std::string& base) const {
        if (!base.empty() && !taken(base)) return base;
        const std::string b = base.empty() ? "autoId" : base;
        for (unsigned k = 0;; ++k) if (!taken(b + "#" + std::to_string(k))) return b + "#" + std::to_string(k);
    }
    Set all(const std::function<bool(const Obj&)>& f) const {
        Set r;
        for (const auto& o : objects) if (f(o.second)) r.insert(o.first);
        return r;
    }
    Set all(std::initializer_list<Type> ts) const { return all([&](const Obj& o) { return std::find(ts.begin(), ts.end(), o.type) != ts.end(); }); }
    std::vector<std::string> list(std::initializer_list<Type> ts) const { Set s = all(ts); return std::vector<std::string>(s.begin(), s.end()); }
    void erase(const std::string& id) {
        auto it = objects.find(id);
        for (const auto& a : it->second.plain) alias.erase(a);
        for (const auto& a : it->second.typed) alias.erase(a.second);
        objects.erase(it);
    }
};

const std::vector<std::string> POOL = {"A", "B", "C", "a", "A#0", "A#1", "B#0", "A#0#0", " A", "A ", "\xC3\xA9", "autoId", "autoId#0", "#0", "N", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "O", "P"};
const std::vector<std::string> ALIAS_TYPES = {"t", "T", "t2", "\xC3\xA9", "CGMES"};

struct Run {
    explicit Run(Case& c) : c(c), s(c.s) {}
    Case& c;
    pbt::Src& s;
    std::unique_ptr<Network> owned{new Network("N", "test")};
    Network* n = owned.get();
    Model m;
    unsigned counter = 0;
    unsigned long refusals = 0, uniques = 0, removals = 0, aliases = 0;

    // an identifier to look for
    std::string anyId() {
        if (s.chance(50) && !m.objects.empty()) { auto it = m.objects.begin(); std::advance(it, s.draw(m.objects.size())); return it->first; }
        if (s.chance(50) && !m.alias.empty()) { auto it = m.alias.begin(); std::advance(it, s.draw(m.alias.size())); return it->first; }
        return s.pick(POOL);
    }

    // an identifier for a new object
    std::string newId() {
        switch (s.weighted({5, 4, 1})) {
            case 0: return "X" + std::to_string(counter++);
            case 1: return s.pick(POOL);
            default: return anyId();
        }
    }

    void note(const std::string& t) { c.note(t); }

    // ---- creation
    // Sets the id of the adder, calls it and compares the outcome with the table. bad: the data is invalid.
    template <typename A> Obj* create(Type type, A& a, const std::string& base, bool ensure, bool bad, Obj o) {
        a.setId(base);
        if (ensure) a.setEnsureIdUnicity(true);
        const bool ok = !bad && !base.empty() && (ensure || !m.taken(base));
        std::string id = ensure ? m.unique(base) : base;
        const std::string what = std::string("new ") + NAMES[type] + " " + quote(base) + (ensure ? " made unique" : "") + (bad ? " with invalid data" : "");
        const iidm::Identifiable* address = nullptr;
        std::string error;
        bool accepted = true;
        try { address = &a.add(); }
        catch (const PowsyblException& e) { accepted = false; error = e.what(); }
        note(what + (accepted ? "" : " refused: " + error));
        c.check(accepted == ok, accepted ? "accepts-taken-id" : "refuses-free-id", what + ": expected " + (ok ? "success" : "refusal") + ", error '" + error + "'");
        if (!accepted) { ++refusals; if (m.taken(base)) c.label("taken id refused"); return nullptr; }
        c.checkEq(address->getId(), id, "created-id", what);
        if (ensure && id != base) { ++uniques; c.label("id made unique"); }
        o.id = id;
        o.type = type;
        o.address = address;
        return &(m.objects[id] = o);
    }

    iidm::VoltageLevel& level(const std::string& id) { return const_cast<iidm::VoltageLevel&>(dynamic_cast<const iidm::VoltageLevel&>(*m.objects.at(id).address)); }
    iidm::Substation& substation(const std::string& id) { return const_cast<iidm::Substation&>(dynamic_cast<const iidm::Substation&>(*m.objects.at(id).address)); }
    iidm::Identifiable& object(const std::string& id) { return const_cast<iidm::Identifiable&>(*m.objects.at(id).address); }

    // a place for an end: sets the node or the bus; false when the level has no bus
    template <typename A> bool place(A& a, const std::string& lv, Obj& o) {
        Obj& l = m.objects.at(lv);
        o.levels.push_back(lv);
        if (l.nodeBreaker) { a.setNode(l.nextNode++); o.ends.push_back(""); return true; }
        const Set buses = m.all([&](const Obj& b) { return b.type == BUS && b.levels[0] == lv; });
        if (buses.empty()) return false;
        auto it = buses.begin();
        std::advance(it, s.draw(buses.size()));
        a.setBus(*it).setConnectableBus(*it);
        o.ends.push_back(*it);
        return true;
    }
    template <typename A> bool place1(A& a, const std::string& lv, Obj& o) {
        Obj& l = m.objects.at(lv);
        o.levels.push_back(lv);
        if (l.nodeBreaker) { a.setNode1(l.nextNode++); o.ends.push_back(""); return true; }
        const Set buses = m.all([&](const Obj& b) { return b.type == BUS && b.levels[0] == lv; });
        if (buses.empty()) return false;
        auto it = buses.begin();
        std::advance(it, s.draw(buses.size()));
        a.setBus1(*it).setConnectableBus1(*it);
        o.ends.push_back(*it);
        return true;
    }
    template <typename A> bool place2(A& a, const std::string& lv, Obj& o) {
        Obj& l = m.objects.at(lv);
        o.levels.push_back(lv);
        if (l.nodeBreaker) { a.setNode2(l.nextNode++); o.ends.push_back(""); return true; }
        const Set buses = m.all([&](const Obj& b) { return b.type == BUS && b.levels[0] == lv; });
        if (buses.empty()) return false;
        auto it = buses.begin();
        std::advance(it, s.draw(buses.size()));
        a.setBus2(*it).setConnectableBus2(*it);
        o.ends.push_back(*it);
        return true;
    }

    void creation(Type type) {
        std::string base = newId();
        const bool ensure = s.chance(25);
        if (s.chance(2)) base = "";
        bool bad = s.chance(6);
        const auto subs = m.list({SUBSTATION});
        const auto lvs = m.list({LEVEL});
        if (subs.empty() && type != SUBSTATION) type = SUBSTATION;
        else if (lvs.empty() && type != SUBSTATION) type = LEVEL;
        Obj o;
        if (type == SUBSTATION) {
            auto a = n->newSubstation();
            o.country = static_cast<int>(s.draw(4)) - 1;
            if (o.country >= 0) a.setCountry(static_cast<iidm::Country>(o.country * 7));
            create(type, a, base, ensure, false, o);
            return;
        }
        if (type == LEVEL) {
            o.substation = s.pick(subs);
            o.nodeBreaker = s.chance(50);
            auto a = substation(o.substation).newVoltageLevel();
            a.setTopologyKind(o.nodeBreaker ? iidm::TopologyKind::NODE_BREAKER : iidm::TopologyKind::BUS_BREAKER).setLowVoltageLimit(0).setHighVoltageLimit(420);
            if (!bad) a.setNominalV(400);
            create(type, a, base, ensure, bad, o);
            return;
        }
        const std::string lv = s.pick(lvs);
        iidm::VoltageLevel& v = level(lv);
        const bool nb = m.objects.at(lv).nodeBreaker;
        switch (type) {
            case BUS: {
                if (nb) return;
                o.levels = {lv};
                auto a = v.getBusBreakerView().newBus();
                create(type, a, base, ensure, false, o);
                break;
            }
            case SWITCH: {
                o.levels = {lv};
                if (nb) {
                    auto a = v.getNodeBreakerView().newSwitch();
                    const unsigned long x = s.draw(m.objects.at(lv).nextNode + 1), y = m.objects.at(lv).nextNode + 1;
                    m.objects.at(lv).nextNode = y + 1;
                    a.setKind(s.pickOf({iidm::SwitchKind::BREAKER, iidm::SwitchKind::DISCONNECTOR, iidm::SwitchKind::LOAD_BREAK_SWITCH})).setOpen(s.chance(50)).setRetained(s.chance(40));
                    if (!bad || s.chance(50)) a.setNode1(x);
                    else { a.setNode2(y); create(type, a, base, ensure, true, o); return; }
                    if (!bad) a.setNode2(y);
                    create(type, a, base, ensure, bad, o);
                } else {
                    const Set buses = m.all([&](const Obj& b) { return b.type == BUS && b.levels[0] == lv; });
                    if (buses.size() < 2) return;
                    std::vector<std::string> b(buses.begin(), buses.end());
                    o.b1 = s.pick(b);
                    o.b2 = s.pick(b);
                    if (o.b1 == o.b2) o.b2 = b[0] == o.b1 ? b[1] : b[0];
                    auto a = v.getBusBreakerView().newSwitch();
                    a.setOpen(s.chance(50)).setBus1(o.b1);
                    if (!bad) a.setBus2(o.b2);
                    create(type, a, base, ensure, bad, o);
                }
                break;
            }
            case BBS: {
                if (!nb) return;
                auto a = v.getNodeBreakerView().newBusbarSection();
                o.levels = {lv};
                o.ends = {""};
                if (!bad) a.setNode(m.objects.at(lv).nextNode++);
                create(type, a, base, ensure, bad, o);
                break;
            }
            case LOAD: {
                auto a = v.newLoad();
                a.setP0(1);
                if (!bad) a.setQ0(2);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case GEN: {
                auto a = v.newGenerator();
                a.setMinP(0).setMaxP(10).setTargetP(5).setVoltageRegulatorOn(false);
                if (!bad) a.setTargetQ(1);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case BATTERY: {
                auto a = v.newBattery();
                a.setMinP(0).setMaxP(bad ? -10 : 10).setP0(5).setQ0(0);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case SHUNT: {
                auto a = v.newShuntCompensator();
                a.setSectionCount(bad ? 5 : 1).newLinearModel().setBPerSection(1).setMaximumSectionCount(2).add();
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case SVC: {
                auto a = v.newStaticVarCompensator();
                a.setBmin(0).setRegulationMode(iidm::StaticVarCompensator::RegulationMode::OFF);
                if (!bad) a.setBmax(1);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case DANGLING: {
                auto a = v.newDanglingLine();
                a.setP0(0).setQ0(0).setR(1).setX(1).setG(0);
                if (!bad) a.setB(0);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case LCC: {
                auto a = v.newLccConverterStation();
                a.setLossFactor(1).setPowerFactor(bad ? 3 : 0.5);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case VSC: {
                auto a = v.newVscConverterStation();
                a.setLossFactor(1).setVoltageRegulatorOn(false);
                if (!bad) a.setReactivePowerSetpoint(1);
                if (!place(a, lv, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case HVDC: {
                std::vector<std::string> free;
                for (const auto& st : m.list({LCC, VSC})) {
                    bool used = false;
                    for (const auto& h : m.objects) if (h.second.type == HVDC && (h.second.s1 == st || h.second.s2 == st)) used = true;
                    if (!used) free.push_back(st);
                }
                // both stations of the same kind
                const Type kind = s.chance(50) ? LCC : VSC;
                std::vector<std::string> f;
                for (const auto& x : free) if (m.objects.at(x).type == kind) f.push_back(x);
                if (f.size() < 2) return;
                o.s1 = s.pick(f);
                o.s2 = s.pick(f);
                if (o.s1 == o.s2) o.s2 = f[0] == o.s1 ? f[1] : f[0];
                auto a = n->newHvdcLine();
                a.setConverterStationId1(o.s1).setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(5).setConvertersMode(iidm::HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER);
                if (!bad) a.setConverterStationId2(o.s2);
                create(type, a, base, ensure, bad, o);
                break;
            }
            case LINE: {
                const std::string lv2 = s.pick(lvs);
                auto a = n->newLine();
                a.setVoltageLevel1(lv).setVoltageLevel2(lv2).setR(1).setX(1).setG1(0).setG2(0).setB1(0);
                if (!bad) a.setB2(0);
                if (!place1(a, lv, o) || !place2(a, lv2, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            case TIE: {
                const std::string lv2 = s.pick(lvs);
                auto a = n->newTieLine();
                a.setVoltageLevel1(lv).setVoltageLevel2(lv2).setUcteXnodeCode("X");
                a.newHalfLine1().setId("half1").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
                a.newHalfLine2().setId("half2").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
                if (!place1(a, lv, o) || !place2(a, lv2, o)) return;
                create(type, a, base, ensure, false, o);
                break;
            }
            case T2: {
                std::vector<std::string> sameSub;
                for (const auto& x : lvs) if (m.objects.at(x).substation == m.objects.at(lv).substation) sameSub.push_back(x);
                const std::string lv2 = s.pick(sameSub);
                auto a = substation(m.objects.at(lv).substation).newTwoWindingsTransformer();
                a.setVoltageLevel1(lv).setVoltageLevel2(lv2).setR(1).setX(1).setG(0).setRatedU1(400).setRatedU2(400);
                if (!bad) a.setB(0);
                if (!place1(a, lv, o) || !place2(a, lv2, o)) return;
                create(type, a, base, ensure, bad, o);
                break;
            }
            default: {
                std::vector<std::string> sameSub;
                for (const auto& x : lvs) if (m.objects.at(x).substation == m.objects.at(lv).substation) sameSub.push_back(x);
                auto a = substation(m.objects.at(lv).substation).newThreeWindingsTransformer();
                a.setRatedU0(400);
                bool ok = true;
                {
                    auto leg = a.newLeg1();
                    const std::string l1 = s.pick(sameSub);
                    leg.setVoltageLevel(l1).setR(1).setX(1).setG(0).setB(0).setRatedU(400);
                    if (!place(leg, l1, o)) ok = false; else leg.add();
                }
                if (!ok) return;
                {
                    auto leg = a.newLeg2();
                    const std::string l2 = s.pick(sameSub);
                    leg.setVoltageLevel(l2).setR(1).setX(1).setG(0).setB(0).setRatedU(400);
                    if (!place(leg, l2, o)) ok = false; else leg.add();
                }
                if (!ok) return;
                if (!bad) {
                    auto leg = a.newLeg3();
                    const std::string l3 = s.pick(sameSub);
                    leg.setVoltageLevel(l3).setR(1).setX(1).setG(0).setB(0).setRatedU(400);
                    if (!place(leg, l3, o)) ok = false; else leg.add();
                }
                if (!ok) return;
                create(T3, a, base, ensure, bad, o);
                break;
            }
        }
    }

    // ---- aliases
    void alias() {
        const std::string id = std::next(m.objects.begin(), static_cast<long>(s.draw(m.objects.size())))->first;
        Obj& o = m.objects.at(id);
        iidm::Identifiable& i = object(id);
        if (s.chance(30)) {
            const std::string a = anyId();
            const bool own = m.alias.count(a) && m.alias.at(a) == id;
            bool done = true;
            std::string error;
            try { i.removeAlias(a); } catch (const PowsyblException& e) { done = false; error = e.what(); }
            note("remove alias " + quote(a) + " of " + quote(id) + (done ? "" : " refused: " + error));
            c.check(done == own, "remove-alias", "removal of alias " + quote(a) + " of " + quote(id) + " expected " + (own ? "to succeed" : "to be refused"));
            if (!done) { ++refusals; return; }
            m.alias.erase(a);
            o.plain.erase(a);
            for (auto it = o.typed.begin(); it != o.typed.end(); ++it) if (it->second == a) { o.typed.erase(it); break; }
            c.label("alias removed");
            return;
        }
        std::string base = s.chance(20) ? anyId() : newId();
        const bool ensure = s.chance(30);
        const std::string type = s.chance(50) ? s.pick(ALIAS_TYPES) : "";
        const std::string a = ensure ? m.unique(base) : base;
        const Obj* holder = ensure ? nullptr : m.resolve(a);
        const bool self = holder == &o;
        const bool typeTaken = !type.empty() && o.typed.count(type);
        if (self && typeTaken) return;  // whether the taken type is reported is not specified
        const bool ok = (!holder || self) && !typeTaken;
        bool done = true;
        std::string error;
        try {
            if (ensure) { if (type.empty()) i.addAlias(base, true); else if (s.chance(50)) i.addAlias(base, type, true); else i.addAlias(base, type.c_str(), true); }
            else if (type.empty()) i.addAlias(base);
            else if (s.chance(50)) i.addAlias(base, type);
            else i.addAlias(base, type.c_str());
        } catch (const PowsyblException& e) { done = false; error = e.what(); }
        const std::string what = "alias " + quote(base) + " type " + quote(type) + (ensure ? " made unique" : "") + " for " + NAMES[o.type] + " " + quote(id);
        note(what + (done ? "" : " refused: " + error));
        c.check(done == ok, done ? "accepts-taken-alias" : "refuses-free-alias", what + " error '" + error + "'");
        if (!done) { ++refusals; c.label("alias refused"); return; }
        if (self) { c.label("own alias again"); return; }
        ++aliases;
        if (ensure && a != base) { ++uniques; c.label("alias made unique"); }
        m.alias[a] = id;
        if (type.empty()) o.plain.insert(a); else o.typed[type] = a;
    }

    // ---- removal
    std::string stationUser(const std::string& st) {
        for (const auto& h : m.objects) if (h.second.type == HVDC && (h.second.s1 == st || h.second.s2 == st)) return h.first;
        return "";
    }

    void outcome(const std::string& what, bool ok, const std::vector<std::string>& gone, const std::function<void()>& fn) {
        bool done = true;
        std::string error;
        try { fn(); }
        catch (const PowsyblException& e) { done = false; error = e.what(); }
        catch (const powsybl::AssertionError& e) { done = false; error = e.what(); }  // how a level with branches refuses
        note(what + (done ? "" : " refused: " + error));
        c.check(done == ok, done ? "accepts-removal" : "refuses-removal", what + " error '" + error + "'");
        if (!done) { ++refusals; c.label("removal refused"); return; }
        ++removals;
        for (const auto& g : gone) m.erase(g);
        c.label(what.substr(0, what.find(" \"")));
    }

    void content(const std::string& lv, std::vector<std::string>& gone, bool& multi) {
        for (const auto& o : m.objects) {
            if (std::find(o.second.levels.begin(), o.second.levels.end(), lv) == o.second.levels.end()) continue;
            if (std::find(gone.begin(), gone.end(), o.first) == gone.end()) gone.push_back(o.first);
            if (o.second.levels.size() > 1) multi = true;
            if ((o.second.type == LCC || o.second.type == VSC) && !stationUser(o.first).empty()) multi = true;
        }
    }

    void removal() {
        if (m.objects.size() < 2) return;
        std::string id = std::next(m.objects.begin(), static_cast<long>(s.draw(m.objects.size())))->first;
        const Obj o = m.objects.at(id);
        const std::string q = " " + quote(id);
        switch (o.type) {
            case NETWORK: return;
            case SUBSTATION: {
                if (!s.chance(40)) return;
                std::vector<std::string> gone;
                bool dummy = false, ok = true;
                for (const auto& x : m.objects) if (x.second.substation == id) { gone.push_back(x.first); content(x.first, gone, dummy); }
                for (size_t k = 0; k < gone.size(); ++k) {
                    const Obj x = m.objects.at(gone[k]);
                    for (const auto& l : x.levels) if (m.objects.at(l).substation != id) ok = false;
                    if (x.type == LCC || x.type == VSC) {
                        const std::string h = stationUser(gone[k]);
                        if (h.empty()) continue;
                        if (std::find(gone.begin(), gone.end(), h) == gone.end()) gone.push_back(h);
                        for (const auto& st : {m.objects.at(h).s1, m.objects.at(h).s2}) if (m.objects.at(m.objects.at(st).levels[0]).substation != id) ok = false;
                    }
                }
                gone.push_back(id);
                outcome("remove substation" + q, ok, gone, [&]() { substation(id).remove(); });
                break;
            }
            case LEVEL: {
                if (!s.chance(60)) return;
                std::vector<std::string> gone;
                bool multi = false;
                content(id, gone, multi);
                gone.push_back(id);
                outcome("remove voltage level" + q, !multi, gone, [&]() { level(id).remove(); });
                break;
            }
            case BUS: {
                iidm::VoltageLevel& v = level(o.levels[0]);
                if (s.chance(15)) {
                    std::vector<std::string> gone;
                    bool ok = true;
                    for (const auto& x : m.objects) {
                        if (x.second.type == BUS && x.second.levels[0] == o.levels[0]) gone.push_back(x.first);
                        if (connectable(x.second.type) && std::find(x.second.levels.begin(), x.second.levels.end(), o.levels[0]) != x.second.levels.end()) ok = false;
                        if (x.second.type == SWITCH && x.second.levels[0] == o.levels[0]) ok = false;
                    }
                    outcome("remove all buses of " + quote(o.levels[0]), ok, gone, [&]() { v.getBusBreakerView().removeAllBuses(); });
                    return;
                }
                bool ok = true;
                for (const auto& x : m.objects) {
                    if (x.second.type == SWITCH && (x.second.b1 == id || x.second.b2 == id)) ok = false;
                    for (const auto& e : x.second.ends) if (e == id) ok = false;
                }
                outcome("remove bus" + q, ok, {id}, [&]() { v.getBusBreakerView().removeBus(id); });
                break;
            }
            case SWITCH: {
                iidm::VoltageLevel& v = level(o.levels[0]);
                if (m.objects.at(o.levels[0]).nodeBreaker) outcome("remove switch" + q, true, {id}, [&]() { v.getNodeBreakerView().removeSwitch(id); });
                else if (s.chance(15)) {
                    std::vector<std::string> gone;
                    for (const auto& x : m.objects) if (x.second.type == SWITCH && x.second.levels[0] == o.levels[0]) gone.push_back(x.first);
                    outcome("remove all switches of " + quote(o.levels[0]), true, gone, [&]() { v.getBusBreakerView().removeAllSwitches(); });
                } else outcome("remove switch" + q, true, {id}, [&]() { v.getBusBreakerView().removeSwitch(id); });
                break;
            }
            case HVDC: outcome("remove HVDC line" + q, true, {id}, [&]() { dynamic_cast<iidm::HvdcLine&>(object(id)).remove(); }); break;
            case LCC: case VSC:
                outcome("remove station" + q, stationUser(id).empty(), {id}, [&]() { dynamic_cast<iidm::Connectable&>(object(id)).remove(); });
                break;
            default: outcome("remove equipment" + q, true, {id}, [&]() { dynamic_cast<iidm::Connectable&>(object(id)).remove(); }); break;
        }
    }

    // ---- comparison
    template <typename T> void typed(const std::string& x, const Obj* o, bool match, const char* name, const std::function<const iidm::Identifiable&(const std::string&)>& getter = nullptr) {
        const Network& cn = *n;
        const bool expected = o && match;
        const auto f = cn.find<T>(x);
        CHECK(static_cast<bool>(f) == expected, "find", "find<" + std::string(name) + ">(" + quote(x) + ") " + (expected ? "finds nothing" : "finds an object of another type or no longer there"));
        if (expected) CHECK(static_cast<const iidm::Identifiable*>(&f.get()) == o->address, "find", "find<" + std::string(name) + ">(" + quote(x) + ") is another object");
        const auto f2 = n->find<T>(x);
        CHECK(static_cast<bool>(f2) == expected && (!expected || static_cast<const iidm::Identifiable*>(&f2.get()) == o->address), "find", "find<" + std::string(name) + ">(" + quote(x) + ")");
        if (!expected && !s.chance(12)) return;
        const int only = expected ? -1 : static_cast<int>(s.draw(3));  // errors are slow
        for (int k = 0; k < 3; ++k) {
            if (only >= 0 && k != only) continue;
            const iidm::Identifiable* got = nullptr;
            if (k == 2 && !getter) break;
            try { got = k == 0 ? static_cast<const iidm::Identifiable*>(&cn.get<T>(x)) : k == 1 ? static_cast<const iidm::Identifiable*>(&n->get<T>(x)) : &getter(x); } catch (const PowsyblException&) {}
            const char* const forms[] = {"get const ", "get ", "named getter of "};
            CHECK(got == (expected ? o->address : nullptr), "get", std::string(forms[k]) + name + " " + quote(x) + (got ? " gives " + quote(got->getId()) : " fails") + ", expected " + (expected ? quote(o->id) : "an error"));
        }
    }

    void lookup(const std::string& x) {
        if (x.empty()) return;
        const Obj* o = m.resolve(x);
        const Type t = o ? o->type : TYPES;
        using G = const std::string&;
        using I = const iidm::Identifiable&;
        typed<iidm::Identifiable>(x, o, true, "Identifiable", [this](G i) -> I { return n->getIdentifiable(i); });
        typed<Network>(x, o, t == NETWORK, "Network");
        typed<iidm::Substation>(x, o, t == SUBSTATION, "Substation", [this](G i) -> I { return n->getSubstation(i); });
        typed<iidm::VoltageLevel>(x, o, t == LEVEL, "VoltageLevel", [this](G i) -> I { return n->getVoltageLevel(i); });
        typed<iidm::Bus>(x, o, t == BUS, "Bus");
        typed<iidm::Switch>(x, o, t == SWITCH, "Switch", [this](G i) -> I { return n->getSwitch(i); });
        typed<iidm::BusbarSection>(x, o, t == BBS, "BusbarSection", [this](G i) -> I { return n->getBusbarSection(i); });
        typed<iidm::Load>(x, o, t == LOAD, "Load", [this](G i) -> I { return n->getLoad(i); });
        typed<iidm::Generator>(x, o, t == GEN, "Generator", [this](G i) -> I { return n->getGenerator(i); });
        typed<iidm::Battery>(x, o, t == BATTERY, "Battery", [this](G i) -> I { return n->getBattery(i); });
        typed<iidm::ShuntCompensator>(x, o, t == SHUNT, "ShuntCompensator", [this](G i) -> I { return n->getShuntCompensator(i); });
        typed<iidm::StaticVarCompensator>(x, o, t == SVC, "StaticVarCompensator", [this](G i) -> I { return n->getStaticVarCompensator(i); });
        typed<iidm::DanglingLine>(x, o, t == DANGLING, "DanglingLine", [this](G i) -> I { return n->getDanglingLine(i); });
        typed<iidm::LccConverterStation>(x, o, t == LCC, "LccConverterStation", [this](G i) -> I { return n->getLccConverterStation(i); });
        typed<iidm::VscConverterStation>(x, o, t == VSC, "VscConverterStation", [this](G i) -> I { return n->getVscConverterStation(i); });
        typed<iidm::HvdcConverterStation>(x, o, t == LCC || t == VSC, "HvdcConverterStation", [this](G i) -> I { return n->getHvdcConverterStation(i); });
        typed<iidm::HvdcLine>(x, o, t == HVDC, "HvdcLine", [this](G i) -> I { return n->getHvdcLine(i); });
        typed<iidm::Line>(x, o, t == LINE || t == TIE, "Line", [this](G i) -> I { return n->getLine(i); });
        typed<iidm::TieLine>(x, o, t == TIE, "TieLine");
        typed<iidm::TwoWindingsTransformer>(x, o, t == T2, "TwoWindingsTransformer", [this](G i) -> I { return n->getTwoWindingsTransformer(i); });
        typed<iidm::ThreeWindingsTransformer>(x, o, t == T3, "ThreeWindingsTransformer", [this](G i) -> I { return n->getThreeWindingsTransformer(i); });
        typed<iidm::Branch>(x, o, t == LINE || t == TIE || t == T2, "Branch", [this](G i) -> I { return n->getBranch(i); });
        typed<iidm::Connectable>(x, o, o && connectable(t), "Connectable");
        typed<iidm::Injection>(x, o, o && injection(t), "Injection");
        if (o) c.label(o->id == x ? "found by id" : "found by alias");
    }

    // both forms of a listing and its count
    template <typename R1, typename R2> void listing(const R1& r1, const R2& r2, const Set& expected, const char* what, long count = -1) {
        const Set a = ids(r1), b = ids(r2);
        CHECK(a == expected, "listing", std::string(what) + ": " + show(a) + ", expected " + show(expected));
        CHECK(b == expected, "listing", std::string(what) + " (const): " + show(b) + ", expected " + show(expected));
        for (const auto& x : r1) CHECK(static_cast<const iidm::Identifiable*>(&x) == m.objects.at(x.getId()).address, "listing", std::string(what) + " holds another object named " + quote(x.getId()));
        if (count >= 0) CHECK(static_cast<unsigned long>(count) == expected.size(), "count", std::string(what) + ": count " + std::to_string(count) + ", expected " + std::to_string(expected.size()));
    }

    void networkLists() {
        Network& x = *n;
        const Network& cx = *n;
#define LIST(NAME, COUNT, ...) listing(x.NAME(), cx.NAME(), m.all(std::initializer_list<Type>{__VA_ARGS__}), "network " #NAME, static_cast<long>(cx.COUNT()))
        LIST(getBatteries, getBatteryCount, BATTERY);
        LIST(getBranches, getBranchCount, LINE, TIE, T2);
        LIST(getBusbarSections, getBusbarSectionCount, BBS);
        LIST(getDanglingLines, getDanglingLineCount, DANGLING);
        LIST(getGenerators, getGeneratorCount, GEN);
        LIST(getHvdcConverterStations, getHvdcConverterStationCount, LCC, VSC);
        LIST(getHvdcLines, getHvdcLineCount, HVDC);
        LIST(getLccConverterStations, getLccConverterStationCount, LCC);
        LIST(getLines, getLineCount, LINE, TIE);
        LIST(getLoads, getLoadCount, LOAD);
        LIST(getShuntCompensators, getShuntCompensatorCount, SHUNT);
        LIST(getStaticVarCompensators, getStaticVarCompensatorCount, SVC);
        LIST(getSubstations, getSubstationCount, SUBSTATION);
        LIST(getSwitches, getSwitchCount, SWITCH);
        LIST(getThreeWindingsTransformers, getThreeWindingsTransformerCount, T3);
        LIST(getTwoWindingsTransformers, getTwoWindingsTransformerCount, T2);
        LIST(getVoltageLevels, getVoltageLevelCount, LEVEL);
        LIST(getVscConverterStations, getVscConverterStationCount, VSC);
        LIST(getConnectables<iidm::Load>, getConnectableCount<iidm::Load>, LOAD);
        LIST(getConnectables<iidm::Branch>, getConnectableCount<iidm::Branch>, LINE, TIE, T2);
        LIST(getConnectables<iidm::Line>, getConnectableCount<iidm::Line>, LINE, TIE);
        LIST(getConnectables<iidm::TieLine>, getConnectableCount<iidm::TieLine>, TIE);
        LIST(getConnectables<iidm::HvdcConverterStation>, getConnectableCount<iidm::HvdcConverterStation>, LCC, VSC);
#undef LIST
        listing(x.getConnectables(), cx.getConnectables(), m.all([](const Obj& o) { return connectable(o.type); }), "network connectables", static_cast<long>(cx.getConnectableCount()));
        listing(x.getConnectables<iidm::Injection>(), cx.getConnectables<iidm::Injection>(), m.all([](const Obj& o) { return injection(o.type); }), "network injections", static_cast<long>(cx.getConnectableCount<iidm::Injection>()));
        listing(x.getIdentifiables(), cx.getIdentifiables(), m.all([](const Obj&) { return true; }), "network identifiables");
        {
            std::multiset<const iidm::MultiVariantObject*> a, b;
            for (const auto& y : cx.getStatefulObjects()) a.insert(&y);
            for (const auto& o : m.objects) b.insert(o.second.address);
            c.check(a == b, "stateful", "stateful objects: " + std::to_string(a.size()) + " of " + std::to_string(b.size()));
        }
        std::set<iidm::Country> countries;
        for (const auto& o : m.objects) if (o.second.type == SUBSTATION && o.second.country >= 0) countries.insert(static_cast<iidm::Country>(o.second.country * 7));
        c.check(cx.getCountries() == countries && cx.getCountryCount() == countries.size(), "countries", "countries of the network");
        // buses of the whole network
        c.check([&]() {
            std::set<std::string> nb;
            for (const auto& b : cx.getBusBreakerView().getBuses()) if (b.getVoltageLevel().getTopologyKind() == iidm::TopologyKind::BUS_BREAKER) nb.insert(b.getId());
            const Set e = m.all({BUS});
            return nb == std::set<std::string>(e.begin(), e.end());
        }(), "network-buses", "configured buses of the network view");
        {
            Set sw = ids(cx.getBusBreakerView().getSwitches());
            const Set e = m.all([&](const Obj& o) { return o.type == SWITCH && (!m.objects.at(o.levels[0]).nodeBreaker || dynamic_cast<const iidm::Switch*>(o.address)->isRetained()); });
            c.check(sw == e && cx.getBusBreakerView().getSwitchCount() == e.size(), "network-switches", "switches of the bus/breaker view: " + show(sw) + " count " + std::to_string(cx.getBusBreakerView().getSwitchCount()) + ", expected " + show(e));
        }
        for (const auto& o : m.objects) {
            if (o.second.type != LCC && o.second.type != VSC) continue;
            const auto& st = dynamic_cast<const iidm::HvdcConverterStation&>(*o.second.address);
            const std::string h = stationUser(o.first);
            const auto f = cx.findHvdcLine(st);
            c.check(static_cast<bool>(f) == !h.empty() && (!f || f.get().getId() == h), "station-line", "line of station " + quote(o.first) + ": " + (f ? quote(f.get().getId()) : "none") + ", expected " + quote(h));
            const auto f2 = st.getHvdcLine();
            c.check(static_cast<bool>(f2) == !h.empty() && (!f2 || f2.get().getId() == h), "station-line", "line of station " + quote(o.first));
            std::string got;
            try { got = cx.getHvdcLine(st).getId(); } catch (const PowsyblException&) {}
            c.checkEq(got, h, "station-line", "getHvdcLine of station " + quote(o.first));
        }
    }

    void levelLists(const std::string& id) {
        iidm::VoltageLevel& v = level(id);
        const iidm::VoltageLevel& cv = v;
        const bool nb = m.objects.at(id).nodeBreaker;
        auto of = [&](std::function<bool(Type)> f) { return m.all([&](const Obj& o) { return f(o.type) && std::find(o.levels.begin(), o.levels.end(), id) != o.levels.end(); }); };
        const std::string w = "level " + quote(id) + " ";
#define LIST(NAME, COUNT, COND) listing(v.NAME(), cv.NAME(), of([](Type t) { return COND; }), (w + #NAME).c_str(), static_cast<long>(cv.COUNT()))
        LIST(getBatteries, getBatteryCount, t == BATTERY);
        LIST(getDanglingLines, getDanglingLineCount, t == DANGLING);
        LIST(getGenerators, getGeneratorCount, t == GEN);
        LIST(getLccConverterStations, getLccConverterStationCount, t == LCC);
        LIST(getVscConverterStations, getVscConverterStationCount, t == VSC);
        LIST(getLoads, getLoadCount, t == LOAD);
        LIST(getShuntCompensators, getShuntCompensatorCount, t == SHUNT);
        LIST(getStaticVarCompensators, getStaticVarCompensatorCount, t == SVC);
        LIST(getSwitches, getSwitchCount, t == SWITCH);
        LIST(getConnectables, getConnectableCount, connectable(t));
        LIST(getConnectables<iidm::Line>, getConnectableCount<iidm::Line>, t == LINE || t == TIE);
        LIST(getConnectables<iidm::Branch>, getConnectableCount<iidm::Branch>, t == LINE || t == TIE || t == T2);
        LIST(getConnectables<iidm::TwoWindingsTransformer>, getConnectableCount<iidm::TwoWindingsTransformer>, t == T2);
        LIST(getConnectables<iidm::ThreeWindingsTransformer>, getConnectableCount<iidm::ThreeWindingsTransformer>, t == T3);
        LIST(getConnectables<iidm::Injection>, getConnectableCount<iidm::Injection>, injection(t));
        LIST(getConnectables<iidm::HvdcConverterStation>, getConnectableCount<iidm::HvdcConverterStation>, t == LCC || t == VSC);
        if (nb) {
            LIST(getNodeBreakerView().getBusbarSections, getNodeBreakerView().getBusbarSectionCount, t == BBS);
            LIST(getNodeBreakerView().getSwitches, getNodeBreakerView().getSwitchCount, t == SWITCH);
        } else {
            listing(v.getBusBreakerView().getBuses(), cv.getBusBreakerView().getBuses(), of([](Type t) { return t == BUS; }), (w + "configured buses").c_str());
            LIST(getBusBreakerView().getSwitches, getBusBreakerView().getSwitchCount, t == SWITCH);
        }
#undef LIST
        // lookups in the level
        for (int k = 0; k < 3; ++k) {
            const std::string x = anyId();
            const Obj* o = m.resolve(x);
            const bool here = o && std::find(o->levels.begin(), o->levels.end(), id) != o->levels.end();
            const bool eq = o && connectable(o->type);
            const iidm::Identifiable* got = nullptr;
            bool error = false;
            try { const auto f = cv.getConnectable<iidm::Connectable>(x); if (f) got = &f.get(); } catch (const PowsyblException&) { error = true; }
            CHECK(got == (eq && here ? o->address : nullptr) && error == (eq && !here), "level-connectable", w + "getConnectable(" + quote(x) + ")" + (error ? " fails" : ""));
            got = nullptr;
            error = false;
            const bool load = eq && o->type == LOAD;
            try { const auto f = v.getConnectable<iidm::Load>(x); if (f) got = &f.get(); } catch (const PowsyblException&) { error = true; }
            CHECK(got == (load && here ? o->address : nullptr) && error == (load && !here), "level-connectable", w + "getConnectable<Load>(" + quote(x) + ")" + (error ? " fails" : ""));
            // switches and buses, by id
            if (o && o->id != x) continue;
            got = nullptr;
            try {
                const auto f = nb ? cv.getNodeBreakerView().getSwitch(x) : cv.getBusBreakerView().getSwitch(x);
                if (f) got = &f.get();
            } catch (const PowsyblException&) {}
            CHECK(got == (here && o->type == SWITCH ? o->address : nullptr), "level-switch", w + "getSwitch(" + quote(x) + ") gives " + (got ? quote(got->getId()) : "nothing"));
            if (nb) continue;
            got = nullptr;
            try { const auto f = cv.getBusBreakerView().getBus(x); if (f) got = &f.get(); } catch (const PowsyblException&) {}
            CHECK(got == (here && o->type == BUS ? o->address : nullptr), "level-bus", w + "getBus(" + quote(x) + ") gives " + (got ? quote(got->getId()) : "nothing"));
        }
    }

    void substationLists(const std::string& id) {
        iidm::Substation& x = substation(id);
        const iidm::Substation& cx = x;
        const std::string w = "substation " + quote(id) + " ";
        listing(x.getVoltageLevels(), cx.getVoltageLevels(), m.all([&](const Obj& o) { return o.type == LEVEL && o.substation == id; }), (w + "levels").c_str());
        auto in = [&](Type t) { return m.all([&](const Obj& o) { return o.type == t && m.objects.at(o.levels[0]).substation == id; }); };
        listing(x.getTwoWindingsTransformers(), cx.getTwoWindingsTransformers(), in(T2), (w + "2wt").c_str(), static_cast<long>(cx.getTwoWindingsTransformerCount()));
        listing(x.getThreeWindingsTransformers(), cx.getThreeWindingsTransformers(), in(T3), (w + "3wt").c_str(), static_cast<long>(cx.getThreeWindingsTransformerCount()));
    }

    void aliasLists(const Obj& o) {
        const iidm::Identifiable& i = *o.address;
        Set expected(o.plain.begin(), o.plain.end()), got;
        for (const auto& a : o.typed) expected.insert(a.second);
        for (const auto& a : i.getAliases()) got.insert(a);
        CHECK(got == expected, "aliases", "aliases of " + quote(o.id) + ": " + show(got) + ", expected " + show(expected));
        c.check(i.hasAliases() == !expected.empty(), "has-aliases", "hasAliases of " + quote(o.id));
        for (const auto& a : o.plain) c.checkEq(i.getAliasType(a), std::string(), "alias-type", "type of alias " + quote(a));
        for (const auto& a : o.typed) c.checkEq(i.getAliasType(a.second), a.first, "alias-type", "type of alias " + quote(a.second));
        for (const auto& t : ALIAS_TYPES) {
            const auto f = i.getAliasFromType(t);
            auto e = o.typed.find(t);
            c.check(static_cast<bool>(f) == (e != o.typed.end()) && (!f || *f == e->second), "alias-from-type", "alias of type " + quote(t) + " of " + quote(o.id));
        }
        c.checkEq(i.getId(), o.id, "id");
    }

    void compare(bool full) {
        if (full) {
            std::set<std::string> names(POOL.begin(), POOL.end());
            for (const auto& o : m.objects) { names.insert(o.first); aliasLists(o.second); }
            for (const auto& a : m.alias) names.insert(a.first);
            for (const auto& x : names) lookup(x);
        } else {
            for (int k = 0; k < 3; ++k) lookup(anyId());
            const Obj& o = std::next(m.objects.begin(), static_cast<long>(s.draw(m.objects.size())))->second;
            aliasLists(o);
        }
        if (full || s.chance(40)) networkLists();
        for (const auto& o : m.objects) {
            if (o.second.type == LEVEL && (full || s.chance(25))) levelLists(o.first);
            if (o.second.type == SUBSTATION && (full || s.chance(30))) substationLists(o.first);
        }
    }

    void run() {
        Obj net;
        net.id = "N";
        net.type = NETWORK;
        net.address = n;
        m.objects["N"] = net;
        const unsigned steps = 4 + static_cast<unsigned>(s.draw(6 + c.size() / 2));
        for (unsigned k = 0; k < steps; ++k) {
            switch (s.weighted({60, 18, 16, 1})) {
                case 0: creation(static_cast<Type>(1 + s.weighted({4, 8, 10, 6, 4, 8, 3, 3, 3, 3, 3, 8, 8, 6, 6, 4, 6, 6}))); break;
                case 1: alias(); break;
                case 2: removal(); break;
                default: {  // the table moves with the network
                    note("move");
                    std::unique_ptr<Network> moved(new Network(std::move(*n)));
                    owned = std::move(moved);
                    n = owned.get();
                    m.objects.at("N").address = n;
                    c.label("moved");
                    break;
                }
            }
            compare(false);
        }
        compare(true);
        c.nontrivial(m.objects.size() >= 5 && (refusals || uniques || removals) && aliases);
    }
};

void property(Case& c) { Run r(c); r.run(); }

}  // namespace

int main(int argc, char** argv) {
    pbt::Config k;
    k.id = "C06";
    k.rule = "histories of creations of every kind of object (free, taken or empty identifiers, made unique or not, invalid data), alias additions and removals, removals of objects and containers and network moves, over a small pool of colliding identifiers; "
             "after every step lookups by every type, listings and counts are compared with a table built from the requests. Non-trivial: at least five objects, an alias, and a refusal, a removal or a name made unique";
    k.quick = 12000;
    k.thorough = 3000000;
    k.requiredLabels = {"taken id refused", "id made unique", "alias made unique", "alias refused", "alias removed", "own alias again", "removal refused", "found by alias", "found by id", "moved", "remove substation", "remove voltage level", "remove HVDC line", "remove bus", "remove switch"};
    return pbt::runMain(argc, argv, k, property);
}
