#include <powsybl/iidm/util/Networks.hpp>
#include "shadow.hpp"
#include <powsybl/iidm/IdBasedBusRef.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>

namespace shadow {

using namespace powsybl::iidm;

std::vector<const Term*> Model::termsOf(const std::string& vl) const {
    std::vector<const Term*> r;
    for (const auto& e : eqs) for (const auto& t : e.second.terms) if (t.vl == vl) r.push_back(&t);
    return r;
}

std::set<unsigned long> Model::nodes(const Level& l) const {
    std::set<unsigned long> r;
    for (const auto* t : termsOf(l.id)) r.insert(t->node);
    for (const auto& s : sws) if (s.second.vl == l.id) { r.insert(s.second.n1); r.insert(s.second.n2); }
    for (const auto& i : l.internals) { r.insert(i.first); r.insert(i.second); }
    return r;
}

bool Model::validBus(const Level& l, const Group& g) const {
    unsigned feeders = 0, branches = 0, busbars = 0;
    for (const auto& k : g.terms) {
        const Eq& e = eqs.at(k.substr(0, k.find('#')));
        if (e.bbs()) ++busbars;
        else {
            ++feeders;
            if (e.branch()) ++branches;
        }
    }
    if (!l.nb) return branches >= 1;
    return (busbars >= 1 && feeders >= 1) || (branches >= 1 && feeders >= 2);
}

namespace {

// union by repeated relabelling: slow and obvious
template <typename K> struct Sets {
    std::map<K, unsigned> label;
    unsigned next = 0;
    void add(const K& k) { if (!label.count(k)) label[k] = next++; }
    void join(const K& a, const K& b) {
        add(a); add(b);
        const unsigned x = label[a], y = label[b];
        if (x == y) return;
        for (auto& e : label) if (e.second == y) e.second = x;
    }
};

}  // namespace

std::vector<Group> Model::nodeGroups(const Level& l, const VState& v, bool retainedToo) const {
    Sets<unsigned long> sets;
    std::map<unsigned long, const Term*> at;
    for (const auto* t : termsOf(l.id)) at[t->node] = t;
    for (const auto& s : sws) {
        if (s.second.vl != l.id) continue;
        sets.add(s.second.n1);
        sets.add(s.second.n2);
        const SwState& st = v.sw.at(s.first);
        if (!st.open && !(retainedToo && st.retained)) sets.join(s.second.n1, s.second.n2);
    }
    for (const auto& i : l.internals) sets.join(i.first, i.second);
    std::map<unsigned, Group> groups;
    for (const auto& e : sets.label) {
        Group& g = groups[e.second];
        g.nodes.insert(e.first);
        auto t = at.find(e.first);
        if (t != at.end()) g.terms.insert(t->second->key());
    }
    std::vector<Group> r;
    for (auto& e : groups) {
        Group& g = e.second;
        g.id = l.id + "_" + std::to_string(*g.nodes.begin());
        g.valid = validBus(l, g);
        if (retainedToo || g.valid) r.push_back(g);
    }
    return r;
}

std::vector<Group> Model::busGroups(const Level& l, const VState& v) const {
    Sets<std::string> sets;
    for (const auto& b : l.buses) sets.add(b);
    for (const auto& s : sws) if (s.second.vl == l.id && !v.sw.at(s.first).open) sets.join(s.second.b1, s.second.b2);
    std::map<unsigned, Group> groups;
    for (const auto& e : sets.label) groups[e.second].buses.insert(e.first);
    for (const auto* t : termsOf(l.id)) {
        const TermState& ts = v.term.at(t->key());
        if (ts.connected) groups[sets.label.at(ts.bus)].terms.insert(t->key());
    }
    std::vector<Group> r;
    for (auto& e : groups) {
        e.second.valid = validBus(l, e.second);
        if (e.second.valid) r.push_back(e.second);
    }
    return r;
}

BusIndex busIndex(const Model& m) {
    BusIndex r;
    for (const auto& l : m.levels) {
        const auto groups = l.second.nb ? m.nodeGroups(l.second, m.now(), false) : m.busGroups(l.second, m.now());
        for (const auto& g : groups) {
            for (const auto& t : g.terms) r.ofTerm[t] = static_cast<int>(r.groups.size());
            r.groups.push_back(g);
            r.levelOf.push_back(l.first);
        }
    }
    return r;
}

std::vector<std::vector<std::string>> Model::pathsToBusbars(const Level& l, const VState& v, unsigned long node) const {
    struct Step { std::string sw; unsigned long to; };
    std::map<unsigned long, std::vector<Step>> next;
    for (const auto& s : sws) {
        if (s.second.vl != l.id || (v.sw.at(s.first).open && s.second.kind != SwitchKind::BREAKER)) continue;
        next[s.second.n1].push_back({s.first, s.second.n2});
        next[s.second.n2].push_back({s.first, s.second.n1});
    }
    for (const auto& i : l.internals) {
        next[i.first].push_back({"", i.second});
        next[i.second].push_back({"", i.first});
    }
    std::set<unsigned long> busbars;
    for (const auto* t : termsOf(l.id)) if (eqs.at(t->eq).bbs()) busbars.insert(t->node);
    std::vector<std::vector<std::string>> r;
    std::set<unsigned long> on;
    std::vector<std::string> path;
    std::function<void(unsigned long)> walk = [&](unsigned long x) {
        on.insert(x);
        for (const auto& s : next[x]) {
            if (on.count(s.to)) continue;
            path.push_back(s.sw);
            if (busbars.count(s.to)) r.push_back(path); else walk(s.to);
            path.pop_back();
        }
        on.erase(x);
    };
    walk(node);
    return r;
}

bool Model::joinedToBusbar(const Level& l, const VState& v, unsigned long node) const {
    Sets<unsigned long> sets;
    sets.add(node);
    for (const auto& s : sws) if (s.second.vl == l.id && !v.sw.at(s.first).open) sets.join(s.second.n1, s.second.n2);
    for (const auto& i : l.internals) sets.join(i.first, i.second);
    for (const auto* t : termsOf(l.id)) {
        if (t->node == node || !eqs.at(t->eq).bbs()) continue;
        sets.add(t->node);
        if (sets.label.at(t->node) == sets.label.at(node)) return true;
    }
    return false;
}

Components components(const Model& m, bool synchronous) {
    const BusIndex index = busIndex(m);
    auto of = [&](const Term& t) {
        auto it = index.ofTerm.find(t.key());
        return it == index.ofTerm.end() ? -1 : it->second;
    };
    Sets<int> sets;
    for (size_t i = 0; i < index.groups.size(); ++i) sets.add(static_cast<int>(i));
    for (const auto& e : m.eqs) {
        const auto& ts = e.second.terms;
        for (size_t i = 0; i < ts.size(); ++i) for (size_t j = i + 1; j < ts.size(); ++j) if (of(ts[i]) >= 0 && of(ts[j]) >= 0) sets.join(of(ts[i]), of(ts[j]));
    }
    if (!synchronous) for (const auto& h : m.hvdcs) {
        const int x = of(m.eqs.at(h.second.s1).terms[0]), y = of(m.eqs.at(h.second.s2).terms[0]);
        if (x >= 0 && y >= 0) sets.join(x, y);
    }
    Components r;
    for (const auto& e : sets.label) {
        r.of[e.first] = e.second;
        r.comps[e.second].insert(e.first);
    }
    r.count = r.comps.size();
    for (const auto& e : r.comps) {
        std::set<std::string> levels;
        for (int k : e.second) levels.insert(index.levelOf[static_cast<size_t>(k)]);
        r.acrossLevels = r.acrossLevels || levels.size() > 1;
    }
    return r;
}

Topo::Topo(Case& c, Network& n, const Limits& l) : c(c), n(n), lim(l) {
    m.working = VariantManager::getInitialVariantId();
    m.variants[m.working];
}

Level* Topo::pickLevel(int kind) {
    std::vector<Level*> v;
    for (auto& l : m.levels) if (kind == 0 || l.second.nb == (kind == 1)) v.push_back(&l.second);
    return v.empty() ? nullptr : v[c.s.draw(v.size())];
}

const Term* Topo::pickTerm(int kind) {
    std::vector<const Term*> v;
    for (const auto& e : m.eqs) for (const auto& t : e.second.terms) if (kind == 0 || t.nb == (kind == 1)) v.push_back(&t);
    return v.empty() ? nullptr : v[c.s.draw(v.size())];
}

Terminal& Topo::terminal(const Term& t) {
    return n.get<Connectable>(t.eq).getTerminals().begin()[static_cast<long>(t.side) - 1].get();
}

std::string Topo::addSubstation() {
    const std::string s = id("S");
    n.newSubstation().setId(s).setCountry(Country::FR).add();
    m.subs[s] = s;
    return "substation " + s;
}

std::string Topo::addLevel() {
    if (m.subs.empty()) addSubstation();
    std::vector<std::string> subs;
    for (const auto& s : m.subs) subs.push_back(s.first);
    Level l;
    l.sub = c.s.pick(subs);
    l.id = id("VL");
    l.name = c.s.chance(40) ? "name of " + l.id : "";
    l.nb = lim.kind == 0 ? c.s.chance(50) : lim.kind == 1;
    l.fictitious = c.s.chance(10);
    auto a = n.getSubstation(l.sub).newVoltageLevel();
    a.setId(l.id).setNominalV(400).setTopologyKind(l.nb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER);
    if (!l.name.empty()) a.setName(l.name);
    a.setFictitious(l.fictitious);
    a.add();
    m.levels[l.id] = l;
    return (l.nb ? "node/breaker level " : "bus/breaker level ") + l.id + " in " + l.sub;
}

std::string Topo::addBus(Level& l) {
    const std::string b = id("B");
    n.getVoltageLevel(l.id).getBusBreakerView().newBus().setId(b).add();
    l.buses.insert(b);
    for (auto& v : m.variants) v.second.bus[b];
    return "bus " + b + " in " + l.id;
}

unsigned long Topo::anyNode(Level& l, bool mustBeFree, const std::vector<Spot>& used) {
    std::set<unsigned long> taken;
    for (const auto* t : m.termsOf(l.id)) taken.insert(t->node);
    for (const auto& s : used) if (s.l == &l) taken.insert(s.node);
    const std::set<unsigned long> all = m.nodes(l);
    std::vector<unsigned long> v;
    for (unsigned long x : all) if (!mustBeFree || !taken.count(x)) v.push_back(x);
    unsigned long next = 0;
    while (all.count(next) || taken.count(next)) ++next;
    const unsigned long top = (all.empty() ? 0 : *all.rbegin()) + 1;
    if (v.empty() || c.s.chance(20)) {
        if (c.s.chance(40)) {
            const unsigned long far = top + c.s.draw(4);
            if (!taken.count(far)) return far;
        }
        return next;
    }
    return v[c.s.draw(v.size())];
}

std::string Topo::addSwitch(Level& l) {
    Sw s;
    s.id = id("SW");
    s.vl = l.id;
    SwState st;
    st.open = c.s.chance(35);
    s.fictitious = c.s.chance(10);
    VoltageLevel& vl = n.getVoltageLevel(l.id);
    if (l.nb) {
        s.n1 = anyNode(l, false);
        s.n2 = anyNode(l, false);
        if (s.n1 == s.n2) s.n2 = (m.nodes(l).empty() ? 0 : *m.nodes(l).rbegin()) + 1;
        if (s.n1 == s.n2) ++s.n2;
        st.retained = c.s.chance(35);
        s.kind = c.s.pickOf({SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::BREAKER, SwitchKind::LOAD_BREAK_SWITCH});
        vl.getNodeBreakerView().newSwitch().setId(s.id).setKind(s.kind).setRetained(st.retained).setOpen(st.open).setFictitious(s.fictitious).setNode1(s.n1).setNode2(s.n2).add();
    } else {
        if (l.buses.size() < 2) return "";
        std::vector<std::string> b(l.buses.begin(), l.buses.end());
        s.b1 = c.s.pick(b);
        s.b2 = c.s.pick(b);
        if (s.b1 == s.b2) s.b2 = b[0] == s.b1 ? b[1] : b[0];
        st.retained = true;
        s.kind = SwitchKind::BREAKER;
        vl.getBusBreakerView().newSwitch().setId(s.id).setOpen(st.open).setFictitious(s.fictitious).setBus1(s.b1).setBus2(s.b2).add();
    }
    m.sws[s.id] = s;
    for (auto& v : m.variants) v.second.sw[s.id] = st;
    return "switch " + s.id + " " + (l.nb ? std::to_string(s.n1) + "-" + std::to_string(s.n2) : s.b1 + "-" + s.b2) + (st.open ? " open" : " closed") + (st.retained ? " retained" : "") + " kind " + std::to_string(static_cast<int>(s.kind)) + " in " + l.id;
}

std::string Topo::addInternal(Level& l) {
    unsigned long a = anyNode(l, false), b = anyNode(l, false);
    if (a == b) b = (m.nodes(l).empty() ? 0 : *m.nodes(l).rbegin()) + 1;
    if (a == b) ++b;
    n.getVoltageLevel(l.id).getNodeBreakerView().newInternalConnection().setNode1(a).setNode2(b).add();
    l.internals.emplace_back(a, b);
    return "internal connection " + std::to_string(a) + "-" + std::to_string(b) + " in " + l.id;
}

Topo::Spot Topo::spot(Level& l, const std::vector<Spot>& used) {
    Spot s;
    s.l = &l;
    if (l.nb) s.node = anyNode(l, true, used);
    else {
        if (l.buses.empty()) c.note(addBus(l));
        std::vector<std::string> b(l.buses.begin(), l.buses.end());
        s.bus = c.s.pick(b);
        s.connected = c.s.chance(80);
    }
    return s;
}

void Topo::registerEq(const std::string& id, const std::string& type, const std::vector<Spot>& spots) {
    Eq e;
    e.id = id;
    e.type = type;
    for (size_t i = 0; i < spots.size(); ++i) {
        Term t;
        t.eq = id;
        t.side = static_cast<unsigned>(i) + 1;
        t.vl = spots[i].l->id;
        t.nb = spots[i].l->nb;
        t.node = spots[i].node;
        TermState ts;
        ts.bus = spots[i].bus;
        ts.connected = spots[i].connected;
        for (auto& v : m.variants) v.second.term[t.key()] = ts;
        e.terms.push_back(t);
    }
    m.eqs[id] = e;
}

namespace {

template <typename A, typename S> void place(A& a, const S& s) {
    if (s.l->nb) a.setNode(s.node);
    else {
        a.setConnectableBus(s.bus);
        if (s.connected) a.setBus(s.bus);
    }
}

template <typename A, typename S> void place1(A& a, const S& s) {
    a.setVoltageLevel1(s.l->id);
    if (s.l->nb) a.setNode1(s.node);
    else {
        a.setConnectableBus1(s.bus);
        if (s.connected) a.setBus1(s.bus);
    }
}

template <typename A, typename S> void place2(A& a, const S& s) {
    a.setVoltageLevel2(s.l->id);
    if (s.l->nb) a.setNode2(s.node);
    else {
        a.setConnectableBus2(s.bus);
        if (s.connected) a.setBus2(s.bus);
    }
}

}  // namespace

std::string Topo::addEquipment(Level& l, const std::string& type) {
    if (type == "BBS" && !l.nb) return addBus(l);
    VoltageLevel& vl = n.getVoltageLevel(l.id);
    const Spot p = spot(l);
    const std::string e = id(type);
    if (type == "BBS") vl.getNodeBreakerView().newBusbarSection().setId(e).setNode(p.node).add();
    else if (type == "LOAD") { auto a = vl.newLoad(); a.setId(e).setP0(1).setQ0(1); place(a, p); a.add(); }
    else if (type == "GEN") { auto a = vl.newGenerator(); a.setId(e).setMinP(0).setMaxP(10).setTargetP(1).setTargetQ(1).setVoltageRegulatorOn(false); place(a, p); a.add(); }
    else if (type == "BAT") { auto a = vl.newBattery(); a.setId(e).setP0(1).setQ0(1).setMinP(0).setMaxP(10); place(a, p); a.add(); }
    else if (type == "SHUNT") { auto a = vl.newShuntCompensator(); a.setId(e).setSectionCount(1); a.newLinearModel().setBPerSection(1).setMaximumSectionCount(2).add(); place(a, p); a.add(); }
    else if (type == "SVC") { auto a = vl.newStaticVarCompensator(); a.setId(e).setBmin(0).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF); place(a, p); a.add(); }
    else if (type == "DL") { auto a = vl.newDanglingLine(); a.setId(e).setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0); place(a, p); a.add(); }
    else if (type == "LCC") { auto a = vl.newLccConverterStation(); a.setId(e).setLossFactor(1).setPowerFactor(0.5F); place(a, p); a.add(); }
    else { auto a = vl.newVscConverterStation(); a.setId(e).setLossFactor(1).setVoltageRegulatorOn(false).setReactivePowerSetpoint(1); place(a, p); a.add(); }
    registerEq(e, type, {p});
    return type + " " + e + " in " + l.id + " at " + (l.nb ? std::to_string(p.node) : p.bus + (p.connected ? "" : " (off)"));
}

std::string Topo::addBranch(const std::string& type) {
    Level* l1 = pickLevel();
    if (l1 == nullptr) return "";
    std::vector<Level*> near;
    for (auto& l : m.levels) if (l.second.sub == l1->sub) near.push_back(&l.second);
    std::vector<Spot> p;
    p.push_back(spot(*l1));
    const unsigned ends = type == "T3" ? 3 : 2;
    while (p.size() < ends) {
        Level* l = type == "LINE" || type == "TIE" ? pickLevel() : near[c.s.draw(near.size())];
        p.push_back(spot(*l, p));
    }
    const std::string e = id(type);
    if (type == "LINE") {
        auto a = n.newLine();
        a.setId(e).setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0);
        place1(a, p[0]); place2(a, p[1]);
        a.add();
    } else if (type == "TIE") {
        auto a = n.newTieLine();
        a.setId(e);
        place1(a, p[0]); place2(a, p[1]);
        a.setUcteXnodeCode("x");
        a.newHalfLine1().setId(e + "_1").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
        a.newHalfLine2().setId(e + "_2").setR(1).setX(1).setG1(0).setG2(0).setB1(0).setB2(0).add();
        a.add();
    } else if (type == "T2") {
        auto a = n.getSubstation(l1->sub).newTwoWindingsTransformer();
        a.setId(e).setR(1).setX(1).setG(0).setB(0).setRatedU1(1).setRatedU2(1);
        place1(a, p[0]); place2(a, p[1]);
        a.add();
    } else {
        auto a = n.getSubstation(l1->sub).newThreeWindingsTransformer();
        a.setId(e);
        auto leg1 = a.newLeg1();
        leg1.setR(1).setX(1).setG(0).setB(0).setRatedU(1).setVoltageLevel(p[0].l->id);
        place(leg1, p[0]);
        leg1.add();
        auto leg2 = a.newLeg2();
        leg2.setR(1).setX(1).setRatedU(1).setVoltageLevel(p[1].l->id);
        place(leg2, p[1]);
        leg2.add();
        auto leg3 = a.newLeg3();
        leg3.setR(1).setX(1).setRatedU(1).setVoltageLevel(p[2].l->id);
        place(leg3, p[2]);
        leg3.add();
        a.add();
    }
    registerEq(e, type, p);
    std::string d = type + " " + e;
    for (const auto& x : p) d += " " + x.l->id + ":" + (x.l->nb ? std::to_string(x.node) : x.bus + (x.connected ? "" : " (off)"));
    return d;
}

std::string Topo::addHvdc() {
    std::set<std::string> used;
    for (const auto& h : m.hvdcs) { used.insert(h.second.s1); used.insert(h.second.s2); }
    std::vector<std::string> free;
    for (const auto& e : m.eqs) if (e.second.station() && !used.count(e.first)) free.push_back(e.first);
    if (free.size() < 2) return "";
    Hvdc h;
    const size_t i = c.s.draw(free.size());
    size_t j = c.s.draw(free.size() - 1);
    if (j >= i) ++j;
    h.id = id("HVDC");
    h.s1 = free[i];
    h.s2 = free[j];
    n.newHvdcLine().setId(h.id).setR(1).setNominalV(400).setMaxP(10).setActivePowerSetpoint(1).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1(h.s1).setConverterStationId2(h.s2).add();
    m.hvdcs[h.id] = h;
    return "hvdc line " + h.id + " " + h.s1 + "-" + h.s2;
}

std::string Topo::removeEquipment() {
    std::set<std::string> used;
    for (const auto& h : m.hvdcs) { used.insert(h.second.s1); used.insert(h.second.s2); }
    std::vector<std::string> v;
    for (const auto& e : m.eqs) if (!used.count(e.first)) v.push_back(e.first);
    if (v.empty()) return "";
    const std::string e = c.s.pick(v);
    n.get<Connectable>(e).remove();
    for (const auto& t : m.eqs.at(e).terms) for (auto& x : m.variants) x.second.term.erase(t.key());
    m.eqs.erase(e);
    return "remove " + e;
}

std::string Topo::removeSwitch() {
    if (m.sws.empty()) return "";
    auto it = m.sws.begin();
    std::advance(it, static_cast<long>(c.s.draw(m.sws.size())));
    const Sw s = it->second;
    VoltageLevel& vl = n.getVoltageLevel(s.vl);
    if (m.levels.at(s.vl).nb) vl.getNodeBreakerView().removeSwitch(s.id); else vl.getBusBreakerView().removeSwitch(s.id);
    m.sws.erase(s.id);
    for (auto& x : m.variants) x.second.sw.erase(s.id);
    return "remove switch " + s.id;
}

std::string Topo::removeAllSwitches() {
    Level* l = pickLevel(2);
    if (l == nullptr) return "";
    n.getVoltageLevel(l->id).getBusBreakerView().removeAllSwitches();
    for (auto it = m.sws.begin(); it != m.sws.end();) {
        if (it->second.vl == l->id) {
            for (auto& x : m.variants) x.second.sw.erase(it->first);
            it = m.sws.erase(it);
        } else ++it;
    }
    return "remove all switches of " + l->id;
}

std::string Topo::removeInternals() {
    std::vector<Level*> v;
    for (auto& l : m.levels) if (!l.second.internals.empty()) v.push_back(&l.second);
    if (v.empty()) return "";
    Level& l = *v[c.s.draw(v.size())];
    auto i = l.internals[c.s.draw(l.internals.size())];
    if (c.s.chance(50)) std::swap(i.first, i.second);
    n.getVoltageLevel(l.id).getNodeBreakerView().removeInternalConnections(i.first, i.second);
    std::vector<std::pair<unsigned long, unsigned long>> keep;
    for (const auto& x : l.internals) if (!((x.first == i.first && x.second == i.second) || (x.first == i.second && x.second == i.first))) keep.push_back(x);
    l.internals = keep;
    return "remove internal connections " + std::to_string(i.first) + "-" + std::to_string(i.second) + " of " + l.id;
}

std::string Topo::removeBus() {
    Level* l = pickLevel(2);
    if (l == nullptr || l->buses.empty()) return "";
    std::vector<std::string> b(l->buses.begin(), l->buses.end());
    const std::string bus = c.s.pick(b);
    bool used = false;
    for (const auto* t : m.termsOf(l->id)) for (const auto& v : m.variants) used = used || v.second.term.at(t->key()).bus == bus;
    for (const auto& s : m.sws) used = used || (s.second.vl == l->id && (s.second.b1 == bus || s.second.b2 == bus));
    bool refused = false;
    try {
        n.getVoltageLevel(l->id).getBusBreakerView().removeBus(bus);
    } catch (const PowsyblException&) {
        refused = true;
    }
    c.checkEq(refused, used, "remove-bus", "removal of bus " + bus + " refused");
    if (refused) return "remove bus " + bus + " refused";
    l->buses.erase(bus);
    for (auto& v : m.variants) v.second.bus.erase(bus);
    return "remove bus " + bus;
}

std::string Topo::removeHvdc() {
    if (m.hvdcs.empty()) return "";
    auto it = m.hvdcs.begin();
    std::advance(it, static_cast<long>(c.s.draw(m.hvdcs.size())));
    const std::string h = it->first;
    n.getHvdcLine(h).remove();
    m.hvdcs.erase(h);
    return "remove " + h;
}

std::string Topo::removeLevel() {
    if (m.levels.size() < 2) return "";
    Level* l = pickLevel();
    // no branch to anything, no station of an hvdc line
    std::set<std::string> used;
    for (const auto& h : m.hvdcs) { used.insert(h.second.s1); used.insert(h.second.s2); }
    std::set<std::string> gone;
    for (const auto* t : m.termsOf(l->id)) {
        if (m.eqs.at(t->eq).terms.size() > 1 || used.count(t->eq)) return "";
        gone.insert(t->eq);
    }
    const std::string idl = l->id;
    n.getVoltageLevel(idl).remove();
    for (const auto& e : gone) {
        for (const auto& t : m.eqs.at(e).terms) for (auto& x : m.variants) x.second.term.erase(t.key());
        m.eqs.erase(e);
    }
    for (auto it = m.sws.begin(); it != m.sws.end();) {
        if (it->second.vl == idl) {
            for (auto& x : m.variants) x.second.sw.erase(it->first);
            it = m.sws.erase(it);
        } else ++it;
    }
    for (const auto& b : l->buses) for (auto& x : m.variants) x.second.bus.erase(b);
    m.levels.erase(idl);
    return "remove level " + idl;
}

std::string Topo::operate() {
    if (m.sws.empty()) return "";
    auto it = m.sws.begin();
    std::advance(it, static_cast<long>(c.s.draw(m.sws.size())));
    const bool open = c.s.chance(75) ? !m.now().sw.at(it->first).open : c.s.chance(50);
    n.getSwitch(it->first).setOpen(open);
    m.now().sw.at(it->first).open = open;
    return (open ? "open " : "close ") + it->first;
}

std::string Topo::retain() {
    std::vector<std::string> v;
    for (const auto& s : m.sws) if (m.levels.at(s.second.vl).nb) v.push_back(s.first);
    if (v.empty()) return "";
    const std::string s = c.s.pick(v);
    const bool r = !m.now().sw.at(s).retained;
    n.getSwitch(s).setRetained(r);
    m.now().sw.at(s).retained = r;
    return (r ? "retain " : "do not retain ") + s;
}

std::string Topo::moveTerminal() {
    const Term* t = pickTerm(2);
    if (t == nullptr) return "";
    const Level& l = m.levels.at(t->vl);
    std::vector<std::string> b(l.buses.begin(), l.buses.end());
    const std::string bus = c.s.pick(b);
    terminal(*t).getBusBreakerView().setConnectableBus(bus);
    m.now().term.at(t->key()).bus = bus;
    return "connectable bus of " + t->key() + " = " + bus;
}

std::string Topo::connectBus() {
    const Term* t = pickTerm(2);
    if (t == nullptr) return "";
    TermState& ts = m.now().term.at(t->key());
    const bool on = c.s.chance(75) ? !ts.connected : c.s.chance(50);
    const bool r = on ? terminal(*t).connect() : terminal(*t).disconnect();
    c.checkEq(r, on != ts.connected, "connect-result", (on ? "connect " : "disconnect ") + t->key());
    ts.connected = on;
    return (on ? "connect " : "disconnect ") + t->key();
}

std::string Topo::requestNode(const Term& t, bool on, bool& result) {
    const Level& l = m.levels.at(t.vl);
    VState& now = m.now();
    const std::string what = (on ? "connect " : "disconnect ") + t.key() + " at " + std::to_string(t.node);
    bool connected = false;
    for (const auto& g : m.nodeGroups(l, now, false)) connected = connected || g.terms.count(t.key()) > 0;
    const auto paths = m.pathsToBusbars(l, now, t.node);
    // sets of switches that the request may change
    std::set<std::set<std::string>> allowed;
    if (connected != on) {
        if (on) {
            size_t shortest = ~size_t(0);
            for (const auto& p : paths) shortest = std::min(shortest, p.size());
            for (const auto& p : paths) {
                if (p.size() != shortest) continue;
                std::set<std::string> close;
                for (const auto& s : p) if (!s.empty() && now.sw.at(s).open) close.insert(s);
                allowed.insert(close);
            }
        } else if (!paths.empty()) {
            std::set<std::string> open;
            bool all = true;
            for (const auto& p : paths) {
                bool found = false;
                for (const auto& s : p) {
                    if (s.empty() || m.sws.at(s).kind != SwitchKind::BREAKER) continue;
                    found = true;
                    if (!now.sw.at(s).open) open.insert(s);
                    break;
                }
                all = all && found;
            }
            if (all) allowed.insert(open);
        }
    }
    result = on ? terminal(t).connect() : terminal(t).disconnect();
    std::set<std::string> changed;
    for (const auto& s : m.sws) if (n.getSwitch(s.first).isOpen() != now.sw.at(s.first).open) changed.insert(s.first);
    std::string list;
    for (const auto& x : changed) list += " " + x;
    const std::string outcome = what + (result ? ": succeeds" : ": fails") + ", switches" + list;
    for (const auto& x : changed) {
        c.checkEq(m.sws.at(x).vl, l.id, "request-other-level", outcome);
        c.check(m.sws.at(x).kind == SwitchKind::BREAKER, "request-not-a-breaker", outcome);
        c.checkEq(now.sw.at(x).open, on, "request-direction", outcome);
    }
    if (!result) {
        c.check(changed.empty(), "request-failed-with-effect", outcome);
        // a connection is possible when a shortest path has a breaker to close, a disconnection when every path has one
        bool possible = false;
        for (const auto& a : allowed) possible = possible || !on || !a.empty();
        bool certain = possible;
        if (on) for (const auto& a : allowed) certain = certain && !a.empty();
        c.check(!certain, "request-refused", outcome);
    } else {
        c.check(allowed.count(changed) > 0, "request-switches", outcome);
        if (on) c.check(!changed.empty(), "request-nothing-done", outcome);
    }
    for (const auto& x : changed) now.sw.at(x).open = !on;
    if (result) c.checkEq(m.joinedToBusbar(l, now, t.node), on, "request-result", outcome + ": joined to a busbar section");
    return outcome;
}

std::string Topo::addBay(Level& l) {
    std::vector<unsigned long> bars;
    for (const auto* t : m.termsOf(l.id)) if (m.eqs.at(t->eq).bbs()) bars.push_back(t->node);
    std::string d = addEquipment(l, c.s.pick(std::vector<std::string>{"LOAD", "GEN", "DL", "VSC"}));
    const unsigned long start = m.termsOf(l.id).empty() ? 0 : m.eqs.at("" + d.substr(d.find(' ') + 1, d.find(" in ") - d.find(' ') - 1)).terms[0].node;
    const std::set<unsigned long> all = m.nodes(l);
    const unsigned long mid = *all.rbegin() + 1;
    auto sw = [&](unsigned long a, unsigned long b, SwitchKind kind, bool open) {
        Sw s;
        s.id = id("SW");
        s.vl = l.id;
        s.n1 = a;
        s.n2 = b;
        s.kind = kind;
        SwState st;
        st.open = open;
        st.retained = kind == SwitchKind::BREAKER;
        n.getVoltageLevel(l.id).getNodeBreakerView().newSwitch().setId(s.id).setKind(kind).setRetained(st.retained).setOpen(open).setNode1(a).setNode2(b).add();
        m.sws[s.id] = s;
        for (auto& v : m.variants) v.second.sw[s.id] = st;
        d += "; " + s.id + " " + std::to_string(a) + "-" + std::to_string(b) + (open ? " open" : " closed") + " kind " + std::to_string(static_cast<int>(kind));
    };
    sw(start, mid, SwitchKind::BREAKER, c.s.chance(40));
    for (unsigned long b : bars) if (c.s.chance(70)) sw(mid, b, c.s.pickOf({SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH, SwitchKind::DISCONNECTOR}), c.s.chance(40));
    return "bay " + d;
}

std::string Topo::variantOp() {
    auto& vm = n.getVariantManager();
    std::vector<std::string> ids;
    for (const auto& v : m.variants) ids.push_back(v.first);
    switch (c.s.weighted({40, 40, 20})) {
        case 0: {
            const std::string src = c.s.pick(ids), dst = "v" + std::to_string(c.s.draw(4));
            if (src == dst) return "";
            vm.cloneVariant(src, dst, m.variants.count(dst) > 0);
            m.variants[dst] = VState(m.variants.at(src));
            return "clone " + src + " to " + dst;
        }
        case 1: {
            m.working = c.s.pick(ids);
            vm.setWorkingVariant(m.working);
            return "work on " + m.working;
        }
        default: {
            const std::string v = c.s.pick(ids);
            if (v == VariantManager::getInitialVariantId()) return "";
            vm.removeVariant(v);
            m.variants.erase(v);
            if (m.working == v) {
                m.working = VariantManager::getInitialVariantId();
                vm.setWorkingVariant(m.working);
            }
            return "remove variant " + v;
        }
    }
}

std::string Topo::setVoltage() {
    Level* l = pickLevel();
    if (l == nullptr) return "";
    const double v = 1 + static_cast<double>(c.s.draw(1000)), a = static_cast<double>(c.s.range(-90, 90));
    VoltageLevel& vl = n.getVoltageLevel(l->id);
    VState& now = m.now();
    if (l->nb) {
        const bool bb = c.s.chance(50);
        const auto groups = m.nodeGroups(*l, now, bb);
        std::vector<Group> g;
        for (const auto& x : groups) if (!x.terms.empty()) g.push_back(x);
        if (g.empty()) return "";
        const Group& x = g[c.s.draw(g.size())];
        const auto b = bb ? vl.getBusBreakerView().getBus(x.id) : vl.getBusView().getBus(x.id);
        c.check(static_cast<bool>(b), "bus-missing", x.id);
        b.get().setV(v).setAngle(a);
        for (const auto& t : x.terms) { now.term.at(t).v = v; now.term.at(t).angle = a; }
        return "voltage of " + x.id;
    }
    if (l->buses.empty()) return "";
    if (c.s.chance(50)) {
        std::vector<std::string> ids(l->buses.begin(), l->buses.end());
        const std::string b = c.s.pick(ids);
        vl.getBusBreakerView().getBus(b).get().setV(v).setAngle(a);
        now.bus.at(b).v = v;
        now.bus.at(b).angle = a;
        return "voltage of " + b;
    }
    const auto g = m.busGroups(*l, now);
    if (g.empty()) return "";
    const Group& x = g[c.s.draw(g.size())];
    const auto b = vl.getBusView().getMergedBus(*x.buses.begin());
    c.check(static_cast<bool>(b), "bus-missing", "merged bus of " + *x.buses.begin());
    b.get().setV(v).setAngle(a);
    for (const auto& i : x.buses) { now.bus.at(i).v = v; now.bus.at(i).angle = a; }
    return "voltage of the merged bus of " + *x.buses.begin();
}

void Topo::build(unsigned size) {
    for (unsigned i = 1 + static_cast<unsigned>(c.s.draw(lim.substations)); i > 0; --i) c.note(addSubstation());
    for (unsigned i = 1 + static_cast<unsigned>(c.s.draw(lim.levels)); i > 0; --i) c.note(addLevel());
    for (auto& l : m.levels) {
        if (!l.second.nb) for (unsigned i = 1 + static_cast<unsigned>(c.s.draw(3)); i > 0; --i) c.note(addBus(l.second));
    }
    for (unsigned i = static_cast<unsigned>(c.s.draw(size + 1)); i > 0; --i) {
        std::string d;
        Level* l = pickLevel();
        switch (c.s.weighted({30, lim.busbars, 20, 6, lim.branches ? 18U : 0U, lim.hvdc})) {
            case 0: d = addSwitch(*l); break;
            case 1: d = addEquipment(*l, "BBS"); break;
            case 2: d = addEquipment(*l, c.s.pick(std::vector<std::string>{"LOAD", "GEN", "DL", "LCC", "VSC", "SHUNT", "SVC", "BAT"})); break;
            case 3: d = l->nb ? addInternal(*l) : addSwitch(*l); break;
            case 4: d = addBranch(c.s.pickOf({"LINE", "T2", "TIE", "T3"})); break;
            default: d = addHvdc(); break;
        }
        if (!d.empty()) c.note(d);
    }
}

std::string Topo::step() {
    Level* l = pickLevel();
    const unsigned rm = lim.removals ? 1 : 0;
    switch (c.s.weighted({12, 4, 8, 4, lim.branches ? 7U : 0U, lim.hvdc, 8 * rm, 6 * rm, 1 * rm, 4 * rm, 4 * rm, 2 * rm, 2 * rm, 22, 6, 6, lim.connects ? 8U : 0U, lim.variants ? 12U : 0U, lim.voltages ? 6U : 0U, 2, 3})) {
        case 0: return l == nullptr ? "" : addSwitch(*l);
        case 1: return l == nullptr ? "" : addEquipment(*l, "BBS");
        case 2: return l == nullptr ? "" : addEquipment(*l, c.s.pick(std::vector<std::string>{"LOAD", "GEN", "DL", "LCC", "VSC", "SHUNT", "SVC", "BAT"}));
        case 3: return l == nullptr ? "" : l->nb ? addInternal(*l) : addSwitch(*l);
        case 4: return addBranch(c.s.pickOf({"LINE", "T2", "TIE", "T3"}));
        case 5: return addHvdc();
        case 6: return removeEquipment();
        case 7: return removeSwitch();
        case 8: return removeAllSwitches();
        case 9: return removeInternals();
        case 10: return removeBus();
        case 11: return removeHvdc();
        case 12: return removeLevel();
        case 13: return operate();
        case 14: return retain();
        case 15: return moveTerminal();
        case 16: return connectBus();
        case 17: return variantOp();
        case 18: return setVoltage();
        case 19: return addLevel();
        default: { l = pickLevel(2); return l == nullptr ? "" : addBus(*l); }
    }
}

namespace {

std::string join(const std::set<std::string>& s) {
    std::string r;
    for (const auto& x : s) r += (r.empty() ? "" : " ") + x;
    return "{" + r + "}";
}

template <typename R> std::set<std::string> ids(Case& c, const R& r, const std::string& what) {
    std::set<std::string> s;
    for (const auto& x : r) c.check(s.insert(x.getId()).second, "listed-twice", what + ": " + x.getId());
    return s;
}

unsigned sideIn(const Connectable& eq, const Terminal& t) {
    unsigned i = 0;
    for (const auto& x : eq.getTerminals()) {
        ++i;
        if (&x.get() == &t) return i;
    }
    return 0;
}

std::string keyOf(const Terminal& t) { return t.getConnectable().get().getId() + "#" + std::to_string(sideIn(t.getConnectable().get(), t)); }

// collects what a visitor is shown
class Collector : public TopologyVisitor {
public:
    std::multiset<std::string> seen;
    void visitBattery(const Battery& x) override { seen.insert(x.getId()); }
    void visitBusbarSection(const BusbarSection& x) override { seen.insert(x.getId()); }
    void visitDanglingLine(const DanglingLine& x) override { seen.insert(x.getId()); }
    void visitGenerator(const Generator& x) override { seen.insert(x.getId()); }
    void visitHvdcConverterStation(const HvdcConverterStation& x) override { seen.insert(x.getId()); }
    void visitLine(const Line& x, const Branch::Side& s) override { seen.insert(x.getId() + "#" + (s == Branch::Side::ONE ? "1" : "2")); }
    void visitLoad(const Load& x) override { seen.insert(x.getId()); }
    void visitShuntCompensator(const ShuntCompensator& x) override { seen.insert(x.getId()); }
    void visitStaticVarCompensator(const StaticVarCompensator& x) override { seen.insert(x.getId()); }
    void visitThreeWindingsTransformer(const ThreeWindingsTransformer& x, const ThreeWindingsTransformer::Side& s) override { seen.insert(x.getId() + "#" + std::to_string(static_cast<int>(s) + 1)); }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer& x, const Branch::Side& s) override { seen.insert(x.getId() + "#" + (s == Branch::Side::ONE ? "1" : "2")); }
};

std::string joinAll(const std::multiset<std::string>& s) {
    std::string r;
    for (const auto& x : s) r += (r.empty() ? "" : " ") + x;
    return "{" + r + "}";
}

std::string side(const Model& m, const std::string& key) {
    // visitors are told the side of branches only
    const std::string eq = key.substr(0, key.find('#'));
    return m.eqs.at(eq).terms.size() > 1 ? key : eq;
}

}  // namespace

void Topo::verifyBusContent(Bus& b, const Group& g, const Level& l, const std::string& what) {
    std::set<std::string> terms;
    for (const auto& t : b.getConnectedTerminals()) c.check(terms.insert(keyOf(t)).second, "terminal-listed-twice", what);
    c.checkEq(join(terms), join(g.terms), "bus-terminals", what + " connected terminals");
    c.checkEq(b.getConnectedTerminalCount(), static_cast<unsigned long>(g.terms.size()), "bus-terminal-count", what);
    c.checkEq(b.getVoltageLevel().getId(), l.id, "bus-level", what);
    // by type
    std::map<std::string, std::set<std::string>> byType;
    for (const auto& k : g.terms) byType[m.eqs.at(k.substr(0, k.find('#'))).type].insert(k.substr(0, k.find('#')));
    auto list = [&](const std::string& type, std::set<std::string> real) { c.checkEq(join(real), join(byType[type]), "bus-" + type, what); };
    auto asSet = [](const std::multiset<std::string>& s) { return std::set<std::string>(s.begin(), s.end()); };
    auto all = [&](std::multiset<std::string> s) { return asSet(s); };
    std::multiset<std::string> x;
    for (const auto& e : b.getLoads()) x.insert(e.getId());
    list("LOAD", all(x)); x.clear();
    for (const auto& e : b.getGenerators()) x.insert(e.getId());
    list("GEN", all(x)); x.clear();
    for (const auto& e : b.getBatteries()) x.insert(e.getId());
    list("BAT", all(x)); x.clear();
    for (const auto& e : b.getShuntCompensators()) x.insert(e.getId());
    list("SHUNT", all(x)); x.clear();
    for (const auto& e : b.getStaticVarCompensators()) x.insert(e.getId());
    list("SVC", all(x)); x.clear();
    for (const auto& e : b.getDanglingLines()) x.insert(e.getId());
    list("DL", all(x)); x.clear();
    for (const auto& e : b.getLccConverterStations()) x.insert(e.getId());
    list("LCC", all(x)); x.clear();
    for (const auto& e : b.getVscConverterStations()) x.insert(e.getId());
    list("VSC", all(x)); x.clear();
    for (const auto& e : b.getTwoWindingsTransformers()) x.insert(e.getId());
    list("T2", all(x)); x.clear();
    for (const auto& e : b.getThreeWindingsTransformers()) x.insert(e.getId());
    list("T3", all(x)); x.clear();
    for (const auto& e : b.getLines()) x.insert(e.getId());
    std::set<std::string> lines = byType["LINE"];
    lines.insert(byType["TIE"].begin(), byType["TIE"].end());
    c.checkEq(join(asSet(x)), join(lines), "bus-LINE", what);
    Collector seen;
    b.visitConnectedEquipments(seen);
    std::multiset<std::string> expected;
    for (const auto& k : g.terms) expected.insert(side(m, k));
    c.checkEq(joinAll(seen.seen), joinAll(expected), "bus-visit", what + " visited equipment");
}

// a reference to a bus by the equipment connected to it gives the bus of its terminal
void Topo::checkBusRef(const Term& t, TopologyLevel level, const std::string& want, const std::string& what) {
    const std::string& type = m.eqs.at(t.eq).type;
    const bool injection = m.eqs.at(t.eq).terms.size() == 1;
    const auto side = t.side == 1 ? iidm::Branch::Side::ONE : iidm::Branch::Side::TWO;
    iidm::IdBasedBusRef without(t.eq), with(t.eq, side), missing("missing"), missing2("missing", side);
    const auto refused = [&](iidm::IdBasedBusRef& ref, TopologyLevel l) {
        try { ref.resolve(n, l); } catch (const PowsyblException&) { return true; }
        return false;
    };
    const bool branch = type == "LINE" || type == "TIE" || type == "T2";
    if (injection) {
        const auto b = without.resolve(n, level);
        c.checkEq(b ? b.get().getId() : "none", want, "bus-reference", what);
    } else c.check(refused(without, level), "bus-reference-refused", what + " without side");
    if (branch) {
        const auto b = with.resolve(n, level);
        c.checkEq(b ? b.get().getId() : "none", want, "bus-reference", what + " side");
    } else c.check(refused(with, level), "bus-reference-refused", what + " with side");
    c.check(!missing.resolve(n, level) && !missing2.resolve(n, level), "bus-reference", "missing object");
    c.check(refused(without, TopologyLevel::NODE_BREAKER) && refused(with, TopologyLevel::NODE_BREAKER), "bus-reference-refused", "node level");
}

void Topo::verifyNodeLevel(const Level& l, const std::string& context) {
    VoltageLevel& vl = n.getVoltageLevel(l.id);
    auto& nbv = vl.getNodeBreakerView();
    const std::string where = context + ": " + l.id;
    const VState& now = m.now();
    // node/breaker view
    std::map<unsigned long, const Term*> at;
    for (const auto* t : m.termsOf(l.id)) at[t->node] = t;
    const std::set<unsigned long> nodes = m.nodes(l);
    std::set<std::string> expected, actual;
    for (unsigned long x : nodes) expected.insert(std::to_string(x));
    for (unsigned long x : nbv.getNodes()) c.check(actual.insert(std::to_string(x)).second, "node-listed-twice", where);
    c.checkEq(join(actual), join(expected), "nodes", where);
    c.checkEq(nbv.getMaximumNodeIndex(), nodes.empty() ? -1L : static_cast<long>(*nodes.rbegin()), "max-node", where);
    for (unsigned long x : nodes) {
        const auto t = nbv.getOptionalTerminal(x);
        c.checkEq(t ? keyOf(t.get()) : "none", at.count(x) ? at.at(x)->key() : "none", "terminal-of-node", where + " node " + std::to_string(x));
        const auto t2 = nbv.getTerminal(x);
        c.checkEq(t2 ? keyOf(t2.get()) : "none", at.count(x) ? at.at(x)->key() : "none", "terminal-of-node", where + " node " + std::to_string(x));
    }
    c.check(!nbv.getOptionalTerminal(nodes.empty() ? 0 : *nodes.rbegin() + 1), "terminal-of-missing-node", where);
    expected.clear();
    std::set<std::string> retained;
    for (const auto& s : m.sws) {
        if (s.second.vl != l.id) continue;
        expected.insert(s.first);
        const SwState& st = now.sw.at(s.first);
        if (st.retained) retained.insert(s.first);
        c.checkEq(nbv.getNode1(s.first), s.second.n1, "switch-node1", where + " " + s.first);
        c.checkEq(nbv.getNode2(s.first), s.second.n2, "switch-node2", where + " " + s.first);
        const Switch& sw = nbv.getSwitch(s.first);
        c.checkEq(sw.isOpen(), st.open, "switch-open", where + " " + s.first);
        c.checkEq(sw.isRetained(), st.retained, "switch-retained", where + " " + s.first);
        const auto t1 = nbv.getTerminal1(s.first);
        c.checkEq(t1 ? keyOf(t1.get()) : "none", at.count(s.second.n1) ? at.at(s.second.n1)->key() : "none", "switch-terminal1", where + " " + s.first);
        const auto t2 = nbv.getTerminal2(s.first);
        c.checkEq(t2 ? keyOf(t2.get()) : "none", at.count(s.second.n2) ? at.at(s.second.n2)->key() : "none", "switch-terminal2", where + " " + s.first);
    }
    c.checkEq(join(ids(c, nbv.getSwitches(), where)), join(expected), "node-switches", where);
    c.checkEq(nbv.getSwitchCount(), static_cast<unsigned long>(expected.size()), "node-switch-count", where);
    std::multiset<std::string> ie, ia;
    for (const auto& i : l.internals) ie.insert(std::to_string(i.first) + "-" + std::to_string(i.second));
    for (const auto& i : nbv.getInternalConnections()) ia.insert(std::to_string(i.getNode1()) + "-" + std::to_string(i.getNode2()));
    c.checkEq(joinAll(ia), joinAll(ie), "internal-connections", where);
    c.checkEq(nbv.getInternalConnectionCount(), static_cast<unsigned long>(ie.size()), "internal-connection-count", where);
    std::set<std::string> bbs;
    for (const auto* t : m.termsOf(l.id)) if (m.eqs.at(t->eq).bbs()) bbs.insert(t->eq);
    c.checkEq(join(ids(c, nbv.getBusbarSections(), where)), join(bbs), "busbar-sections", where);
    c.checkEq(nbv.getBusbarSectionCount(), static_cast<unsigned long>(bbs.size()), "busbar-section-count", where);

    // calculated buses
    for (const bool bb : {false, true}) {
        const std::vector<Group> groups = m.nodeGroups(l, now, bb);
        const std::string view = where + (bb ? " bus/breaker view" : " bus view");
        std::map<std::string, const Group*> byId;
        std::map<std::string, std::string> busOf;
        std::map<unsigned long, std::string> busOfNode;
        expected.clear();
        for (const auto& g : groups) {
            byId[g.id] = &g;
            expected.insert(g.id);
            for (const auto& t : g.terms) busOf[t] = g.id;
            for (unsigned long x : g.nodes) busOfNode[x] = g.id;
        }
        std::set<std::string> real;
        auto visit = [&](Bus& b) {
            c.check(real.insert(b.getId()).second, "bus-listed-twice", view + " " + b.getId());
            auto it = byId.find(b.getId());
            c.check(it != byId.end(), "bus-unexpected", view + " has bus " + b.getId() + ", expected " + join(expected));
            verifyBusContent(b, *it->second, l, view + " bus " + b.getId());
            c.checkEq(b.getOptionalName(), l.name.empty() ? "" : l.name + "_" + std::to_string(*it->second->nodes.begin()), "bus-name", view + " " + b.getId());
            c.checkEq(b.isFictitious(), l.fictitious, "bus-fictitious", view + " " + b.getId());
            // voltages: those of its equipment when they agree
            std::set<std::string> vs, as;
            for (const auto& t : it->second->terms) { vs.insert(pbt::hex(now.term.at(t).v)); as.insert(pbt::hex(now.term.at(t).angle)); }
            if (!vs.empty()) {
                c.check(vs.count(pbt::hex(b.getV())) > 0, "bus-v", view + " " + b.getId() + " v=" + pbt::hex(b.getV()) + " terminals " + join(vs));
                c.check(as.count(pbt::hex(b.getAngle())) > 0, "bus-angle", view + " " + b.getId());
            }
        };
        if (bb) for (auto& b : vl.getBusBreakerView().getBuses()) visit(b); else for (auto& b : vl.getBusView().getBuses()) visit(b);
        c.checkEq(join(real), join(expected), "buses", view);
        for (const auto& i : expected) {
            const auto b = bb ? vl.getBusBreakerView().getBus(i) : vl.getBusView().getBus(i);
            c.check(b && b.get().getId() == i, "bus-by-id", view + " " + i);
        }
        const auto none = bb ? vl.getBusBreakerView().getBus("missing") : vl.getBusView().getBus("missing");
        c.check(!none, "bus-by-missing-id", view);
        if (!bb && ++m_verified % 4 == 0) {
            // the utilities on nodes
            std::map<std::string, std::set<unsigned long>> nodesOf;
            for (const auto& e : busOfNode) nodesOf[e.second].insert(e.first);
            const auto byBus = iidm::Networks::getNodesByBus(vl);
            auto text = [](const std::map<std::string, std::set<unsigned long>>& x) {
                std::string r;
                for (const auto& e : x) { r += e.first + ":"; for (unsigned long k : e.second) r += " " + std::to_string(k); r += "; "; }
                return r;
            };
            c.checkEq(text(byBus), text(nodesOf), "nodes-by-bus", view);
            Sets<unsigned long> closed;
            for (const auto& s : m.sws) if (s.second.vl == l.id && !now.sw.at(s.first).open) closed.join(s.second.n1, s.second.n2);
            for (const auto& i : l.internals) closed.join(i.first, i.second);
            for (unsigned long x : nodes) closed.add(x);
            for (unsigned long x : nodes) {
                std::set<std::string> possible;
                for (const auto& e : at) if (e.first != x && closed.label.at(e.first) == closed.label.at(x)) possible.insert(e.second->key());
                const auto t = iidm::Networks::getEquivalentTerminal(vl, x);
                if (!t) c.check(possible.empty(), "equivalent-terminal", view + " node " + std::to_string(x) + " has no equivalent terminal, expected one of " + join(possible));
                else c.check(possible.count(keyOf(t.get())) > 0, "equivalent-terminal", view + " node " + std::to_string(x) + " equivalent terminal " + keyOf(t.get()) + ", expected one of " + join(possible));
            }
        }
        // terminals
        Sets<unsigned long> reach;
        for (const auto& s : m.sws) if (s.second.vl == l.id) reach.join(s.second.n1, s.second.n2);
        for (const auto& i : l.internals) reach.join(i.first, i.second);
        for (const auto* t : m.termsOf(l.id)) {
            Terminal& term = terminal(*t);
            c.checkEq(term.getNodeBreakerView().getNode(), t->node, "terminal-node", view + " " + t->key());
            const auto b = bb ? term.getBusBreakerView().getBus() : term.getBusView().getBus();
            const std::string want = busOf.count(t->key()) ? busOf.at(t->key()) : "none";
            c.checkEq(b ? b.get().getId() : "none", want, "terminal-bus", view + " " + t->key());
            if (!bb) c.checkEq(term.isConnected(), want != "none", "terminal-connected", view + " " + t->key());
            checkBusRef(*t, bb ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH, want, view + " " + t->key());
            const auto cb = bb ? term.getBusBreakerView().getConnectableBus() : term.getBusView().getConnectableBus();
            const std::string conn = cb ? cb.get().getId() : "none";
            if (want != "none") c.checkEq(conn, want, "terminal-connectable-bus", view + " " + t->key());
            else {
                // a bus that can be reached through switches when there is one, any bus otherwise
                std::set<std::string> reachable;
                reach.add(t->node);
                for (const auto& e : busOfNode) if (reach.label.count(e.first) && reach.label.at(e.first) == reach.label.at(t->node)) reachable.insert(e.second);
                if (!reachable.empty()) c.check(reachable.count(conn) > 0, "terminal-connectable-bus", view + " " + t->key() + " connectable bus " + conn + ", reachable " + join(reachable));
                else if (!expected.empty()) c.check(expected.count(conn) > 0, "terminal-connectable-bus", view + " " + t->key() + " connectable bus " + conn);
                else c.checkEq(conn, std::string("none"), "terminal-connectable-bus", view + " " + t->key());
            }
            if (!bb && m.eqs.at(t->eq).bbs()) {
                const auto mb = vl.getBusView().getMergedBus(t->eq);
                c.checkEq(mb ? mb.get().getId() : "none", want, "merged-bus", view + " " + t->key());
            }
        }
        if (bb) {
            c.checkEq(join(ids(c, vl.getBusBreakerView().getSwitches(), view)), join(retained), "retained-switches", view);
            c.checkEq(vl.getBusBreakerView().getSwitchCount(), static_cast<unsigned long>(retained.size()), "retained-switch-count", view);
            for (const auto& s : retained) {
                const Sw& sw = m.sws.at(s);
                c.checkEq(vl.getBusBreakerView().getBus1(s).get().getId(), busOfNode.at(sw.n1), "switch-bus1", view + " " + s);
                c.checkEq(vl.getBusBreakerView().getBus2(s).get().getId(), busOfNode.at(sw.n2), "switch-bus2", view + " " + s);
                c.checkEq(vl.getBusBreakerView().getSwitch(s).get().getId(), s, "switch-by-id", view);
            }
        }
    }
}

void Topo::verifyBusLevel(const Level& l, const std::string& context) {
    VoltageLevel& vl = n.getVoltageLevel(l.id);
    auto& bbv = vl.getBusBreakerView();
    const std::string where = context + ": " + l.id;
    const VState& now = m.now();
    // configured buses
    c.checkEq(join(ids(c, bbv.getBuses(), where)), join(l.buses), "configured-buses", where);
    std::map<std::string, Group> conf, connectable;
    for (const auto& b : l.buses) { conf[b].buses.insert(b); connectable[b]; }
    for (const auto* t : m.termsOf(l.id)) {
        const TermState& ts = now.term.at(t->key());
        if (ts.connected) conf[ts.bus].terms.insert(t->key());
        connectable[ts.bus].terms.insert(t->key());
    }
    for (const auto& b : l.buses) {
        const auto bus = bbv.getBus(b);
        c.check(bus && bus.get().getId() == b, "bus-by-id", where + " " + b);
        verifyBusContent(bus.get(), conf.at(b), l, where + " bus " + b);
        c.checkEq(pbt::hex(bus.get().getV()), pbt::hex(now.bus.at(b).v), "bus-v", where + " " + b);
        c.checkEq(pbt::hex(bus.get().getAngle()), pbt::hex(now.bus.at(b).angle), "bus-angle", where + " " + b);
        Collector seen;
        bus.get().visitConnectedOrConnectableEquipments(seen);
        std::multiset<std::string> expected;
        for (const auto& k : connectable.at(b).terms) expected.insert(side(m, k));
        c.checkEq(joinAll(seen.seen), joinAll(expected), "connectable-visit", where + " bus " + b);
    }
    std::set<std::string> sws;
    for (const auto& s : m.sws) {
        if (s.second.vl != l.id) continue;
        sws.insert(s.first);
        c.checkEq(bbv.getBus1(s.first).get().getId(), s.second.b1, "switch-bus1", where + " " + s.first);
        c.checkEq(bbv.getBus2(s.first).get().getId(), s.second.b2, "switch-bus2", where + " " + s.first);
        c.checkEq(bbv.getSwitch(s.first).get().isOpen(), now.sw.at(s.first).open, "switch-open", where + " " + s.first);
    }
    c.checkEq(join(ids(c, bbv.getSwitches(), where)), join(sws), "switches", where);
    c.checkEq(bbv.getSwitchCount(), static_cast<unsigned long>(sws.size()), "switch-count", where);
    // merged buses
    const std::vector<Group> groups = m.busGroups(l, now);
    std::map<std::string, const Group*> ofBus;
    for (const auto& g : groups) for (const auto& b : g.buses) ofBus[b] = &g;
    std::set<std::string> names, expectedNames;
    for (size_t i = 0; i < groups.size(); ++i) expectedNames.insert(l.id + "_" + std::to_string(i));
    std::map<std::string, std::string> idOfGroup;  // first bus -> id
    for (const auto& b : l.buses) {
        const auto mb = vl.getBusView().getMergedBus(b);
        c.checkEq(static_cast<bool>(mb), ofBus.count(b) > 0, "merged-bus", where + " merged bus of " + b);
        if (!mb) continue;
        iidm::IdBasedBusRef ref(b);
        const auto itself = ref.resolve(n, TopologyLevel::BUS_BREAKER);
        c.check(itself && itself.get().getId() == b, "bus-reference", where + " reference to bus " + b);
        const auto branch = ref.resolve(n, TopologyLevel::BUS_BRANCH);
        bool connected = false;
        for (const auto* t : m.termsOf(l.id)) connected |= now.term.at(t->key()).connected && now.term.at(t->key()).bus == b;
        c.checkEq(branch ? branch.get().getId() : "none", connected ? mb.get().getId() : "none", "bus-reference", where + " reference to bus " + b + " in the bus view");
        auto it = idOfGroup.emplace(*ofBus.at(b)->buses.begin(), mb.get().getId()).first;
        c.checkEq(mb.get().getId(), it->second, "merged-bus-same", where + " merged bus of " + b);
    }
    std::map<std::string, const Group*> byId;
    for (const auto& g : groups) {
        const std::string i = idOfGroup.at(*g.buses.begin());
        c.check(byId.emplace(i, &g).second, "merged-bus-id", where + " two merged buses " + i);
    }
    for (auto& b : vl.getBusView().getBuses()) {
        c.check(names.insert(b.getId()).second, "bus-listed-twice", where + " " + b.getId());
        c.check(byId.count(b.getId()) > 0, "bus-unexpected", where + " bus view has " + b.getId());
        const Group& g = *byId.at(b.getId());
        verifyBusContent(b, g, l, where + " merged bus " + b.getId());
        const auto again = vl.getBusView().getBus(b.getId());
        c.check(again && &again.get() == &b, "bus-by-id", where + " " + b.getId());
        c.checkEq(b.getOptionalName(), l.name.empty() ? "" : l.name + b.getId().substr(l.id.size()), "bus-name", where + " " + b.getId());
        // any defined value of its buses
        std::set<std::string> vs, as;
        for (const auto& i : g.buses) {
            if (!std::isnan(now.bus.at(i).v)) vs.insert(pbt::hex(now.bus.at(i).v));
            if (!std::isnan(now.bus.at(i).angle)) as.insert(pbt::hex(now.bus.at(i).angle));
        }
        if (vs.empty()) vs.insert(pbt::hex(NAN));
        if (as.empty()) as.insert(pbt::hex(NAN));
        c.check(vs.count(pbt::hex(b.getV())) > 0, "bus-v", where + " " + b.getId() + " v=" + pbt::hex(b.getV()) + " buses " + join(vs));
        c.check(as.count(pbt::hex(b.getAngle())) > 0, "bus-angle", where + " " + b.getId());
    }
    c.checkEq(join(names), join(expectedNames), "buses", where + " bus view");
    c.check(!vl.getBusView().getBus("missing"), "bus-by-missing-id", where);
    for (const auto* t : m.termsOf(l.id)) {
        Terminal& term = terminal(*t);
        const TermState& ts = now.term.at(t->key());
        const std::string what = where + " " + t->key();
        c.checkEq(term.isConnected(), ts.connected, "terminal-connected", what);
        c.checkEq(term.getBusBreakerView().getConnectableBus().get().getId(), ts.bus, "terminal-connectable-bus", what);
        const auto b = term.getBusBreakerView().getBus();
        c.checkEq(b ? b.get().getId() : "none", ts.connected ? ts.bus : "none", "terminal-bus", what);
        checkBusRef(*t, TopologyLevel::BUS_BREAKER, ts.connected ? ts.bus : "none", what);
        checkBusRef(*t, TopologyLevel::BUS_BRANCH, ts.connected && ofBus.count(ts.bus) > 0 ? idOfGroup.at(*ofBus.at(ts.bus)->buses.begin()) : "none", what);
        const bool merged = ofBus.count(ts.bus) > 0;
        const std::string mid = merged ? idOfGroup.at(*ofBus.at(ts.bus)->buses.begin()) : "none";
        const auto mb = term.getBusView().getBus();
        c.checkEq(mb ? mb.get().getId() : "none", ts.connected ? mid : "none", "terminal-merged-bus", what);
        const auto mcb = term.getBusView().getConnectableBus();
        c.checkEq(mcb ? mcb.get().getId() : "none", mid, "terminal-connectable-merged-bus", what);
    }
}

void Topo::verify(const std::string& context) {
    c.checkEq(n.getVariantManager().getWorkingVariantId(), m.working, "working-variant", context);
    for (const auto& l : m.levels) if (l.second.nb) verifyNodeLevel(l.second, context); else verifyBusLevel(l.second, context);
    // network wide views
    std::multiset<std::string> a, b, x, y;
    for (const auto& bus : n.getBusView().getBuses()) a.insert(bus.getId());
    for (const auto& bus : n.getBusBreakerView().getBuses()) b.insert(bus.getId());
    for (const auto& l : m.levels) {
        if (l.second.nb) {
            for (const auto& g : m.nodeGroups(l.second, m.now(), false)) x.insert(g.id);
            for (const auto& g : m.nodeGroups(l.second, m.now(), true)) y.insert(g.id);
        } else {
            const size_t k = m.busGroups(l.second, m.now()).size();
            for (size_t i = 0; i < k; ++i) x.insert(l.first + "_" + std::to_string(i));
            for (const auto& i : l.second.buses) y.insert(i);
        }
    }
    c.checkEq(joinAll(a), joinAll(x), "network-buses", context + ": buses of the network's bus view");
    c.checkEq(joinAll(b), joinAll(y), "network-bus-breaker-buses", context + ": buses of the network's bus/breaker view");
}

void Topo::verifyComponents(const std::string& context) {
    const BusIndex index = busIndex(m);
    for (const bool synchronous : {false, true}) {
        const std::string what = context + (synchronous ? ": synchronous components" : ": connected components");
        const Components expectedComps = components(m, synchronous);
        const auto& comps = expectedComps.comps;
        // the real bus of each group
        auto realBus = [&](size_t i) -> stdcxx::Reference<Bus> {
            const Group& g = index.groups[i];
            VoltageLevel& vl = n.getVoltageLevel(index.levelOf[i]);
            return m.levels.at(index.levelOf[i]).nb ? vl.getBusView().getBus(g.id) : vl.getBusView().getMergedBus(*g.buses.begin());
        };
        std::map<std::string, size_t> numberOfId;
        std::vector<unsigned long> sizes;
        std::map<unsigned long, unsigned> label;  // number -> expected component
        for (size_t i = 0; i < index.groups.size(); ++i) {
            const auto b = realBus(i);
            c.check(static_cast<bool>(b), "component-bus-missing", what);
            const auto comp = synchronous ? b.get().getSynchronousComponent() : b.get().getConnectedComponent();
            c.check(static_cast<bool>(comp), "component-missing", what + " of " + b.get().getId());
            const unsigned expected = expectedComps.of.at(static_cast<int>(i));
            auto it = label.emplace(comp.get().getNum(), expected);
            c.checkEq(it.first->second, expected, "component-joined", what + ": bus " + b.get().getId() + " in component " + std::to_string(comp.get().getNum()));
            c.checkEq(comp.get().getSize(), static_cast<unsigned long>(comps.at(expected).size()), "component-size", what + " of " + b.get().getId());
            std::set<std::string> want, have;
            for (int k : comps.at(expected)) want.insert(realBus(static_cast<size_t>(k)).get().getId());
            for (const auto& x : comp.get().getBuses()) c.check(have.insert(x.getId()).second, "component-bus-listed-twice", what);
            c.checkEq(join(have), join(want), "component-buses", what + " of " + b.get().getId());
            const bool main = synchronous ? b.get().isInMainSynchronousComponent() : b.get().isInMainConnectedComponent();
            c.checkEq(main, comp.get().getNum() == 0, "component-main", what + " of " + b.get().getId());
            // the same answer from the terminals on it, through the other view
            for (const auto& k : index.groups[i].terms) {
                const Term& t = m.eqs.at(k.substr(0, k.find('#'))).terms[static_cast<size_t>(std::stoi(k.substr(k.find('#') + 1))) - 1];
                const auto bb = terminal(t).getBusBreakerView().getBus();
                c.check(static_cast<bool>(bb), "component-terminal-bus", what + " " + k);
                const auto cc = synchronous ? bb.get().getSynchronousComponent() : bb.get().getConnectedComponent();
                c.check(cc && cc.get().getNum() == comp.get().getNum(), "component-of-terminal", what + " of the bus/breaker bus of " + k);
                c.checkEq(synchronous ? bb.get().isInMainSynchronousComponent() : bb.get().isInMainConnectedComponent(), main, "component-main", what + " of the bus/breaker bus of " + k);
            }
        }
        c.checkEq(label.size(), comps.size(), "component-count", what);
        // numbered from 0 by decreasing size
        unsigned long next = 0, last = ~0UL;
        for (const auto& e : label) {
            c.checkEq(e.first, next++, "component-numbers", what);
            c.check(comps.at(e.second).size() <= last, "component-order", what);
            last = comps.at(e.second).size();
        }
        // buses of bus/breaker levels which are on no bus of the bus view are in no component
        for (const auto& l : m.levels) {
            if (l.second.nb) continue;
            std::set<std::string> in;
            for (size_t i = 0; i < index.groups.size(); ++i) if (index.levelOf[i] == l.first) in.insert(index.groups[i].buses.begin(), index.groups[i].buses.end());
            for (const auto& id : l.second.buses) {
                const auto b = n.getVoltageLevel(l.first).getBusBreakerView().getBus(id);
                const auto comp = synchronous ? b.get().getSynchronousComponent() : b.get().getConnectedComponent();
                c.checkEq(static_cast<bool>(comp), in.count(id) > 0, "component-of-unused-bus", what + " of " + id);
            }
        }
    }
}

}  // namespace shadow
