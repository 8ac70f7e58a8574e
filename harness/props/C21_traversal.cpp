// C21: traversals reach exactly the terminals the walk allows; visitors and the terminal finder report exactly what is attached.
// The oracle computes the least fixpoint of the walk on the plain topology model kept beside the network.
#include "../model/dump.hpp"
#include "../model/shadow.hpp"

#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>

#include <algorithm>

using pbt::Case;
using namespace shadow;

namespace {

std::string keyOf(const iidm::Terminal& t) { return t.getConnectable().get().getId() + "#" + std::to_string(model::sideOf(t)); }

std::string join(const std::set<std::string>& s) {
    std::string r;
    for (const auto& x : s) r += (r.empty() ? "" : " ") + x;
    return "{" + r + "}";
}

// pure decision about an object
struct Answers {
    uint64_t seed = 0;
    unsigned terminals = 100;  // accepted, in percent
    unsigned switches = 100;
    bool closedOnly = false;   // open switches are refused
    bool connectedOnly = false;
    static uint64_t h(uint64_t x, const std::string& k) {
        for (char ch : k) { x ^= static_cast<unsigned char>(ch); x *= 1099511628211ULL; }
        x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33;
        return x;
    }
    bool terminal(const std::string& key, bool connected) const { return (!connectedOnly || connected) && h(seed, "t" + key) % 100 < terminals; }
    bool sw(const std::string& id, bool open) const { return (!closedOnly || !open) && h(seed, "s" + id) % 100 < switches; }
};

struct Stop {};

struct Recorder : iidm::VoltageLevel::TopologyTraverser {
    const Answers* a = nullptr;
    long budget = -1;  // throws after that many calls
    std::vector<std::pair<std::string, bool>> terminals;
    std::vector<std::string> switches;
    bool traverse(iidm::Terminal& t, bool connected) override {
        if (budget >= 0 && budget-- == 0) throw Stop();
        terminals.push_back({keyOf(t), connected});
        return a->terminal(keyOf(t), connected);
    }
    bool traverse(iidm::Switch& s) override {
        if (budget >= 0 && budget-- == 0) throw Stop();
        switches.push_back(s.getId());
        return a->sw(s.getId(), s.isOpen());
    }
};

// what the walk reaches
struct Reach {
    std::set<std::string> asked, accepted;        // terminals
    std::set<std::pair<std::string, std::string>> passed;   // (level, node or bus)
    std::set<std::pair<std::string, std::string>> entered;  // bus/breaker: buses entered
};

std::string nodeName(unsigned long n) { return std::to_string(n); }

bool connectedOf(const Model& m, const Term& t) { return t.nb || m.now().term.at(t.key()).connected; }

Reach reach(const Model& m, const Term& start, const Answers& a) {
    Reach r;
    std::map<std::string, const Term*> byKey;
    std::map<std::pair<std::string, unsigned long>, const Term*> byNode;
    std::map<std::string, std::vector<const Term*>> byBus;
    for (const auto& e : m.eqs) for (const auto& t : e.second.terms) {
        byKey[t.key()] = &t;
        if (t.nb) byNode[{t.vl, t.node}] = &t; else byBus[m.now().term.at(t.key()).bus].push_back(&t);
    }
    std::vector<const Term*> ask = {&start};
    std::vector<std::pair<std::string, std::string>> pass;
    auto enterNode = [&](const std::string& vl, unsigned long n) {
        auto it = byNode.find({vl, n});
        if (it == byNode.end()) pass.push_back({vl, nodeName(n)}); else ask.push_back(it->second);
    };
    auto enterBus = [&](const std::string& vl, const std::string& b) {
        if (!r.entered.insert({vl, b}).second) return;
        if (byBus[b].empty()) pass.push_back({vl, b});
        for (const Term* t : byBus[b]) ask.push_back(t);
    };
    while (!ask.empty() || !pass.empty()) {
        if (!ask.empty()) {
            const Term* t = ask.back();
            ask.pop_back();
            if (!r.asked.insert(t->key()).second) continue;
            if (!a.terminal(t->key(), connectedOf(m, *t))) continue;
            r.accepted.insert(t->key());
            const Eq& e = m.eqs.at(t->eq);
            for (const auto& o : e.terms) if (o.side != t->side) ask.push_back(&o);
            if (t->nb) pass.push_back({t->vl, nodeName(t->node)});
            else {
                const std::string b = m.now().term.at(t->key()).bus;
                enterBus(t->vl, b);
                pass.push_back({t->vl, b});  // a bus with an accepted terminal is passed
            }
            continue;
        }
        const auto p = pass.back();
        pass.pop_back();
        if (!r.passed.insert(p).second) continue;
        const Level& l = m.levels.at(p.first);
        for (const auto& s : m.sws) {
            if (s.second.vl != l.id) continue;
            const std::string e1 = l.nb ? nodeName(s.second.n1) : s.second.b1, e2 = l.nb ? nodeName(s.second.n2) : s.second.b2;
            if (e1 != p.second && e2 != p.second) continue;
            if (!a.sw(s.first, m.now().sw.at(s.first).open)) continue;
            if (l.nb) enterNode(l.id, e1 == p.second ? s.second.n2 : s.second.n1);
            else enterBus(l.id, e1 == p.second ? e2 : e1);
        }
        if (l.nb) for (const auto& ic : l.internals) {
            if (nodeName(ic.first) == p.second) enterNode(l.id, ic.second);
            if (nodeName(ic.second) == p.second) enterNode(l.id, ic.first);
        }
    }
    return r;
}

void traversal(Case& c, Topo& t) {
    const Term* start = t.pickTerm();
    if (start == nullptr) return;
    Answers a;
    a.seed = c.s.draw(1000);
    a.terminals = c.s.pickOf({100, 100, 90, 70, 40});
    a.switches = c.s.pickOf({100, 100, 85, 60});
    a.closedOnly = c.s.chance(50);
    a.connectedOnly = c.s.chance(30);
    std::ostringstream ss;
    ss << "traverse from " << start->key() << " terminals " << a.terminals << "% switches " << a.switches << "%" << (a.closedOnly ? " closed" : "") << (a.connectedOnly ? " connected" : "") << " seed " << a.seed;
    const std::string what = ss.str();
    c.note(what);
    if (c.s.chance(10)) {  // an exception of the visitor ends the walk and leaves nothing behind
        Recorder r;
        r.a = &a;
        r.budget = static_cast<long>(c.s.draw(4));
        try { t.terminal(*start).traverse(r); } catch (const Stop&) { c.label("visitor throws"); }
    }
    Recorder rec;
    rec.a = &a;
    t.terminal(*start).traverse(rec);
    const Reach r = reach(t.m, *start, a);
    std::set<std::string> got;
    for (const auto& x : rec.terminals) {
        if (got.insert(x.first).second) continue;
        c.fail("terminal-twice", what + ": terminal " + x.first + " is visited twice");
    }
    c.compared(rec.terminals.size());
    c.check(got == r.asked, "terminals", what + ": visits " + join(got) + ", expected " + join(r.asked));
    for (const auto& x : rec.terminals) {
        const size_t p = x.first.rfind('#');
        const Eq& e = t.m.eqs.at(x.first.substr(0, p));
        const Term& term = e.terms.at(std::stoul(x.first.substr(p + 1)) - 1);
        c.checkEq(x.second, connectedOf(t.m, term), "connected-flag", what + ": " + x.first);
    }
    std::map<std::string, unsigned> count;
    for (const auto& x : rec.switches) ++count[x];
    for (const auto& x : count) {
        const Sw& s = t.m.sws.at(x.first);
        const Level& l = t.m.levels.at(s.vl);
        const std::string e1 = l.nb ? nodeName(s.n1) : s.b1, e2 = l.nb ? nodeName(s.n2) : s.b2;
        c.check(r.passed.count({l.id, e1}) || r.passed.count({l.id, e2}), "switch-out-of-reach", what + ": switch " + x.first + " is not on the way");
        if (a.sw(x.first, t.m.now().sw.at(x.first).open)) c.check(x.second == 1, "switch-twice", what + ": switch " + x.first + " is crossed " + std::to_string(x.second) + " times");
    }
    for (const auto& x : t.m.sws) {
        const Level& l = t.m.levels.at(x.second.vl);
        const std::string e1 = l.nb ? nodeName(x.second.n1) : x.second.b1, e2 = l.nb ? nodeName(x.second.n2) : x.second.b2;
        if (r.passed.count({l.id, e1}) == r.passed.count({l.id, e2})) continue;
        c.check(count.count(x.first), "switch-not-asked", what + ": the walk reaches one end of switch " + x.first + " only and does not ask for it");
    }
    std::set<std::string> levels;
    for (const auto& x : r.accepted) levels.insert(t.m.eqs.at(x.substr(0, x.rfind('#'))).terms.at(std::stoul(x.substr(x.rfind('#') + 1)) - 1).vl);
    c.nontrivial(r.asked.size() >= 3 && (!rec.switches.empty() || levels.size() > 1));
    if (levels.size() > 1) c.label("several levels");
    bool nb = false, bb = false;
    for (const auto& x : levels) (t.m.levels.at(x).nb ? nb : bb) = true;
    if (nb && bb) c.label("both kinds of levels");
    if (r.asked.size() > r.accepted.size()) c.label("refused terminal");
    if (r.accepted.empty()) c.label("start refused");
    for (const auto& x : r.passed) if (!t.m.levels.at(x.first).nb && r.entered.count(x)) { unsigned k = 0; for (const auto& y : r.asked) if (t.m.now().term.count(y) && t.m.now().term.at(y).bus == x.second) ++k; if (k > 1) c.label("bus with several terminals"); if (k == 0) c.label("empty bus crossed"); }
}

// traversal of the nodes of a level
void nodeTraversal(Case& c, Topo& t) {
    Level* l = t.pickLevel(1);
    if (l == nullptr) return;
    const std::set<unsigned long> nodes = t.m.nodes(*l);
    if (nodes.empty()) return;
    const auto& view = t.n.getVoltageLevel(l->id).getNodeBreakerView();
    auto it = nodes.begin();
    std::advance(it, c.s.draw(nodes.size()));
    const unsigned long start = *it;
    const uint64_t seed = c.s.draw(1000);
    const unsigned pct = c.s.pickOf({100, 85, 60});
    const bool byNode = c.s.chance(40), closed = c.s.chance(50);
    // the answer may depend on the edge and on the node to be entered
    auto answer = [&](const std::string& sw, unsigned long to) {
        const std::string k = byNode ? "n" + std::to_string(to) : "e" + sw;
        if (closed && !sw.empty() && t.m.now().sw.at(sw).open) return false;
        return Answers::h(seed, k) % 100 < pct;
    };
    const std::string what = "traverse nodes of " + l->id + " from " + std::to_string(start) + " " + std::to_string(pct) + "%" + (byNode ? " by node" : " by edge") + (closed ? " closed" : "") + " seed " + std::to_string(seed);
    c.note(what);
    struct Edge { unsigned long a, b; std::string sw; };
    std::vector<Edge> edges;
    for (const auto& s : t.m.sws) if (s.second.vl == l->id) edges.push_back({s.second.n1, s.second.n2, s.first});
    for (const auto& ic : l->internals) edges.push_back({ic.first, ic.second, ""});
    std::set<unsigned long> expected = {start};
    for (bool more = true; more;) {
        more = false;
        for (const auto& e : edges) {
            if (expected.count(e.a) && !expected.count(e.b) && answer(e.sw, e.b)) { expected.insert(e.b); more = true; }
            if (expected.count(e.b) && !expected.count(e.a) && answer(e.sw, e.a)) { expected.insert(e.a); more = true; }
        }
    }
    std::set<unsigned long> entered = {start};
    std::map<std::string, unsigned> asked;
    view.traverse(start, [&](unsigned long n1, const stdcxx::Reference<iidm::Switch>& sw, unsigned long n2) {
        const std::string id = sw ? sw.get().getId() : "";
        c.check(entered.count(n1) && !entered.count(n2), "node-order", what + ": asks to go from " + std::to_string(n1) + " to " + std::to_string(n2));
        bool known = false;
        for (const auto& e : edges) if (e.sw == id && ((e.a == n1 && e.b == n2) || (e.b == n1 && e.a == n2))) known = true;
        c.check(known, "node-edge", what + ": no " + (id.empty() ? "internal connection" : "switch " + id) + " between " + std::to_string(n1) + " and " + std::to_string(n2));
        if (sw) ++asked[id]; else ++asked[std::to_string(std::min(n1, n2)) + "-" + std::to_string(std::max(n1, n2))];
        const bool ok = answer(id, n2);
        if (ok) entered.insert(n2);
        return ok;
    });
    auto text = [](const std::set<unsigned long>& s) { std::string r; for (auto x : s) r += std::to_string(x) + " "; return r; };
    c.check(entered == expected, "nodes", what + ": enters " + text(entered) + ", expected " + text(expected));
    for (const auto& e : edges) {
        const std::string k = e.sw.empty() ? std::to_string(std::min(e.a, e.b)) + "-" + std::to_string(std::max(e.a, e.b)) : e.sw;
        if (entered.count(e.a) != entered.count(e.b)) c.check(asked.count(k), "node-edge-not-asked", what + ": does not ask for " + k);
        if (!e.sw.empty()) c.check(asked[k] <= 1, "node-edge-twice", what + ": asks " + std::to_string(asked[k]) + " times for " + k);
    }
    c.nontrivial(entered.size() > 2);
    if (entered.size() > 2) c.label("nodes entered");
    // a node that is not there is refused
    if (c.s.chance(20)) {
        unsigned long missing = *nodes.rbegin() + 1 + c.s.draw(3);
        bool thrown = false;
        try { view.traverse(missing, [](unsigned long, const stdcxx::Reference<iidm::Switch>&, unsigned long) { return true; }); } catch (const PowsyblException&) { thrown = true; }
        c.check(thrown, "missing-node", what + ": traversal from a missing node is accepted");
    }
}

struct Visits : iidm::TopologyVisitor {
    std::multiset<std::string> seen;
    void see(const char* type, const iidm::Identifiable& i, unsigned side = 1) { seen.insert(std::string(type) + " " + i.getId() + "#" + std::to_string(side)); }
    void visitBattery(const iidm::Battery& x) override { see("BAT", x); }
    void visitBusbarSection(const iidm::BusbarSection& x) override { see("BBS", x); }
    void visitDanglingLine(const iidm::DanglingLine& x) override { see("DL", x); }
    void visitGenerator(const iidm::Generator& x) override { see("GEN", x); }
    void visitHvdcConverterStation(const iidm::HvdcConverterStation& x) override { see(x.getHvdcType() == iidm::HvdcConverterStation::HvdcType::LCC ? "LCC" : "VSC", x); }
    void visitLine(const iidm::Line& x, const iidm::Branch::Side& s) override { see(x.isTieLine() ? "TIE" : "LINE", x, s == iidm::Branch::Side::ONE ? 1 : 2); }
    void visitLoad(const iidm::Load& x) override { see("LOAD", x); }
    void visitShuntCompensator(const iidm::ShuntCompensator& x) override { see("SHUNT", x); }
    void visitStaticVarCompensator(const iidm::StaticVarCompensator& x) override { see("SVC", x); }
    void visitThreeWindingsTransformer(const iidm::ThreeWindingsTransformer& x, const iidm::ThreeWindingsTransformer::Side& s) override {
        see("T3", x, s == iidm::ThreeWindingsTransformer::Side::ONE ? 1 : s == iidm::ThreeWindingsTransformer::Side::TWO ? 2 : 3);
    }
    void visitTwoWindingsTransformer(const iidm::TwoWindingsTransformer& x, const iidm::Branch::Side& s) override { see("T2", x, s == iidm::Branch::Side::ONE ? 1 : 2); }
};

struct TerminalVisits : iidm::AbstractTerminalTopologyVisitor {
    std::multiset<std::string> seen;
    void visitTerminal(const iidm::Terminal& t) override { seen.insert(keyOf(t)); }
};

std::string joinM(const std::multiset<std::string>& s) {
    std::string r;
    for (const auto& x : s) r += (r.empty() ? "" : " ") + x;
    return "{" + r + "}";
}

unsigned rankOf(const iidm::Terminal& t) {
    switch (t.getConnectable().get().getType()) {
        case iidm::ConnectableType::BUSBAR_SECTION: return 0;
        case iidm::ConnectableType::LINE: case iidm::ConnectableType::TWO_WINDINGS_TRANSFORMER: return 2;
        case iidm::ConnectableType::THREE_WINDINGS_TRANSFORMER: return 3;
        default: return 1;
    }
}

void finder(Case& c, iidm::Bus& b, const std::set<std::string>& keys, const std::string& what) {
    // best rank of what is attached, and the first such terminal of the range
    const iidm::Bus& cb = b;
    std::vector<const iidm::Terminal*> order;
    for (const auto& t : cb.getConnectedTerminals()) order.push_back(&t);
    std::set<std::string> got;
    for (const auto* t : order) got.insert(keyOf(*t));
    c.check(got == keys && got.size() == order.size(), "connected-terminals", what + ": " + join(got) + ", expected " + join(keys));
    const iidm::Terminal* best = nullptr;
    for (const auto* t : order) if (best == nullptr || rankOf(*t) < rankOf(*best)) best = t;
    const auto f = iidm::TerminalFinder::find(cb.getConnectedTerminals());
    const auto f2 = iidm::TerminalFinder::find(b.getConnectedTerminals());
    c.check((f ? &f.get() : nullptr) == best, "finder", what + ": finds " + (f ? keyOf(f.get()) : "nothing") + ", expected " + (best ? keyOf(*best) : "nothing"));
    c.check((f2 ? &f2.get() : nullptr) == best, "finder", what + ": finds " + (f2 ? keyOf(f2.get()) : "nothing") + ", expected " + (best ? keyOf(*best) : "nothing"));
    // another order
    const uint64_t seed = c.s.draw(50);
    auto less = [seed](const iidm::Terminal& x, const iidm::Terminal& y) { return Answers::h(seed, keyOf(x)) % 4 < Answers::h(seed, keyOf(y)) % 4; };
    const auto g = iidm::TerminalFinder::find(less, cb.getConnectedTerminals());
    c.check(static_cast<bool>(g) == !order.empty(), "finder-comparator", what);
    for (const auto* t : order) c.check(!less(g.get(), *t), "finder-comparator", what + ": " + keyOf(*t) + " is better than " + keyOf(g.get()));
    std::set<unsigned> ranks;
    for (const auto* t : order) ranks.insert(rankOf(*t));
    if (ranks.size() > 1) c.label("finder chooses");
    if (ranks.size() > 2) c.label("finder chooses among three kinds");
}

void checkVisits(Case& c, const std::multiset<std::string>& seen, const std::multiset<std::string>& terms, const std::set<std::string>& keys, const Model& m, const std::string& what) {
    std::multiset<std::string> e, k;
    for (const auto& x : keys) { e.insert(m.eqs.at(x.substr(0, x.rfind('#'))).type + " " + x); k.insert(x); }
    c.check(seen == e, "visitor", what + ": visits " + joinM(seen) + ", expected " + joinM(e));
    c.check(terms == k, "terminal-visitor", what + ": visits " + joinM(terms) + ", expected " + joinM(k));
}

void visitors(Case& c, Topo& t) {
    for (const auto& lv : t.m.levels) {
        const Level& l = lv.second;
        iidm::VoltageLevel& vl = t.n.getVoltageLevel(l.id);
        std::set<std::string> all;
        for (const Term* x : t.m.termsOf(l.id)) all.insert(x->key());
        Visits v;
        TerminalVisits tv;
        vl.visitEquipments(v);
        vl.visitEquipments(tv);
        checkVisits(c, v.seen, tv.seen, all, t.m, "level " + l.id);
        if (all.size() > 2) c.label("level visited");
        if (l.nb) {
            const auto groups = t.m.nodeGroups(l, t.m.now(), false), retained = t.m.nodeGroups(l, t.m.now(), true);
            for (int k = 0; k < 2; ++k) {
                auto range = k == 0 ? vl.getBusView().getBuses() : vl.getBusBreakerView().getBuses();
                for (iidm::Bus& b : range) {
                    const std::string what = (k == 0 ? "bus " : "bus/breaker view bus ") + b.getId();
                    std::set<std::string> keys;
                    for (const auto& g : k == 0 ? groups : retained) if (g.id == b.getId()) keys = g.terms;
                    Visits a, a2;
                    TerminalVisits ta, ta2;
                    b.visitConnectedEquipments(a);
                    b.visitConnectedEquipments(ta);
                    checkVisits(c, a.seen, ta.seen, keys, t.m, what);
                    b.visitConnectedOrConnectableEquipments(a2);
                    b.visitConnectedOrConnectableEquipments(ta2);
                    checkVisits(c, a2.seen, ta2.seen, keys, t.m, what + " (connectable)");
                    finder(c, b, keys, what);
                }
            }
            continue;
        }
        auto at = [&](const std::set<std::string>& buses, bool connected) {
            std::set<std::string> keys;
            for (const Term* x : t.m.termsOf(l.id)) {
                const TermState& st = t.m.now().term.at(x->key());
                if (buses.count(st.bus) && (!connected || st.connected)) keys.insert(x->key());
            }
            return keys;
        };
        auto bus = [&](iidm::Bus& b, const std::set<std::string>& buses, const std::string& what) {
            Visits a, a2;
            TerminalVisits ta, ta2;
            b.visitConnectedEquipments(a);
            b.visitConnectedEquipments(ta);
            checkVisits(c, a.seen, ta.seen, at(buses, true), t.m, what);
            b.visitConnectedOrConnectableEquipments(a2);
            b.visitConnectedOrConnectableEquipments(ta2);
            checkVisits(c, a2.seen, ta2.seen, at(buses, false), t.m, what + " (connectable)");
            if (at(buses, true) != at(buses, false)) c.label("connectable only");
            finder(c, b, at(buses, true), what);
        };
        for (iidm::Bus& b : vl.getBusBreakerView().getBuses()) bus(b, {b.getId()}, "configured bus " + b.getId());
        for (iidm::Bus& b : vl.getBusView().getBuses()) {
            for (const auto& g : t.m.busGroups(l, t.m.now())) {
                const auto x = vl.getBusView().getMergedBus(*g.buses.begin());
                if (x && x.get().getId() == b.getId()) bus(b, g.buses, "merged bus " + b.getId());
            }
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C21";
    cfg.rule = "random networks of node/breaker and bus/breaker levels (branches inside and between levels, parallel branches, three-winding transformers, rings, empty nodes and buses, disconnected terminals) changed by random edits; terminal and node traversals with random start and answers (pure functions of the object), "
               "compared with the least fixpoint computed on the plain model; equipment visitors of every level and bus and the terminal finder compared with what the model attaches. Non-trivial: at least three terminals (or nodes) visited over a switch or a branch.";
    cfg.quick = 160000;
    cfg.thorough = 2000000;
    cfg.assumptions = {"the answers of the visitor depend on the object only", "no switch joins a node or bus to itself"};
    cfg.requiredLabels = {"several levels", "both kinds of levels", "refused terminal", "start refused", "bus with several terminals", "empty bus crossed", "nodes entered", "connectable only", "finder chooses", "finder chooses among three kinds", "visitor throws", "variants"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Limits lim;
        lim.kind = c.s.chance(40) ? 0 : c.s.chance(50) ? 1 : 2;
        lim.voltages = false;
        Network n("n", "test");
        Topo t(c, n, lim);
        t.build(4 + static_cast<unsigned>(c.s.draw(18)));
        for (unsigned k = 2 + static_cast<unsigned>(c.s.draw(10)); k > 0; --k) {
            switch (c.s.weighted({4, 2, 1, 4})) {
                case 0: traversal(c, t); break;
                case 1: nodeTraversal(c, t); break;
                case 2: visitors(c, t); break;
                default: { const std::string d = t.step(); if (!d.empty()) c.note(d); break; }
            }
        }
        if (t.m.variants.size() > 1) c.label("variants");
        visitors(c, t);
    });
}
