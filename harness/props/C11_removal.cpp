// C11: removing an object removes all of it and nothing else.
#include "../model/gen.hpp"

#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>

using namespace gen;
using model::Dump;
using Dumps = std::map<std::string, Dump>;

namespace {

// id of the object a dump key belongs to ("" for the network itself)
std::string ownerOf(const std::string& key, const std::set<std::string>& ids) {
    const size_t colon = key.find(':');
    if (colon == std::string::npos) return "";
    std::string best;
    const std::string rest = key.substr(colon + 1);
    for (size_t dot = rest.find('.'); dot != std::string::npos; dot = rest.find('.', dot + 1)) {
        const std::string x = rest.substr(0, dot);
        if (ids.count(x)) best = x;
    }
    return best;
}

bool sep(char ch) { return ch == '[' || ch == ']' || ch == ',' || ch == ' ' || ch == '=' || ch == '#' || ch == '(' || ch == ')' || ch == '/'; }

// the words of a dump value
std::set<std::string> words(const std::string& v) {
    std::set<std::string> r;
    std::string w;
    for (char ch : v) {
        if (sep(ch)) { if (!w.empty()) r.insert(w); w.clear(); } else w += ch;
    }
    if (!w.empty()) r.insert(w);
    return r;
}

// "[a,b] n=2" without the removed ids
std::string without(const std::string& v, const std::set<std::string>& removed) {
    const size_t end = v.find(']');
    if (v.empty() || v[0] != '[' || end == std::string::npos) return v;
    std::string list = "[", x;
    unsigned long gone = 0;
    std::vector<std::string> items;
    for (size_t i = 1; i <= end; ++i) {
        if (v[i] == ',' || i == end) { if (!x.empty()) items.push_back(x); x.clear(); } else x += v[i];
    }
    for (const auto& i : items) {
        if (removed.count(i)) ++gone; else list += (list.size() > 1 ? "," : "") + i;
    }
    std::string tail = v.substr(end + 1);
    size_t digits = tail.find_first_of("0123456789");
    if (digits != std::string::npos && std::stoul(tail.substr(digits)) == items.size()) tail = tail.substr(0, digits) + std::to_string(std::stoul(tail.substr(digits)) - gone);
    return list + "]" + tail;
}

std::set<std::string> idsOf(Network& n) {
    std::set<std::string> r;
    for (const auto& i : n.getIdentifiables()) r.insert(i.getId());
    return r;
}

// what must disappear with the objects: their ids and aliases
std::set<std::string> namesOf(Network& n, const std::set<std::string>& removed) {
    std::set<std::string> r = removed;
    for (const auto& i : n.getIdentifiables()) if (removed.count(i.getId())) for (const auto& a : i.getAliases()) r.insert(a);
    return r;
}

void checkFreed(pbt::Case& c, Network& n, const std::set<std::string>& names, const std::string& what) {
    for (const auto& i : names) {
        c.check(!n.find<iidm::Identifiable>(i), "still-found", what + ": '" + i + "' can still be looked up");
        bool thrown = false;
        try { n.get<iidm::Identifiable>(i); } catch (const PowsyblException&) { thrown = true; }
        c.check(thrown, "still-found", what + ": '" + i + "' can still be looked up");
    }
    if (names.empty() || !c.s.chance(40)) return;
    // the names can be used again
    std::vector<std::string> v(names.begin(), names.end());
    const std::string i = c.s.pick(v);
    auto& sub = n.newSubstation().setId(i).add();
    c.checkEq(n.getSubstation(i).getId(), i, "not-reusable", what);
    sub.remove();
    c.check(!n.find<iidm::Identifiable>(i), "still-found", what + ": '" + i + "' after its second removal");
    c.label("name reused");
}

// every connection point given back must accept a new equipment
void checkPlaces(pbt::Case& c, Network& n, const std::vector<std::pair<std::string, unsigned long>>& nodes, const std::string& what) {
    for (const auto& p : nodes) {
        const auto vl = n.find<iidm::VoltageLevel>(p.first);
        if (!vl) continue;
        c.check(!vl.get().getNodeBreakerView().getOptionalTerminal(p.second), "node-still-used", what + ": node " + std::to_string(p.second) + " of " + p.first);
        auto& l = vl.get().newLoad().setId("REUSE").setP0(1).setQ0(2).setNode(p.second).add();
        c.checkEq(vl.get().getNodeBreakerView().getOptionalTerminal(p.second).get().getConnectable().get().getId(), std::string("REUSE"), "node-not-reusable", what);
        l.remove();
        c.label("node reused");
    }
}

// a removal predicted by the generator, compared with the dumps before it
void removal(pbt::Case& c, World& w, Network& n) {
    const Dumps before = dumpVariants(n, model::ALL);
    const std::set<std::string> idsBefore = idsOf(n);
    std::map<std::string, std::vector<std::pair<std::string, unsigned long>>> nodes;
    for (auto* t : w.terminals()) {
        if (t->getVoltageLevel().getTopologyKind() == iidm::TopologyKind::NODE_BREAKER) nodes[t->getConnectable().get().getId()].push_back({t->getVoltageLevel().getId(), t->getNodeBreakerView().getNode()});
    }
    std::map<std::string, std::set<std::string>> aliases;
    for (const auto& i : n.getIdentifiables()) for (const auto& a : i.getAliases()) aliases[i.getId()].insert(a);
    w.removeOp(true);
    const Rec r = w.last;
    if (r.skipped) return;
    w.requirePrediction("removal");
    const std::string what = r.what + " " + r.id;
    if (!r.accepted) {
        c.label("refused");
        const std::string d = diffVariants(before, dumpVariants(n, model::ALL));
        c.check(d.empty(), "refused-with-effect", what + " is refused (" + r.error + ") and changes:\n" + d);
        c.nontrivial();
        return;
    }
    c.nontrivial(!r.removed.empty());
    c.label(r.what.compare(0, 10, "remove all") == 0 ? r.what.substr(0, r.what.find(" of ")) : r.what.substr(0, r.what.find(" of ")));
    std::set<std::string> names = r.removed;
    for (const auto& i : r.removed) names.insert(aliases[i].begin(), aliases[i].end());
    std::set<std::string> left = idsBefore;
    for (const auto& i : r.removed) { c.checkEq(left.erase(i), 1UL, "harness", "removed id " + i); }
    {
        std::string a, b;
        for (const auto& i : idsOf(n)) a += i + " ";
        for (const auto& i : left) b += i + " ";
        c.checkEq(a, b, "objects-left", what + ":");
    }
    const Dumps after = dumpVariants(n, model::ALL);
    for (const auto& v : after) {
        const Dump& b = before.at(v.first);
        std::string bad;
        for (const auto& e : v.second) {
            const std::string owner = ownerOf(e.first, idsBefore);
            if (r.removed.count(owner)) { bad += e.first + " is still there\n"; continue; }
            if (e.second.flag & (model::LISTS | model::TOPO | model::COMP)) {
                for (const auto& x : words(e.second.v)) if (r.removed.count(x)) bad += e.first + " still shows " + x + ": " + e.second.v + "\n";
            }
            if (!(e.second.flag & (model::STRUCT | model::STATE | model::EXT | model::LISTS))) continue;
            if (r.also.count(e.first)) continue;
            auto it = b.find(e.first);
            if (it == b.end()) { bad += e.first + " appears: " + e.second.v + "\n"; continue; }
            std::string expected = it->second.v;
            if (e.second.flag & model::LISTS) expected = without(expected, r.removed);
            else if (e.first.compare(0, 3, "vl:") == 0 && e.first.size() > 6 && e.first.compare(e.first.size() - 6, 6, ".nodes") == 0) {
                // [node=terminal,...]
                std::string list = "[";
                std::stringstream in(expected.substr(1, expected.size() - 2));
                std::string item;
                while (std::getline(in, item, ',')) {
                    const size_t eq = item.find('='), hash = item.rfind('#');
                    if (!r.removed.count(item.substr(eq + 1, hash - eq - 1))) list += (list.size() > 1 ? "," : "") + item;
                }
                expected = list + "]";
            }
            if (e.first.find(".countries") != std::string::npos) continue;
            if (e.second.v != expected) bad += e.first + ": " + it->second.v + " -> " + e.second.v + "\n";
        }
        for (const auto& e : b) {
            if (!(e.second.flag & (model::STRUCT | model::STATE | model::EXT | model::LISTS)) || v.second.count(e.first)) continue;
            if (!r.removed.count(ownerOf(e.first, idsBefore)) && !r.also.count(e.first)) bad += e.first + " disappears\n";
        }
        c.compared(v.second.size());
        c.check(bad.empty(), "side-effect", what + " in variant " + v.first + ":\n" + bad.substr(0, 2000));
    }
    checkFreed(c, n, names, what);
    std::vector<std::pair<std::string, unsigned long>> freed;
    for (const auto& i : r.removed) freed.insert(freed.end(), nodes[i].begin(), nodes[i].end());
    if (c.s.chance(40)) checkPlaces(c, n, freed, what);
    // using the names and places again leaves nothing behind
    const std::string d = diffVariants(after, dumpVariants(n, model::ALL));
    c.check(d.empty(), "reuse-with-effect", "creations and removals after " + what + ":\n" + d);
}

// creations undone by removals, in a random order, give back the same network
void inverse(pbt::Case& c, World& w, Network& n) {
    const Dumps before = dumpVariants(n, model::ALL);
    const std::set<std::string> idsBefore = idsOf(n);
    std::vector<std::string> created;
    std::string what;
    for (unsigned k = 1 + static_cast<unsigned>(c.s.draw(3)); k > 0; --k) {
        switch (c.s.draw(12)) {
            case 0: w.addSubstation(); break;
            case 1: { auto v = w.substations(); if (v.empty()) w.addSubstation(); else w.addVoltageLevel(*v[c.s.draw(v.size())]); break; }
            case 2: case 3: { auto v = w.levels(2); if (v.empty()) continue; w.addBus(*v[c.s.draw(v.size())]); break; }
            case 4: { auto v = w.levels(1); if (v.empty()) continue; w.addBusbarSection(*v[c.s.draw(v.size())]); break; }
            case 5: case 6: { auto v = w.levels(); if (v.empty()) continue; w.addSwitch(*v[c.s.draw(v.size())]); break; }
            case 7: case 8: { auto v = w.levels(); if (v.empty()) continue; w.addInjection(*v[c.s.draw(v.size())]); break; }
            case 9: w.addLine(); break;
            case 10: if (c.s.chance(50)) w.addT2(); else w.addT3(); break;
            default: if (c.s.chance(50)) w.addTieLine(); else w.addHvdcLine(); break;
        }
        const Rec r = w.last;
        if (r.skipped || !r.accepted || r.id.empty()) continue;
        const std::string id = r.id;
        if (idsBefore.count(id) || !n.find<iidm::Identifiable>(id)) continue;
        created.push_back(id);
        what += r.what + " " + id + "; ";
        auto& i = n.get<iidm::Identifiable>(id);
        if (c.s.chance(40)) i.addAlias(w.newId("AL"));
        if (c.s.chance(30)) w.extensionOn(i);
        if (c.s.chance(30)) w.setOn(i);
        if (c.s.chance(30)) for (auto& a : idsOf(n)) if (!idsBefore.count(a) && a != id && std::find(created.begin(), created.end(), a) == created.end()) created.push_back(a);
    }
    // everything that appeared (an adder may create several objects)
    for (const auto& a : idsOf(n)) if (!idsBefore.count(a) && std::find(created.begin(), created.end(), a) == created.end()) created.push_back(a);
    if (created.empty()) return;
    std::set<std::string> all(created.begin(), created.end());
    const std::set<std::string> names = namesOf(n, all);
    // an older object may have been given a reference to a new one
    for (const auto& p : w.terminalReferences()) if (all.count(p.second) && !all.count(p.first)) return;
    const bool queried = c.s.chance(50);
    if (queried) dumpVariants(n, model::TOPO | model::COMP);
    while (!all.empty()) {
        std::vector<std::string> v(all.begin(), all.end());
        const size_t start = c.s.draw(v.size());
        bool done = false;
        for (size_t k = 0; k < v.size() && !done; ++k) {
            const std::string id = v[(start + k) % v.size()];
            auto& i = n.get<iidm::Identifiable>(id);
            std::set<std::string> gone = {id};
            if (w.leavesDangling(gone)) {
                bool cyclic = true;
                for (const auto& p : w.terminalReferences()) if (p.second == id && !all.count(p.first)) cyclic = false;
                if (cyclic && k + 1 < v.size()) continue;
            }
            try {
                if (auto* x = dynamic_cast<iidm::Connectable*>(&i)) {
                    if (auto* st = dynamic_cast<iidm::HvdcConverterStation*>(x)) if (st->getHvdcLine()) continue;
                    x->remove();
                } else if (auto* x = dynamic_cast<iidm::HvdcLine*>(&i)) x->remove();
                else if (auto* x = dynamic_cast<iidm::Switch*>(&i)) {
                    auto& vl = x->getVoltageLevel();
                    if (vl.getTopologyKind() == iidm::TopologyKind::NODE_BREAKER) vl.getNodeBreakerView().removeSwitch(id); else vl.getBusBreakerView().removeSwitch(id);
                } else if (auto* x = dynamic_cast<iidm::Bus*>(&i)) x->getVoltageLevel().getBusBreakerView().removeBus(id);
                else if (auto* x = dynamic_cast<iidm::VoltageLevel*>(&i)) {
                    for (const auto& k2 : x->getConnectables<iidm::Connectable>()) gone.insert(k2.getId());
                    for (const auto& k2 : x->getSwitches()) gone.insert(k2.getId());
                    if (x->getTopologyKind() == iidm::TopologyKind::BUS_BREAKER) for (const auto& k2 : x->getBusBreakerView().getBuses()) gone.insert(k2.getId());
                    if (w.leavesDangling(gone)) { gone.clear(); gone.insert(id); continue; }
                    x->remove();
                } else if (auto* x = dynamic_cast<iidm::Substation*>(&i)) {
                    if (x->getVoltageLevels().begin() != x->getVoltageLevels().end() && !c.s.chance(50)) continue;
                    for (const auto& l : x->getVoltageLevels()) {
                        gone.insert(l.getId());
                        for (const auto& k2 : l.getConnectables<iidm::Connectable>()) gone.insert(k2.getId());
                        for (const auto& k2 : l.getSwitches()) gone.insert(k2.getId());
                        if (l.getTopologyKind() == iidm::TopologyKind::BUS_BREAKER) for (const auto& k2 : l.getBusBreakerView().getBuses()) gone.insert(k2.getId());
                    }
                    if (w.leavesDangling(gone)) continue;
                    for (const auto& g : gone) if (n.find<iidm::HvdcConverterStation>(g) && n.get<iidm::HvdcConverterStation>(g).getHvdcLine()) gone.insert(n.get<iidm::HvdcConverterStation>(g).getHvdcLine().get().getId());
                    x->remove();
                } else c.fail("harness", "unknown kind of object " + id);
                done = true;
                for (const auto& g : gone) { all.erase(g); }
                c.note("remove " + id);
            } catch (const std::exception& e) {
                // something else must go first
                c.note("cannot remove " + id + " yet: " + e.what());
            }
        }
        if (!done) {
            // references between the new objects in a circle: nothing can be removed without the known defect
            for (const auto& a : all) c.check(!n.find<iidm::Bus>(a) || n.getConnectableCount<iidm::Connectable>() > 0, "cannot-remove", "bus " + a + " of " + what);
            return;
        }
    }
    c.nontrivial();
    c.label("created and removed");
    const std::string d = diffVariants(before, dumpVariants(n, model::ALL));
    c.check(d.empty(), "not-undone", "creation then removal of " + what + ":\n" + d);
    checkFreed(c, n, names, what);
}

// no object may keep a reference to the terminal of a removed one (compared by address only)
void dangling(pbt::Case& c, World& w, Network& n) {
    for (auto& g : n.getGenerators()) for (int k = 0; k < 3; ++k) if (c.s.chance(60)) w.extensionOn(g, ADD);
    w.o.danglingRemovals = true;
    w.o.wild = false;
    for (int tries = 0; tries < 6; ++tries) {
        const std::set<std::string> ids = idsOf(n);
        const auto refs = w.terminalReferences();
        w.removeOp(true);
        const Rec r = w.last;
        if (r.skipped || !r.accepted || r.removed.empty()) continue;
        std::set<const iidm::Terminal*> live;
        for (auto* t : w.terminals()) live.insert(t);
        auto check = [&](const std::string& kind, const std::string& holder, const iidm::Terminal* t) {
            if (t == nullptr) return;
            c.check(live.count(t) > 0, "dangling-" + kind, kind + " of " + holder + " refers to the terminal of a removed object after " + r.what + " " + r.id);
        };
        for (auto& g : n.getGenerators()) {
            check("generator", g.getId(), &g.getRegulatingTerminal());
            if (auto x = g.findExtension<iidm::extensions::iidm::RemoteReactivePowerControl>()) check("remote-reactive-power-control", g.getId(), &x.get().getRegulatingTerminal());
        }
        for (auto& g : n.getStaticVarCompensators()) check("static-var-compensator", g.getId(), &g.getRegulatingTerminal());
        for (auto& g : n.getShuntCompensators()) check("shunt-compensator", g.getId(), &g.getRegulatingTerminal());
        for (const TapSite& site : tapSites(w)) {
            if (site.ratio->hasRatioTapChanger() && site.ratio->getRatioTapChanger().getRegulationTerminal()) check("ratio-tap-changer", site.owner->getId(), &site.ratio->getRatioTapChanger().getRegulationTerminal().get());
            if (site.phase->hasPhaseTapChanger() && site.phase->getPhaseTapChanger().getRegulationTerminal()) check("phase-tap-changer", site.owner->getId(), &site.phase->getPhaseTapChanger().getRegulationTerminal().get());
        }
        auto& m = n.getVariantManager();
        const std::string working = m.getWorkingVariantId();
        for (auto& vl : n.getVoltageLevels()) {
            if (auto x = vl.findExtension<iidm::extensions::SlackTerminal>()) {
                for (const std::string& v : m.getVariantIds()) {
                    m.setWorkingVariant(v);
                    if (x.get().getTerminal()) check("slack-terminal", vl.getId(), &x.get().getTerminal().get());
                }
                m.setWorkingVariant(working);
            }
        }
        c.label("references checked");
        bool referred = false;
        for (const auto& p : refs) referred = referred || r.removed.count(p.second) > 0;
        c.nontrivial(referred);
    }
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C11";
    cfg.rule = "a random network (every kind of equipment, regulation, extensions, aliases, 0-5 variants with different states) on which objects of every kind are removed, with and without the conditions for it; "
               "the complete dump of all variants after each removal is compared with the one before without the removed objects, a refused removal with the identical dump, creations followed by removals in random order with the dump before them; "
               "freed names, nodes and buses are used again, and references to removed terminals are searched by address. Non-trivial: at least one object removed or one removal refused.";
    cfg.quick = 8000;
    cfg.thorough = 300000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"refused", "remove equipment", "remove switch", "remove bus", "remove HVDC line", "remove internal connections", "remove voltage level", "remove substation", "remove all switches",
                          "created and removed", "name reused", "node reused", "references checked"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Network n("n", "test");
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 10;
        o.extreme = false;
        o.nasty = false;
        o.extensions = true;
        World w(c, n, o);
        w.build();
        while (c.s.more(1)) w.variantOp();
        for (unsigned k = static_cast<unsigned>(c.s.draw(5)); k > 0; --k) w.set(true);
        for (unsigned k = static_cast<unsigned>(c.s.draw(4)); k > 0; --k) w.extension();
        for (unsigned k = static_cast<unsigned>(c.s.draw(3)); k > 0; --k) w.alias();
        const unsigned steps = 1 + static_cast<unsigned>(c.s.draw(6));
        for (unsigned i = 0; i < steps; ++i) {
            switch (c.s.weighted({8, 5, 1, 1})) {
                case 0:
                    w.o.wild = true;
                    w.o.wildPct = 0;
                    removal(c, w, n);
                    w.o.wild = false;
                    break;
                case 1: inverse(c, w, n); break;
                case 2: w.variantOp(); break;
                default: w.connectOp(); break;
            }
        }
        if (c.s.chance(25)) dangling(c, w, n);
    });
}
