// Switching, connections, identity data, variants and removals.
#include "gen.hpp"

#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>

namespace gen {

using namespace powsybl::iidm;

static std::string joinList(const std::vector<std::string>& in) {
    std::vector<std::string> v = in;
    std::sort(v.begin(), v.end());
    std::string o = "[";
    for (const auto& x : v) o += (o.size() > 1 ? "," : "") + x;
    return o + "]";
}

void World::switchOp() {
    last = Rec();
    auto v = switches();
    if (v.empty()) return;
    setOn(*v[s.draw(v.size())], true);
}

void World::connectOp() {
    last = Rec();
    auto v = terminals();
    if (v.empty()) return;
    Terminal* t = v[s.draw(v.size())];
    Rec r;
    const bool c = s.chance(55);
    r.what = std::string(c ? "connect " : "disconnect ") + model::termRef(*t);
    r.unspecified = true;
    r.state = true;
    attempt(r, [&]() { bool b = c ? t->connect() : t->disconnect(); r.what += b ? " = true" : " = false"; });
}

void World::setConnectableBus() {
    last = Rec();
    std::vector<Terminal*> v;
    for (Terminal* t : terminals()) if (t->getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) v.push_back(t);
    if (v.empty()) return;
    Terminal* t = v[s.draw(v.size())];
    std::vector<std::string> buses;
    for (const Bus& b : t->getVoltageLevel().getBusBreakerView().getBuses()) buses.push_back(b.getId());
    std::sort(buses.begin(), buses.end());
    Rec r;
    r.id = t->getConnectable().get().getId();
    std::string bus = wild() ? "missing" : s.pick(buses);
    if (bus == "missing") r.bad("unknown bus");
    else if (wild()) {
        for (Bus* b : configuredBuses()) if (&b->getVoltageLevel() != &t->getVoltageLevel()) { bus = b->getId(); r.bad("bus of another level"); break; }
    }
    r.what = "set connectable bus of " + model::termRef(*t) + " to " + bus + " for";
    const std::string k = prefixOf(t->getConnectable().get()) + ".t" + std::to_string(model::sideOf(*t)) + ".";
    r.exp[k + "connectableBus"] = bus;
    r.state = true;
    if (t->isConnected()) r.exp[k + "bus"] = bus;
    attempt(r, [&]() { t->getBusBreakerView().setConnectableBus(bus); });
}

void World::property() {
    last = Rec();
    auto v = identifiables();
    if (v.empty()) return;
    Identifiable* i = v[s.draw(v.size())];
    Rec r;
    r.id = i->getId();
    std::map<std::string, std::string> p;
    for (const std::string& k : i->getPropertyNames()) p[k] = i->getProperty(k);
    std::string k = s.chance(50) ? "key" + std::to_string(s.draw(3)) : word(), val = text();
    p[k] = val;
    std::vector<std::string> l;
    for (const auto& e : p) l.push_back(e.first + "=" + e.second);
    r.what = "set property " + k + "=" + val + " of";
    r.exp[prefixOf(*i) + ".properties"] = joinList(l);
    attempt(r, [&]() { i->setProperty(k, val); });
}

void World::alias() {
    last = Rec();
    auto v = identifiables();
    if (v.empty()) return;
    Identifiable* i = v[s.draw(v.size())];
    Rec r;
    r.id = i->getId();
    std::vector<std::string> l, current;
    for (const std::string& a : i->getAliases()) { current.push_back(a); l.push_back(a + "(" + i->getAliasType(a) + ")"); }
    std::sort(current.begin(), current.end());
    if (!current.empty() && s.chance(30)) {
        std::string a = s.pick(current);
        if (wild()) {
            a = "nothing";
            for (Identifiable* j : v) if (j != i) for (const std::string& x : j->getAliases()) a = x;
            r.bad("not an alias of this object");
        }
        r.what = "remove alias '" + a + "' from";
        if (r.ok) l.erase(std::find(l.begin(), l.end(), a + "(" + i->getAliasType(a) + ")"));
        r.exp[prefixOf(*i) + ".aliases"] = joinList(l);
        attempt(r, [&]() { i->removeAlias(a); });
        return;
    }
    std::string a;
    const bool ensure = s.chance(20);
    if (wild() || (ensure && s.chance(50))) {
        switch (s.draw(3)) {
            case 0: a = v[s.draw(v.size())]->getId(); break;
            case 1: { Identifiable* j = v[s.draw(v.size())]; for (const std::string& x : j->getAliases()) a = x; break; }
            default: if (!current.empty()) a = current[0]; break;
        }
    }
    if (a.empty()) a = newId("AL");
    std::string type = s.chance(40) ? (s.chance(50) ? "type" + std::to_string(s.draw(3)) : word()) : "";
    std::string expected = a;
    auto found = n.find<Identifiable>(a);
    bool same = found && &found.get() == i;
    if (ensure && found) {
        unsigned k = 0;
        while (n.find<Identifiable>(a + "#" + std::to_string(k))) ++k;
        expected = a + "#" + std::to_string(k);
        same = false;
    } else if (found && !same) r.bad("taken");
    if (!type.empty() && i->getAliasFromType(type)) r.bad("alias type taken");
    if (!same) l.push_back(expected + "(" + type + ")");
    r.what = "add alias '" + a + "' type '" + type + "'" + (ensure ? " ensured" : "") + " to";
    r.exp[prefixOf(*i) + ".aliases"] = joinList(l);
    // giving an object its own id or alias again changes nothing (whether it is reported is not specified when the type is given)
    if (same) r.unspecified = true;
    attempt(r, [&]() {
        if (ensure) i->addAlias(a, type, true);
        else if (type.empty()) i->addAlias(a);
        else if (s.chance(50)) i->addAlias(a, type);
        else i->addAlias(a, type.c_str());
    });
}

void World::variantOp() {
    last = Rec();
    auto& m = n.getVariantManager();
    std::set<std::string> idSet = m.getVariantIds();
    std::vector<std::string> ids(idSet.begin(), idSet.end());
    Rec r;
    r.state = true;
    const std::string working = m.getWorkingVariantId();
    switch (s.weighted({5, 8, 3})) {
        case 0: {
            const std::string src = s.pick(ids);
            if (ids.size() >= 5) return;
            std::vector<std::string> targets = {"v" + std::to_string(s.draw(6))};
            const bool over = s.chance(30);
            if (idSet.count(targets[0]) && (!over || targets[0] == src)) {
                if (!o.wild) return;
                if (!over) r.bad("variant exists"); else return;
            }
            r.what = "clone variant " + src + " to " + targets[0] + (over ? " (overwrite)" : "");
            attempt(r, [&]() { m.cloneVariant(src, targets[0], over); });
            break;
        }
        case 1: {
            const std::string v = s.pick(ids);
            r.what = "work on variant " + v;
            attempt(r, [&]() { m.setWorkingVariant(v); });
            break;
        }
        default: {
            const std::string v = s.pick(ids);
            if (v == VariantManager::getInitialVariantId()) return;
            r.what = "remove variant " + v;
            attempt(r, [&]() {
                m.removeVariant(v);
                if (v == working) m.setWorkingVariant(VariantManager::getInitialVariantId());
            });
            break;
        }
    }
}

std::set<std::pair<std::string, std::string>> World::terminalReferences() {
    std::set<std::pair<std::string, std::string>> r;
    auto add = [&r](const std::string& holder, const stdcxx::Reference<Terminal>& t) {
        if (!t) return;
        const std::string id = t.get().getConnectable().get().getId();
        if (id != holder) r.insert({holder, id});
    };
    for (auto& g : n.getGenerators()) {
        r.size();
        add(g.getId(), stdcxx::ref(g.getRegulatingTerminal()));
        if (auto x = g.findExtension<extensions::iidm::RemoteReactivePowerControl>()) add(g.getId(), stdcxx::ref(const_cast<Terminal&>(x.get().getRegulatingTerminal())));
    }
    for (auto& g : n.getStaticVarCompensators()) add(g.getId(), stdcxx::ref(g.getRegulatingTerminal()));
    for (auto& g : n.getShuntCompensators()) add(g.getId(), stdcxx::ref(g.getRegulatingTerminal()));
    for (const TapSite& site : tapSites(*this)) {
        if (site.ratio->hasRatioTapChanger()) add(site.owner->getId(), site.ratio->getRatioTapChanger().getRegulationTerminal());
        if (site.phase->hasPhaseTapChanger()) add(site.owner->getId(), site.phase->getPhaseTapChanger().getRegulationTerminal());
    }
    auto& m = n.getVariantManager();
    std::string working = m.getWorkingVariantId();
    for (auto& vl : n.getVoltageLevels()) {
        if (auto x = vl.findExtension<extensions::SlackTerminal>()) {
            for (const std::string& v : m.getVariantIds()) { m.setWorkingVariant(v); add(vl.getId(), x.get().getTerminal()); }
            m.setWorkingVariant(working);
        }
    }
    return r;
}

bool World::leavesDangling(const std::set<std::string>& removed) {
    for (const auto& p : terminalReferences()) if (removed.count(p.second) && !removed.count(p.first)) return true;
    return false;
}

void World::removeOp(bool containers) {
    last = Rec();
    Rec r;
    switch (s.weighted({12, 6, 4, 3, 3, containers ? 3u : 0u, containers ? 2u : 0u, 1})) {
        case 0: {
            auto v = connectables();
            if (v.empty()) return;
            Connectable* k = v[s.draw(v.size())];
            r.id = k->getId();
            r.what = "remove equipment";
            if (auto* st = dynamic_cast<HvdcConverterStation*>(k)) {
                if (st->getHvdcLine()) { if (!o.wild) return; r.bad("the station is used by an HVDC line"); }
            }
            r.removed.insert(r.id);
            if (!o.danglingRemovals && r.ok && leavesDangling(r.removed)) return;
            attempt(r, [&]() { k->remove(); });
            break;
        }
        case 1: {
            auto v = switches();
            if (v.empty()) return;
            Switch* x = v[s.draw(v.size())];
            VoltageLevel& vl = x->getVoltageLevel();
            r.id = x->getId();
            r.what = "remove switch";
            r.removed.insert(r.id);
            const std::string id = r.id;
            const bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
            attempt(r, [&]() { if (nb) vl.getNodeBreakerView().removeSwitch(id); else vl.getBusBreakerView().removeSwitch(id); });
            break;
        }
        case 2: {
            auto v = configuredBuses();
            if (v.empty()) return;
            Bus* b = v[s.draw(v.size())];
            VoltageLevel& vl = b->getVoltageLevel();
            r.id = b->getId();
            r.what = "remove bus";
            const std::string id = r.id;
            for (const Switch& x : vl.getBusBreakerView().getSwitches())
                if (vl.getBusBreakerView().getBus1(x.getId()).get().getId() == id || vl.getBusBreakerView().getBus2(x.getId()).get().getId() == id) r.bad("a switch uses the bus");
            const std::string w = n.getVariantManager().getWorkingVariantId();
            for (const std::string& variant : n.getVariantManager().getVariantIds()) {
                n.getVariantManager().setWorkingVariant(variant);
                for (Terminal* t : terminals())
                    if (&t->getVoltageLevel() == &vl && t->getBusBreakerView().getConnectableBus() && t->getBusBreakerView().getConnectableBus().get().getId() == id) r.bad(model::termRef(*t) + " uses the bus in variant " + variant);
            }
            n.getVariantManager().setWorkingVariant(w);
            if (!r.ok && !o.wild) return;
            r.removed.insert(id);
            attempt(r, [&]() { vl.getBusBreakerView().removeBus(id); });
            break;
        }
        case 3: {
            auto v = hvdcLines();
            if (v.empty()) return;
            HvdcLine* l = v[s.draw(v.size())];
            r.id = l->getId();
            r.what = "remove HVDC line";
            r.removed.insert(r.id);
            for (auto k : {l->getConverterStation1(), l->getConverterStation2()}) if (k) r.also.insert("eq:" + k.get().getId() + ".hvdcLine");
            attempt(r, [&]() { l->remove(); });
            break;
        }
        case 4: {
            std::vector<std::pair<VoltageLevel*, std::pair<unsigned long, unsigned long>>> v;
            for (VoltageLevel* vl : levels(1)) for (const auto& ic : vl->getNodeBreakerView().getInternalConnections()) v.push_back({vl, {ic.getNode1(), ic.getNode2()}});
            if (v.empty()) return;
            auto x = v[s.draw(v.size())];
            if (s.chance(50)) std::swap(x.second.first, x.second.second);
            r.what = "remove internal connections of " + x.first->getId() + " between " + std::to_string(x.second.first) + " and " + std::to_string(x.second.second);
            r.also.insert("vl:" + x.first->getId() + ".internalConnections");
            attempt(r, [&]() { x.first->getNodeBreakerView().removeInternalConnections(x.second.first, x.second.second); });
            break;
        }
        case 5: {
            auto v = levels();
            if (v.empty()) return;
            VoltageLevel* vl = v[s.draw(v.size())];
            r.id = vl->getId();
            r.what = "remove voltage level";
            r.removed.insert(r.id);
            for (const Connectable& k : vl->getConnectables<Connectable>()) {
                r.removed.insert(k.getId());
                if (k.getTerminals().size() > 1) r.bad("branch " + k.getId());
                if (auto* st = dynamic_cast<const HvdcConverterStation*>(&k)) if (st->getHvdcLine()) r.bad("HVDC line of " + k.getId());
            }
            for (const Switch& x : vl->getSwitches()) r.removed.insert(x.getId());
            if (vl->getTopologyKind() == TopologyKind::BUS_BREAKER) for (const Bus& b : vl->getBusBreakerView().getBuses()) r.removed.insert(b.getId());
            if (!r.ok && !o.wild) return;
            if (!o.danglingRemovals && leavesDangling(r.removed)) return;
            attempt(r, [&]() { vl->remove(); });
            break;
        }
        case 6: {
            auto v = substations();
            if (v.empty()) return;
            Substation* sub = v[s.draw(v.size())];
            r.id = sub->getId();
            r.what = "remove substation";
            r.removed.insert(r.id);
            for (const VoltageLevel& vl : sub->getVoltageLevels()) {
                r.removed.insert(vl.getId());
                for (const Connectable& k : vl.getConnectables<Connectable>()) {
                    r.removed.insert(k.getId());
                    for (const auto& t : k.getTerminals()) if (&t.get().getVoltageLevel().getSubstation() != sub) r.bad("branch " + k.getId() + " to outside");
                    if (auto* st = dynamic_cast<const HvdcConverterStation*>(&k)) if (st->getHvdcLine()) {
                        const HvdcLine& l = st->getHvdcLine().get();
                        r.removed.insert(l.getId());
                        for (auto* x : {&l.getConverterStation1().get(), &l.getConverterStation2().get()}) if (&x->getTerminal().getVoltageLevel().getSubstation() != sub) r.bad("HVDC line " + l.getId() + " to outside");
                    }
                }
                for (const Switch& x : vl.getSwitches()) r.removed.insert(x.getId());
                if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) for (const Bus& b : vl.getBusBreakerView().getBuses()) r.removed.insert(b.getId());
            }
            if (!r.ok && !o.wild) return;
            if (!o.danglingRemovals && leavesDangling(r.removed)) return;
            attempt(r, [&]() { sub->remove(); });
            break;
        }
        default: {
            auto v = levels(2);
            if (v.empty()) return;
            VoltageLevel* vl = v[s.draw(v.size())];
            if (s.chance(60)) {
                r.what = "remove all switches of " + vl->getId();
                for (const Switch& x : vl->getBusBreakerView().getSwitches()) r.removed.insert(x.getId());
                attempt(r, [&]() { vl->getBusBreakerView().removeAllSwitches(); });
            } else {
                r.what = "remove all buses of " + vl->getId();
                if (vl->getBusBreakerView().getSwitchCount() > 0) r.bad("switches remain");
                if (vl->getConnectableCount<Connectable>() > 0) r.bad("equipment remains");
                if (!r.ok && !o.wild) return;
                for (const Bus& x : vl->getBusBreakerView().getBuses()) r.removed.insert(x.getId());
                attempt(r, [&]() { vl->getBusBreakerView().removeAllBuses(); });
            }
        }
    }
}

}  // namespace gen
