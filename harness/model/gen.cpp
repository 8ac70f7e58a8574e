#include "gen.hpp"

#include <algorithm>
#include <cmath>
#include <limits>

namespace gen {

using namespace powsybl::iidm;
using pbt::hex;

static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double INF = std::numeric_limits<double>::infinity();

bool kindOk(K k, double v) {
    switch (k) {
        case FIN: return !std::isnan(v);
        case FIN_N: return true;
        case POS: return v > 0;
        case POS_N: return std::isnan(v) || v > 0;
        case NONNEG: return v >= 0;
        case NONNEG_N: return std::isnan(v) || v >= 0;
        case PCT: return v >= 0 && v <= 100;
        case UNIT: return std::abs(v) <= 1;
    }
    return false;
}

static double magnitude(Src& s, bool extreme) {
    switch (s.weighted({30, 25, 20, 15, extreme ? 10u : 0u})) {
        case 0: return static_cast<double>(s.draw(11));
        case 1: return static_cast<double>(s.draw(4001)) * 0.1;
        case 2: return static_cast<double>(1 + s.draw(999)) * std::pow(10.0, static_cast<double>(s.range(-6, 6)));
        case 3: {
            // full precision
            uint64_t m = s.draw(1ULL << 53);
            return std::ldexp(static_cast<double>(m), static_cast<int>(s.range(-53, -40)));
        }
        default: return s.pickOf({1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e16, 9007199254740993.0, 123456789.123456789, 1e21, 1.0 / 3.0, 0.1 + 0.2, 4.35, 1e-5, 123456.7, 1e100, 2147483648.0, 99999.999999999985});
    }
}

double World::num(K k) {
    for (int i = 0; i < 4; ++i) {
        double v;
        const bool allowNan = k == FIN_N || k == POS_N || k == NONNEG_N;
        if (allowNan && s.chance(20)) return NaN;
        if (k == UNIT) return static_cast<double>(s.range(-100, 100)) / 100.0;
        if (k == PCT) return static_cast<double>(s.draw(1001)) / 10.0;
        v = magnitude(s, o.extreme);
        if ((k == FIN || k == FIN_N) && s.chance(35)) v = -v;
        if (o.infinite && s.chance(2)) v = v < 0 ? -INF : INF;
        if ((k == POS || k == POS_N) && v <= 0) v = 1;
        return v;
    }
    return 1;
}

double World::num(Rec& r, K k, const std::string& what, const std::vector<double>& hints) {
    double v;
    if (!hints.empty() && s.chance(30)) {
        v = hints[s.draw(hints.size())];
        switch (s.draw(4)) {
            case 1: v = std::nextafter(v, INF); break;
            case 2: v = std::nextafter(v, -INF); break;
            default: break;
        }
        if (!o.wild && !kindOk(k, v)) v = num(k);
    } else if (wild()) {
        v = s.pickOf({NaN, -1.0, 0.0, -0.0, 101.0, -0.5, 1.5, 1e9, INF, -INF, -5e-324, 100.5});
    } else v = num(k);
    if (!kindOk(k, v)) r.bad(what + "=" + pbt::show(v));
    return v;
}

const std::vector<std::string>& textPool() {
    static const std::vector<std::string> p = {
        "name", "", "a b", "x<y>&\"z\"'", "\xc3\xa9\xc3\xa0\xc3\xbc", " lead", "trail ", "\xe9\x9b\xbb\xe5\x8a\x9b", "a;b,c=d", "tab\there", "line\nbreak", "]]>", "&amp;", "%1% %2%", "\xf0\x9f\x94\x8c", "0", "true", "#0", "a\\b", "  ", "NaN",
        "long-text-long-text-long-text-long-text-long-text-long-text-long-text-long-text-long-text-long-text-long-text"};
    return p;
}
const std::vector<std::string>& idPool() {
    static const std::vector<std::string> p = {"", " x", "&<>", "\"'", "\xc3\xa9", "#0", "_0", " ", "a b", "\xe9\x9b\xbb", "%1%", "%", "50% ", "%s", "\xf0\x9f\x94\x8c", "]]>", ".", "/", ";", "::", "\\"};
    return p;
}
std::string World::text() { return o.nasty ? s.pick(textPool()) : (s.chance(50) ? "name" + std::to_string(s.draw(5)) : std::string()); }
std::string World::word() { std::string t = text(); return t.empty() ? "w" : t; }
std::string World::newId(const std::string& prefix) {
    std::string id = prefix + std::to_string(counter++);
    if (o.specialIds && s.chance(40)) id += s.pick(idPool());
    return id;
}

static bool hasObject(Network& n, const std::string& id) { return static_cast<bool>(n.find<Identifiable>(id)); }

template <typename A> void World::ident(A& a, Rec& r, const std::string& type, const std::string& prefix) {
    r.what = "new " + prefix;
    std::string id;
    bool unset = false, taken = false, ensure = s.chance(10);
    if (o.wild && s.chance(o.wildPct + 4)) {
        switch (s.draw(3)) {
            case 0: unset = true; break;
            case 1: {
                auto v = identifiables();
                if (!v.empty()) id = v[s.draw(v.size())]->getId();
                break;
            }
            default: {
                for (auto* i : identifiables()) for (const auto& al : i->getAliases()) { id = al; }
                break;
            }
        }
    }
    if (id.empty() && !unset) id = newId(prefix);
    if (unset) { r.bad("id not set"); }
    else {
        a.setId(id);
        taken = hasObject(n, id);
        if (taken) {
            if (!ensure) r.bad("id taken: " + id);
            else {
                unsigned k = 0;
                while (hasObject(n, id + "#" + std::to_string(k))) ++k;
                id += "#" + std::to_string(k);
            }
        }
        if (ensure) a.setEnsureIdUnicity(true);
    }
    r.id = id;
    r.prefix = type + id;
    r.e("id", id);
    if (s.chance(30)) {
        std::string name = text();
        a.setName(name);
        r.e("name", name);
        r.e("nameOrId", name.empty() ? id : name);
    } else { r.e("name", ""); r.e("nameOrId", id); }
    bool f = s.chance(15);
    if (f) a.setFictitious(true);
    r.e("fictitious", f);
    r.e("aliases", "[]");
    r.e("properties", "[]");
}

// ---------------------------------------------------------------- objects

template <typename T, typename R> static std::vector<T*> collect(R&& range) {
    std::vector<T*> v;
    for (auto& x : range) v.push_back(&x);
    return v;
}
std::vector<Substation*> World::substations() { return sortedById(collect<Substation>(n.getSubstations())); }
std::vector<VoltageLevel*> World::levels(int kind) {
    std::vector<VoltageLevel*> v;
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
        if (kind == 0 || (kind == 1) == nb) v.push_back(&vl);
    }
    return sortedById(v);
}
std::vector<Connectable*> World::connectables() { return all<Connectable>(); }
std::vector<Terminal*> World::terminals() {
    std::vector<Terminal*> v;
    for (Connectable* k : connectables()) for (Terminal& t : k->getTerminals()) v.push_back(&t);
    return v;
}
std::vector<Switch*> World::switches() { return sortedById(collect<Switch>(n.getSwitches())); }
std::vector<Bus*> World::configuredBuses() {
    std::vector<Bus*> v;
    for (VoltageLevel* vl : levels(2)) for (Bus& b : vl->getBusBreakerView().getBuses()) v.push_back(&b);
    return sortedById(v);
}
std::vector<HvdcLine*> World::hvdcLines() { return sortedById(collect<HvdcLine>(n.getHvdcLines())); }
std::vector<Identifiable*> World::identifiables() { return sortedById(collect<Identifiable>(n.getIdentifiables())); }
std::vector<unsigned long> World::nodesOf(VoltageLevel& vl) {
    std::vector<unsigned long> v;
    for (unsigned long x : vl.getNodeBreakerView().getNodes()) v.push_back(x);
    std::sort(v.begin(), v.end());
    return v;
}

// ---------------------------------------------------------------- attempts

void World::attempt(Rec& r, const std::function<void()>& fn) {
    r.skipped = false;
    try {
        fn();
        r.accepted = true;
    } catch (const PowsyblException& e) {
        r.error = e.what();
    } catch (const powsybl::AssertionError& e) {
        r.error = e.what();
    } catch (const pbt::Failure&) {
        throw;
    } catch (const pbt::Discard&) {
        throw;
    } catch (const std::exception& e) {
        r.error = std::string("NOT A LIBRARY EXCEPTION: ") + e.what();
        r.otherException = true;
    }
    if (r.accepted) ++accepted; else ++refused;
    if (!r.unspecified && r.accepted != r.ok) ++mismatched;
    c.note(r.what + (r.id.empty() ? "" : " '" + r.id + "'") + (r.accepted ? "" : " -> refused: " + r.error.substr(0, 160)) + (r.unspecified || r.accepted == r.ok ? "" : r.ok ? " [should be accepted]" : " [should be refused: " + r.why + "]"));
    last = r;
}
void World::requirePrediction(const std::string& key) {
    const Rec& r = last;
    if (r.skipped || r.unspecified) return;
    if (r.otherException) c.fail(key + ":exception-type", r.what + " '" + r.id + "': " + r.error);
    if (r.accepted && !r.ok) c.fail(key + ":accepted-invalid", r.what + " '" + r.id + "' is accepted although " + r.why);
    if (!r.accepted && r.ok) c.fail(key + ":refused-valid", r.what + " '" + r.id + "' is refused: " + r.error);
    c.compared();
}

// ---------------------------------------------------------------- places

World::Place World::place(Rec& r, VoltageLevel& vl, const std::vector<Place>& used) {
    Place p;
    p.vl = &vl;
    const bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
    if (nb) {
        auto taken = [&](unsigned long x) {
            for (const auto& u : used) if (u.vl == &vl && u.node && *u.node == x) return true;
            return false;
        };
        if (wild()) {
            switch (s.draw(4)) {
                case 0: r.bad("no node"); return p;
                case 1: p.bus = "B"; r.bad("bus given in a node/breaker level"); return p;
                case 2: p.bus = "B"; p.node = 0; r.bad("bus and node given"); return p;
                default: {
                    std::vector<unsigned long> occ;
                    for (unsigned long x : nodesOf(vl)) if (vl.getNodeBreakerView().getOptionalTerminal(x)) occ.push_back(x);
                    for (const auto& u : used) if (u.vl == &vl && u.node) occ.push_back(*u.node);
                    if (!occ.empty()) { p.node = s.pick(occ); r.bad("node " + std::to_string(*p.node) + " occupied"); return p; }
                }
            }
        }
        std::vector<unsigned long> free;
        auto nodes = nodesOf(vl);
        for (unsigned long x : nodes) if (!vl.getNodeBreakerView().getOptionalTerminal(x) && !taken(x)) free.push_back(x);
        unsigned long next = nodes.empty() ? 0 : nodes.back() + 1;
        if (!free.empty() && !s.chance(20)) p.node = s.pick(free);
        else {
            unsigned long x = next + (s.chance(20) ? s.draw(5) : 0);
            while (taken(x)) ++x;
            p.node = x;
        }
    } else {
        std::vector<std::string> buses;
        for (const Bus& b : vl.getBusBreakerView().getBuses()) buses.push_back(b.getId());
        std::sort(buses.begin(), buses.end());
        if (buses.empty()) {
            r.bad("no bus in the level");
            if (s.chance(50)) p.bus = "missing";
            return p;
        }
        if (wild()) {
            switch (s.draw(5)) {
                case 0: r.bad("no bus"); return p;
                case 1: p.bus = "missing"; r.bad("unknown bus"); return p;
                case 2: p.node = 0; r.bad("node given in a bus/breaker level"); return p;
                case 3: p.bus = buses[0]; p.cbus = buses.size() > 1 ? buses[1] : std::string("zz"); r.bad("bus and connectable bus differ"); return p;
                default: {
                    // a bus of another level
                    for (VoltageLevel* v2 : levels(2)) if (v2 != &vl) for (const Bus& b : v2->getBusBreakerView().getBuses()) { p.bus = b.getId(); r.bad("bus of another level"); return p; }
                }
            }
        }
        const std::string& b = s.pick(buses);
        switch (s.weighted({4, 3, 3})) {
            case 0: p.bus = b; p.cbus = b; break;
            case 1: p.bus = b; break;
            default: p.cbus = b; break;
        }
    }
    return p;
}
void World::expectPlace(Rec& r, const Place& p, unsigned side) {
    const std::string t = "t" + std::to_string(side) + ".";
    r.e(t + "vl", p.vl->getId());
    r.e(t + "p", NaN);
    r.e(t + "q", NaN);
    if (p.node) r.e(t + "node", *p.node);
    else {
        r.e(t + "connected", !p.bus.empty());
        r.e(t + "bus", p.bus.empty() ? std::string("none") : p.bus);
        r.e(t + "connectableBus", p.bus.empty() ? p.cbus : p.bus);
    }
}
template <typename A> static void placeInjection(A& a, const World::Place& p) {
    if (p.node) a.setNode(*p.node);
    if (!p.bus.empty()) a.setBus(p.bus);
    if (!p.cbus.empty()) a.setConnectableBus(p.cbus);
}
template <typename A> static void placeBranch(A& a, const World::Place& p, unsigned side) {
    if (side == 1) {
        if (p.node) a.setNode1(*p.node);
        if (!p.bus.empty()) a.setBus1(p.bus);
        if (!p.cbus.empty()) a.setConnectableBus1(p.cbus);
    } else {
        if (p.node) a.setNode2(*p.node);
        if (!p.bus.empty()) a.setBus2(p.bus);
        if (!p.cbus.empty()) a.setConnectableBus2(p.cbus);
    }
}

stdcxx::Reference<Terminal> World::regTerminal(Rec& r, bool* foreign) {
    if (other && wild()) {
        for (auto& k : other->getConnectables<Connectable>()) {
            if (foreign) *foreign = true;
            r.bad("regulating terminal of another network");
            return stdcxx::ref<Terminal>(k.getTerminals().front().get());
        }
    }
    if (!o.remoteRegulation) return stdcxx::Reference<Terminal>();
    auto v = terminals();
    if (v.empty() || s.chance(50)) return stdcxx::Reference<Terminal>();
    return stdcxx::ref(*v[s.draw(v.size())]);
}

// ---------------------------------------------------------------- creation

void World::addSubstation() {
    Rec r;
    auto a = n.newSubstation();
    ident(a, r, "sub:", "S");
    if (s.chance(60)) {
        auto country = s.pickOf({Country::FR, Country::BE, Country::DE, Country::AQ, Country::AF});
        a.setCountry(country);
        r.e("country", std::to_string(static_cast<int>(country)));
    } else r.e("country", "none");
    if (s.chance(50)) { std::string t = text(); a.setTso(t); r.e("tso", t); } else r.e("tso", "");
    std::set<std::string> tags;
    while (s.more(1) && tags.size() < 4) { std::string t = word(); if (t.find(',') != std::string::npos) continue; a.addGeographicalTag(t); tags.insert(t); }
    std::string j = "[";
    for (const auto& t : tags) j += (j.size() > 1 ? "," : "") + t;
    r.e("tags", j + "]");
    attempt(r, [&]() { r.accepted = a.add().getId() == r.id; });
}

void World::addVoltageLevel(Substation& sub, int kind) {
    Rec r;
    auto a = sub.newVoltageLevel();
    ident(a, r, "vl:", "V");
    r.e("substation", sub.getId());
    double v = num(r, POS, "nominalV");
    a.setNominalV(v);
    r.e("nominalV", v);
    double lo = NaN, hi = NaN;
    if (s.chance(40)) { lo = num(r, NONNEG_N, "lowVoltageLimit"); a.setLowVoltageLimit(lo); }
    if (s.chance(40)) {
        if (o.wild) hi = num(r, NONNEG_N, "highVoltageLimit", {lo});
        else { hi = num(NONNEG_N); if (!std::isnan(lo)) hi += lo; }
        a.setHighVoltageLimit(hi);
        if (!kindOk(NONNEG_N, hi)) r.bad("highVoltageLimit");
    }
    if (lo > hi) r.bad("low limit above high limit");
    r.e("lowVoltageLimit", lo);
    r.e("highVoltageLimit", hi);
    if (wild()) r.bad("topology kind not set");
    else {
        if (kind == 0) kind = o.kind;
        if (kind == 0) kind = s.chance(50) ? 1 : 2;
        auto k = kind == 1 ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER;
        a.setTopologyKind(k);
        r.e("topologyKind", static_cast<int>(k));
    }
    attempt(r, [&]() { a.add(); });
}

void World::addBus(VoltageLevel& vl) {
    Rec r;
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        if (!o.wild) return;
        r.what = "bus in a node/breaker level";
        r.bad("node/breaker level");
        attempt(r, [&]() { vl.getBusBreakerView().newBus().setId("zz").add(); });
        return;
    }
    auto a = vl.getBusBreakerView().newBus();
    ident(a, r, "bus:", "B");
    r.e("vl", vl.getId());
    r.e("v", NaN);
    r.e("angle", NaN);
    attempt(r, [&]() { a.add(); });
}

void World::addBusbarSection(VoltageLevel& vl) {
    Rec r;
    if (vl.getTopologyKind() != TopologyKind::NODE_BREAKER) {
        if (!o.wild) return;
        r.what = "busbar section in a bus/breaker level";
        r.bad("bus/breaker level");
        attempt(r, [&]() { vl.getNodeBreakerView().newBusbarSection().setId("zz").setNode(0).add(); });
        return;
    }
    auto a = vl.getNodeBreakerView().newBusbarSection();
    ident(a, r, "eq:", "BBS");
    Rec tmp;
    Place p = place(tmp, vl);
    if (!tmp.ok && (!p.node || !p.bus.empty())) { p = Place(); p.vl = &vl; r.bad("node not set"); }
    else if (!tmp.ok) {
        if (!o.knownDefects) return;  // leaves a ghost (known finding)
        r.bad(tmp.why);
        r.knownDefect = "busbar-section-on-occupied-node";
    }
    if (p.node) { a.setNode(*p.node); }
    expectPlace(r, p, 1);
    attempt(r, [&]() { a.add(); });
}

void World::addSwitch(VoltageLevel& vl) {
    Rec r;
    bool open = s.chance(35);
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        auto nodes = nodesOf(vl);
        unsigned long next = nodes.empty() ? 0 : nodes.back() + 1;
        int how = static_cast<int>(s.draw(3));
        auto a = how == 0 ? vl.getNodeBreakerView().newSwitch() : how == 1 ? vl.getNodeBreakerView().newBreaker() : vl.getNodeBreakerView().newDisconnector();
        ident(a, r, "sw:", "SW");
        r.e("vl", vl.getId());
        // kinds preset by the shortcuts
        SwitchKind kind = how == 1 ? SwitchKind::BREAKER : SwitchKind::DISCONNECTOR;
        bool retained = false;
        if (how == 0) {
            if (wild()) r.bad("kind not set");
            else { kind = s.pickOf({SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH}); a.setKind(kind); }
        }
        r.e("kind", static_cast<int>(kind));
        if (s.chance(40)) { retained = s.chance(50); a.setRetained(retained); }
        r.e("retained", retained);
        auto node = [&](unsigned long avoid, bool hasAvoid) {
            for (int k = 0; k < 3; ++k) {
                unsigned long x = nodes.empty() || s.chance(25) ? next + s.draw(3) : nodes[s.draw(nodes.size())];
                if (!hasAvoid || x != avoid || o.selfLoops) return x;
            }
            return std::max(next, avoid + 1);
        };
        unsigned long n1 = node(0, false), n2 = node(n1, true);
        if (wild()) r.bad("node1 not set"); else a.setNode1(n1);
        if (wild()) r.bad("node2 not set"); else a.setNode2(n2);
        a.setOpen(open);
        r.e("open", open);
        r.e("nodes", std::to_string(n1) + "-" + std::to_string(n2));
        r.what += " " + std::to_string(n1) + "-" + std::to_string(n2) + (open ? " open" : " closed") + (retained ? " retained" : "") + " in " + vl.getId();
        attempt(r, [&]() { a.add(); });
        if (r.accepted && s.chance(0)) last.also.clear();
    } else {
        std::vector<std::string> buses;
        for (const Bus& b : vl.getBusBreakerView().getBuses()) buses.push_back(b.getId());
        std::sort(buses.begin(), buses.end());
        if (buses.size() < 2 && !o.wild) return;
        auto a = vl.getBusBreakerView().newSwitch();
        ident(a, r, "sw:", "SW");
        r.e("vl", vl.getId());
        auto bus = [&](const char* w) -> std::string {
            if (wild() || buses.empty()) { r.bad(std::string(w) + " unknown or not set"); return s.chance(50) ? "missing" : ""; }
            return s.pick(buses);
        };
        std::string b1 = bus("bus1"), b2 = bus("bus2");
        if (b1 == b2 && !o.selfLoops && buses.size() > 1 && r.ok) { for (const auto& b : buses) if (b != b1) b2 = b; }
        if (b1 == b2 && r.ok && !o.selfLoops) return;
        if (!b1.empty()) a.setBus1(b1);
        if (!b2.empty()) a.setBus2(b2);
        a.setOpen(open);
        r.e("open", open);
        r.e("retained", true);
        r.e("kind", static_cast<int>(SwitchKind::BREAKER));
        r.e("buses", b1 + "-" + b2);
        r.what += " " + b1 + "-" + b2 + (open ? " open" : " closed") + " in " + vl.getId();
        attempt(r, [&]() { a.add(); });
    }
}

void World::addInternalConnection(VoltageLevel& vl) {
    if (vl.getTopologyKind() != TopologyKind::NODE_BREAKER) return;
    Rec r;
    auto nodes = nodesOf(vl);
    unsigned long next = nodes.empty() ? 0 : nodes.back() + 1;
    auto a = vl.getNodeBreakerView().newInternalConnection();
    unsigned long n1 = nodes.empty() || s.chance(20) ? next + s.draw(3) : nodes[s.draw(nodes.size())];
    unsigned long n2 = nodes.empty() || s.chance(20) ? next + s.draw(3) : nodes[s.draw(nodes.size())];
    if (n1 == n2 && !o.selfLoops) n2 = std::max(next, n1 + 1);
    if (wild()) r.bad("node1 not set"); else a.setNode1(n1);
    if (wild()) r.bad("node2 not set"); else a.setNode2(n2);
    r.what = "internal connection " + std::to_string(n1) + "-" + std::to_string(n2) + " in " + vl.getId();
    attempt(r, [&]() { a.add(); });
}

static void reactiveDefault(Rec& r, const std::string& p = "") {
    r.e(p + "reactiveLimits", "minmax " + hex(-std::numeric_limits<double>::max()) + " " + hex(std::numeric_limits<double>::max()));
}

void World::addLoad(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newLoad();
    ident(a, r, "eq:", "L");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    auto type = LoadType::UNDEFINED;
    if (s.chance(60)) { type = s.pickOf({LoadType::UNDEFINED, LoadType::AUXILIARY, LoadType::FICTITIOUS}); a.setLoadType(type); }
    r.e("loadType", static_cast<int>(type));
    double p0 = num(r, FIN, "p0"), q0 = num(r, FIN, "q0");
    if (wild()) r.bad("p0 not set"); else a.setP0(p0);
    if (wild()) r.bad("q0 not set"); else a.setQ0(q0);
    r.e("p0", p0);
    r.e("q0", q0);
    attempt(r, [&]() { a.add(); });
}

void World::addGenerator(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newGenerator();
    ident(a, r, "eq:", "G");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    auto src = EnergySource::OTHER;
    if (s.chance(60)) { src = s.pickOf({EnergySource::HYDRO, EnergySource::NUCLEAR, EnergySource::WIND, EnergySource::THERMAL, EnergySource::SOLAR, EnergySource::OTHER}); a.setEnergySource(src); }
    r.e("energySource", static_cast<int>(src));
    double mn = num(r, FIN, "minP"), mx = o.wild ? num(r, FIN, "maxP", {mn}) : mn + num(NONNEG);
    if (!kindOk(FIN, mx)) r.bad("maxP");
    if (mn > mx) r.bad("minP > maxP");
    if (wild()) r.bad("minP not set"); else a.setMinP(mn);
    if (wild()) r.bad("maxP not set"); else a.setMaxP(mx);
    r.e("minP", mn);
    r.e("maxP", mx);
    bool on = s.chance(o.regulation ? 50 : 0);
    double v = num(r, on ? POS : FIN_N, "targetV"), q = num(r, on ? FIN_N : FIN, "targetQ"), pp = num(r, FIN, "targetP");
    if (wild()) r.bad("regulator not set"); else a.setVoltageRegulatorOn(on);
    bool alias = s.chance(50);
    if (wild()) r.bad("targetP not set"); else if (alias) a.setTargetP(pp); else a.setActivePowerSetpoint(pp);
    if (alias) { a.setTargetV(v); a.setTargetQ(q); } else { a.setVoltageSetpoint(v); a.setReactivePowerSetpoint(q); }
    r.e("voltageRegulatorOn", on);
    r.e("targetP", pp);
    r.e("targetV", v);
    r.e("targetQ", q);
    double rs = NaN;
    if (s.chance(40)) { rs = num(r, POS_N, "ratedS"); a.setRatedS(rs); }
    r.e("ratedS", rs);
    auto t = regTerminal(r);
    if (t) a.setRegulatingTerminal(t);
    r.e("regulatingTerminal", t && r.ok ? model::termRef(t.get()) : r.id + "#1");
    reactiveDefault(r);
    attempt(r, [&]() { a.add(); });
}

void World::addBattery(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newBattery();
    ident(a, r, "eq:", "BAT");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    double mn = num(r, FIN, "minP"), mx = o.wild ? num(r, FIN, "maxP", {mn}) : mn + num(NONNEG);
    if (mn > mx) r.bad("minP > maxP");
    double p0 = num(r, FIN, "p0"), q0 = num(r, FIN, "q0");
    a.setMinP(mn).setMaxP(mx);
    if (wild()) r.bad("p0 not set"); else a.setP0(p0);
    a.setQ0(q0);
    r.e("minP", mn); r.e("maxP", mx); r.e("p0", p0); r.e("q0", q0);
    reactiveDefault(r);
    attempt(r, [&]() { a.add(); });
}

void World::addShunt(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newShuntCompensator();
    ident(a, r, "eq:", "SH");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    unsigned long max = 0;
    bool linear = s.chance(55);
    Rec sub;  // the model adder refuses early
    std::string sections;
    if (wild()) r.bad("no model");
    else if (linear) {
        auto m = a.newLinearModel();
        double b = num(sub, FIN, "bPerSection"), g = num(sub, FIN_N, "gPerSection");
        max = o.wild && s.chance(10) ? 0 : 1 + s.draw(10);
        if (!max) sub.bad("maximum section count 0");
        m.setBPerSection(b).setMaximumSectionCount(max);
        if (s.chance(70)) m.setGPerSection(g); else g = NaN;
        r.e("bPerSection", b);
        r.e("gPerSection", g);
        r.what += " (linear)";
        if (!sub.ok) {
            sub.what = r.what + " model of";
            sub.id = r.id;
            attempt(sub, [&]() { m.add(); });
            return;
        }
        try { m.add(); } catch (const PowsyblException& e) { r.error = e.what(); sub.what = r.what; attempt(sub, [&]() { throw PowsyblException(r.error); }); return; }
        r.e("modelType", static_cast<int>(ShuntCompensatorModelType::LINEAR));
    } else {
        auto m = a.newNonLinearModel();
        unsigned long count = o.wild && s.chance(8) ? 0 : 1 + s.draw(4);
        if (!count) sub.bad("no section");
        double prev = 0;
        sub.what = r.what + " (non linear) model of";
        sub.id = r.id;
        std::string err;
        try {
            for (unsigned long k = 0; k < count; ++k) {
                double b = num(sub, FIN, "b"), g = num(FIN_N);
                auto section = m.beginSection();
                section.setB(b);
                if (s.chance(70)) section.setG(g); else g = NaN;
                if (std::isnan(g)) g = prev;
                prev = g;
                sections += "(" + hex(b) + " " + hex(g) + ")";
                if (!std::isnan(b)) section.endSection();
                else { try { section.endSection(); } catch (const PowsyblException& e) { throw; } }
            }
            m.add();
        } catch (const PowsyblException& e) {
            err = e.what();
        }
        if (!err.empty() || !sub.ok) {
            attempt(sub, [&]() { if (!err.empty()) throw PowsyblException(err); });
            return;
        }
        max = count;
        r.e("sections", sections);
        r.e("modelType", static_cast<int>(ShuntCompensatorModelType::NON_LINEAR));
        r.what += " (non linear)";
    }
    r.e("maxSections", max);
    unsigned long n0 = max ? s.draw(max + 1) : 0;
    if (wild()) { n0 = max + 1 + s.draw(2); }
    if (n0 > max && max) r.bad("section count above maximum");
    if (wild()) r.bad("section count not set"); else a.setSectionCount(n0);
    r.e("sectionCount", n0);
    bool on = s.chance(o.regulation ? 35 : 0);
    double v = num(r, on ? POS : FIN_N, "targetV"), d = num(r, on ? NONNEG : NONNEG_N, "targetDeadband");
    a.setVoltageRegulatorOn(on).setTargetV(v).setTargetDeadband(d);
    r.e("voltageRegulatorOn", on);
    r.e("targetV", v);
    r.e("targetDeadband", d);
    auto t = regTerminal(r);
    if (t) a.setRegulatingTerminal(t);
    r.e("regulatingTerminal", t && r.ok ? model::termRef(t.get()) : r.id + "#1");
    attempt(r, [&]() { a.add(); });
}

void World::addSvc(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newStaticVarCompensator();
    ident(a, r, "eq:", "SVC");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    double bn = num(r, FIN, "bMin"), bx = num(r, FIN, "bMax");
    if (wild()) r.bad("bMin not set"); else a.setBmin(bn);
    if (wild()) r.bad("bMax not set"); else a.setBmax(bx);
    r.e("bMin", bn); r.e("bMax", bx);
    auto mode = s.pickOf({StaticVarCompensator::RegulationMode::OFF, StaticVarCompensator::RegulationMode::VOLTAGE, StaticVarCompensator::RegulationMode::REACTIVE_POWER});
    if (!o.regulation) mode = StaticVarCompensator::RegulationMode::OFF;
    double v = num(r, mode == StaticVarCompensator::RegulationMode::VOLTAGE ? FIN : FIN_N, "voltageSetpoint");
    double q = num(r, mode == StaticVarCompensator::RegulationMode::REACTIVE_POWER ? FIN : FIN_N, "reactivePowerSetpoint");
    if (wild()) r.bad("mode not set"); else a.setRegulationMode(mode);
    a.setVoltageSetpoint(v).setReactivePowerSetpoint(q);
    r.e("regulationMode", static_cast<int>(mode));
    r.e("voltageSetpoint", v);
    r.e("reactivePowerSetpoint", q);
    auto t = regTerminal(r);
    if (t) a.setRegulatingTerminal(t);
    r.e("regulatingTerminal", t && r.ok ? model::termRef(t.get()) : r.id + "#1");
    attempt(r, [&]() { a.add(); });
}

void World::addDanglingLine(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newDanglingLine();
    ident(a, r, "eq:", "DL");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    double p0 = num(r, FIN, "p0"), q0 = num(r, FIN, "q0"), rr = num(r, FIN, "r"), x = num(r, FIN, "x"), g = num(r, FIN, "g"), b = num(r, FIN, "b");
    a.setP0(p0).setQ0(q0).setR(rr).setX(x).setG(g).setB(b);
    r.e("p0", p0); r.e("q0", q0); r.e("r", rr); r.e("x", x); r.e("g", g); r.e("b", b);
    if (s.chance(50)) { std::string t = text(); a.setUcteXnodeCode(t); r.e("xnode", t); } else r.e("xnode", "");
    if (s.chance(45)) {
        Rec sub;
        sub.what = r.what + " generation of";
        sub.id = r.id;
        auto ga = a.newGeneration();
        double mn = num(sub, FIN_N, "gen.minP"), mx = o.wild ? num(sub, FIN_N, "gen.maxP", {mn}) : (std::isnan(mn) ? num(FIN_N) : mn + num(NONNEG));
        if (mn > mx) sub.bad("gen minP > maxP");
        bool on = s.chance(50);
        double tp = num(sub, FIN, "gen.targetP"), tv = num(sub, on ? POS : FIN_N, "gen.targetV"), tq = num(sub, on ? FIN_N : FIN, "gen.targetQ");
        if (s.chance(80) || !std::isnan(mn)) ga.setMinP(mn);
        if (s.chance(80) || !std::isnan(mx)) ga.setMaxP(mx);
        if (std::isnan(mn)) mn = -std::numeric_limits<double>::max();  // default bounds when undefined
        if (std::isnan(mx)) mx = std::numeric_limits<double>::max();
        ga.setTargetP(tp).setTargetQ(tq).setTargetV(tv).setVoltageRegulationOn(on);
        std::string err;
        try { ga.add(); } catch (const PowsyblException& e) { err = e.what(); }
        if (!err.empty() || !sub.ok) {
            attempt(sub, [&]() { if (!err.empty()) throw PowsyblException(err); });
            return;
        }
        r.e("gen.minP", mn);
        r.e("gen.maxP", mx);
        r.e("gen.targetP", tp); r.e("gen.targetQ", tq); r.e("gen.targetV", tv); r.e("gen.voltageRegulationOn", on);
    } else r.e("gen", "none");
    r.e("currentLimits", "none"); r.e("activeLimits", "none"); r.e("apparentLimits", "none");
    attempt(r, [&]() { a.add(); });
}

void World::addLcc(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newLccConverterStation();
    ident(a, r, "eq:", "LCC");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    double lf = num(r, PCT, "lossFactor"), pf = num(r, UNIT, "powerFactor");
    a.setLossFactor(lf);
    if (wild()) r.bad("power factor not set"); else a.setPowerFactor(pf);
    r.e("lossFactor", lf); r.e("powerFactor", pf); r.e("hvdcLine", "none");
    attempt(r, [&]() { a.add(); });
}

void World::addVsc(VoltageLevel& vl) {
    Rec r;
    auto a = vl.newVscConverterStation();
    ident(a, r, "eq:", "VSC");
    Place p = place(r, vl);
    placeInjection(a, p);
    expectPlace(r, p, 1);
    double lf = num(r, PCT, "lossFactor");
    bool on = s.chance(50);
    double v = num(r, on ? POS : FIN_N, "voltageSetpoint"), q = num(r, on ? FIN_N : FIN, "reactivePowerSetpoint");
    a.setLossFactor(lf).setVoltageSetpoint(v).setReactivePowerSetpoint(q);
    if (wild()) r.bad("regulator not set"); else a.setVoltageRegulatorOn(on);
    r.e("lossFactor", lf); r.e("voltageRegulatorOn", on); r.e("voltageSetpoint", v); r.e("reactivePowerSetpoint", q); r.e("hvdcLine", "none");
    reactiveDefault(r);
    attempt(r, [&]() { a.add(); });
}

void World::addHvdcLine() {
    std::vector<std::string> free, taken;
    for (auto* st : all<HvdcConverterStation>()) (st->getHvdcLine() ? taken : free).push_back(st->getId());
    if (free.size() < 2 && !o.wild) return;
    Rec r;
    auto a = n.newHvdcLine();
    ident(a, r, "hvdcLine:", "HL");
    double rr = num(r, FIN, "r"), nv = num(r, POS, "nominalV"), mp = num(r, NONNEG, "maxP"), sp = num(r, NONNEG, "activePowerSetpoint");
    a.setR(rr).setNominalV(nv).setMaxP(mp).setActivePowerSetpoint(sp);
    r.e("r", rr); r.e("nominalV", nv); r.e("maxP", mp); r.e("activePowerSetpoint", sp);
    auto mode = s.pickOf({HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER, HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER});
    if (wild()) r.bad("mode not set"); else a.setConvertersMode(mode);
    r.e("convertersMode", static_cast<int>(mode));
    std::string s1, s2;
    auto pick = [&](const std::string& avoid) -> std::string {
        if (wild() || free.empty()) {
            switch (s.draw(o.regulation ? 4 : 2)) {
                case 0: r.bad("station unknown"); return "missing";
                case 1: r.bad("station not set"); return "";
                case 2: if (!taken.empty()) { r.bad("station already belongs to a line"); return s.pick(taken); } r.bad("station unknown"); return "missing";
                default: if (!avoid.empty()) { r.bad("same station on both sides"); return avoid; } r.bad("station unknown"); return "missing";
            }
        }
        for (int k = 0; k < 4; ++k) { const std::string& x = s.pick(free); if (x != avoid) return x; }
        for (const auto& x : free) if (x != avoid) return x;
        r.bad("same station on both sides");
        return avoid;
    };
    s1 = pick("");
    s2 = pick(s1);
    if (!s1.empty()) a.setConverterStationId1(s1);
    if (!s2.empty()) a.setConverterStationId2(s2);
    r.e("station1", s1); r.e("station2", s2);
    if (r.ok) {
        r.exp["eq:" + s1 + ".hvdcLine"] = r.id;
        r.exp["eq:" + s2 + ".hvdcLine"] = r.id;
    }
    r.what += " " + s1 + "-" + s2;
    attempt(r, [&]() { a.add(); });
}

static const char* const LIMIT_ATTRS[] = {"currentLimits1", "currentLimits2", "activeLimits1", "activeLimits2", "apparentLimits1", "apparentLimits2"};

template <typename A> static bool branchEnds(World& w, A& a, Rec& r, const std::vector<VoltageLevel*>& vls) {
    VoltageLevel& v1 = *vls[w.s.draw(vls.size())];
    VoltageLevel& v2 = *vls[w.s.draw(vls.size())];
    auto p1 = w.place(r, v1);
    auto p2 = w.place(r, v2, {p1});
    if (w.wild()) { r.bad("voltage level 1 unknown or not set"); if (w.s.chance(50)) a.setVoltageLevel1("missing"); } else a.setVoltageLevel1(v1.getId());
    if (w.wild()) { r.bad("voltage level 2 unknown or not set"); if (w.s.chance(50)) a.setVoltageLevel2("missing"); } else a.setVoltageLevel2(v2.getId());
    placeBranch(a, p1, 1);
    placeBranch(a, p2, 2);
    w.expectPlace(r, p1, 1);
    w.expectPlace(r, p2, 2);
    for (const char* l : LIMIT_ATTRS) r.e(l, "none");
    r.what += " " + v1.getId() + "-" + v2.getId();
    return true;
}

void World::addLine() {
    auto vls = levels();
    if (vls.empty()) return;
    Rec r;
    auto a = n.newLine();
    ident(a, r, "eq:", "LINE");
    branchEnds(*this, a, r, vls);
    double rr = num(r, FIN, "r"), x = num(r, FIN, "x"), g1 = num(r, FIN, "g1"), g2 = num(r, FIN, "g2"), b1 = num(r, FIN, "b1"), b2 = num(r, FIN, "b2");
    if (wild()) r.bad("r not set"); else a.setR(rr);
    a.setX(x).setG1(g1).setG2(g2).setB1(b1).setB2(b2);
    r.e("r", rr); r.e("x", x); r.e("g1", g1); r.e("g2", g2); r.e("b1", b1); r.e("b2", b2);
    attempt(r, [&]() { a.add(); });
}

void World::addTieLine() {
    auto vls = levels();
    if (vls.empty()) return;
    Rec r;
    auto a = n.newTieLine();
    ident(a, r, "eq:", "TIE");
    branchEnds(*this, a, r, vls);
    if (wild()) r.bad("xnode not set"); else { std::string x = word(); a.setUcteXnodeCode(x); r.e("xnode", x); }
    for (int h = 1; h <= 2; ++h) {
        if (wild()) { r.bad("half line missing"); continue; }
        auto ha = h == 1 ? a.newHalfLine1() : a.newHalfLine2();
        Rec sub;
        sub.what = r.what + " half line of";
        sub.id = r.id;
        const std::string p = "half" + std::to_string(h) + ".";
        std::string hid = r.id + "_h" + std::to_string(h), name = s.chance(40) ? text() : "";
        if (wild()) sub.bad("half line id not set"); else ha.setId(hid);
        if (!name.empty()) ha.setName(name);
        bool f = s.chance(20);
        ha.setFictitious(f);
        double rr = num(sub, FIN, "r"), x = num(sub, FIN, "x"), g1 = num(sub, FIN, "g1"), g2 = num(sub, FIN, "g2"), b1 = num(sub, FIN, "b1"), b2 = num(sub, FIN, "b2");
        ha.setR(rr).setX(x).setG1(g1).setG2(g2).setB1(b1).setB2(b2);
        std::string err;
        try { ha.add(); } catch (const PowsyblException& e) { err = e.what(); }
        if (!err.empty() || !sub.ok) { attempt(sub, [&]() { if (!err.empty()) throw PowsyblException(err); }); return; }
        r.e(p + "id", hid);
        r.e(p + "name", name.empty() ? hid : name);
        r.e(p + "fictitious", f);
        r.e(p + "r", rr); r.e(p + "x", x); r.e(p + "g1", g1); r.e(p + "g2", g2); r.e(p + "b1", b1); r.e(p + "b2", b2);
    }
    attempt(r, [&]() { a.add(); });
}

void World::addT2() {
    auto subs = substations();
    if (subs.empty()) return;
    Substation& sub = *subs[s.draw(subs.size())];
    std::vector<VoltageLevel*> vls;
    for (VoltageLevel* v : levels()) if (&v->getSubstation() == &sub) vls.push_back(v);
    if (vls.empty()) return;
    Rec r;
    if (wild() && levels().size() > vls.size()) {
        for (VoltageLevel* v : levels()) if (&v->getSubstation() != &sub) { vls = {v}; break; }
        r.bad("voltage level of another substation");
    }
    auto a = sub.newTwoWindingsTransformer();
    ident(a, r, "eq:", "T2_");
    branchEnds(*this, a, r, vls);
    double rr = num(r, FIN, "r"), x = num(r, FIN, "x"), g = num(r, FIN, "g"), b = num(r, FIN, "b"), u1 = num(r, FIN, "ratedU1"), u2 = num(r, FIN, "ratedU2");
    a.setR(rr).setX(x).setG(g).setB(b);
    if (wild()) r.bad("ratedU1 not set"); else a.setRatedU1(u1);
    if (wild()) r.bad("ratedU2 not set"); else a.setRatedU2(u2);
    r.e("r", rr); r.e("x", x); r.e("g", g); r.e("b", b); r.e("ratedU1", u1); r.e("ratedU2", u2);
    double rs = NaN;
    if (s.chance(40)) { rs = num(r, POS_N, "ratedS"); a.setRatedS(rs); }
    r.e("ratedS", rs);
    r.e("rtc", "none"); r.e("ptc", "none");
    attempt(r, [&]() { a.add(); });
}

void World::addT3() {
    auto subs = substations();
    if (subs.empty()) return;
    Substation& sub = *subs[s.draw(subs.size())];
    std::vector<VoltageLevel*> vls;
    for (VoltageLevel* v : levels()) if (&v->getSubstation() == &sub) vls.push_back(v);
    if (vls.empty()) return;
    Rec r;
    auto a = sub.newThreeWindingsTransformer();
    ident(a, r, "eq:", "T3_");
    std::vector<Place> used;
    double ru1 = NaN;
    for (unsigned leg = 1; leg <= 3; ++leg) {
        if (wild()) { r.bad("leg missing"); continue; }
        auto la = leg == 1 ? a.newLeg1() : leg == 2 ? a.newLeg2() : a.newLeg3();
        VoltageLevel* vl = vls[s.draw(vls.size())];
        bool foreignVl = false;
        if (wild()) for (VoltageLevel* v : levels()) if (&v->getSubstation() != &sub) { vl = v; foreignVl = true; break; }
        Place p = place(r, *vl, used);
        used.push_back(p);
        if (foreignVl) r.bad("voltage level of another substation");
        if (wild()) { r.bad("voltage level unknown"); if (s.chance(50)) la.setVoltageLevel("missing"); } else la.setVoltageLevel(vl->getId());
        if (p.node) la.setNode(*p.node);
        if (!p.bus.empty()) la.setBus(p.bus);
        if (!p.cbus.empty()) la.setConnectableBus(p.cbus);
        expectPlace(r, p, leg);
        Rec lr;
        lr.what = r.what + " leg" + std::to_string(leg) + " of";
        lr.id = r.id;
        double rr = num(lr, FIN, "r"), x = num(lr, FIN, "x"), u = num(lr, FIN, "ratedU"), rs = NaN;
        double g = leg == 1 ? num(lr, FIN, "g") : 0, b = leg == 1 ? num(lr, FIN, "b") : 0;
        if (wild()) lr.bad("r not set"); else la.setR(rr);
        if (wild()) lr.bad("x not set"); else la.setX(x);
        la.setRatedU(u);
        if (leg == 1) la.setG(g).setB(b);
        else if (s.chance(40)) { g = num(lr, FIN, "g"); b = num(lr, FIN, "b"); la.setG(g).setB(b); }
        if (s.chance(30)) { rs = num(lr, POS_N, "ratedS"); la.setRatedS(rs); }
        std::string err;
        try { la.add(); } catch (const PowsyblException& e) { err = e.what(); }
        if (!err.empty() || !lr.ok) { attempt(lr, [&]() { if (!err.empty()) throw PowsyblException(err); }); return; }
        const std::string k = "leg" + std::to_string(leg) + ".";
        r.e(k + "r", rr); r.e(k + "x", x); r.e(k + "g", g); r.e(k + "b", b); r.e(k + "ratedU", u); r.e(k + "ratedS", rs);
        r.e(k + "rtc", "none"); r.e(k + "ptc", "none");
        if (leg == 1) ru1 = u;
    }
    double u0 = NaN;
    if (s.chance(50)) { u0 = num(FIN_N); a.setRatedU0(u0); }
    r.e("ratedU0", std::isnan(u0) ? ru1 : u0);
    attempt(r, [&]() { a.add(); });
}

// ---------------------------------------------------------------- tap changers

std::vector<TapSite> tapSites(World& w) {
    std::vector<TapSite> v;
    for (auto* t : w.all<TwoWindingsTransformer>()) v.push_back({t, "eq:" + t->getId() + ".", t, t, 0});
    for (auto* t : w.all<ThreeWindingsTransformer>()) {
        unsigned k = 1;
        for (auto* l : {&t->getLeg1(), &t->getLeg2(), &t->getLeg3()}) { v.push_back({t, "eq:" + t->getId() + ".leg" + std::to_string(k) + ".", l, l, k}); ++k; }
    }
    return v;
}
// is another tap changer of the same transformer regulating (working variant)?
bool otherRegulating(const TapSite& t, bool ratio) {
    std::vector<std::pair<RatioTapChangerHolder*, PhaseTapChangerHolder*>> hs;
    if (auto* t2 = dynamic_cast<TwoWindingsTransformer*>(t.owner)) hs.push_back({t2, t2});
    if (auto* t3 = dynamic_cast<ThreeWindingsTransformer*>(t.owner)) for (auto* l : {&t3->getLeg1(), &t3->getLeg2(), &t3->getLeg3()}) hs.push_back({l, l});
    for (auto& h : hs) {
        if (h.first->hasRatioTapChanger() && h.first->getRatioTapChanger().isRegulating() && !(ratio && h.first == t.ratio)) return true;
        if (h.second->hasPhaseTapChanger() && h.second->getPhaseTapChanger().isRegulating() && !(!ratio && h.second == t.phase)) return true;
    }
    return false;
}

void World::addRatioTapChanger() {
    auto sites = tapSites(*this);
    if (sites.empty()) return;
    TapSite site = sites[s.draw(sites.size())];
    Rec r;
    r.what = "ratio tap changer of";
    r.id = site.key;
    r.prefix = site.key + "rtc";
    auto a = site.ratio->newRatioTapChanger();
    long low = s.chance(40) ? 0 : s.range(-20, 20);
    if (s.chance(80) || low) a.setLowTapPosition(low);
    unsigned long count = o.wild && s.chance(8) ? 0 : 1 + s.draw(6);
    std::string steps;
    std::string err;
    try {
        for (unsigned long k = 0; k < count; ++k) {
            bool allSet = s.chance(70);
            double rho = num(r, FIN, "rho"), rr = 0, x = 0, g = 0, b = 0;
            auto st = a.beginStep();
            if (allSet) { rr = num(r, FIN, "step r"); x = num(r, FIN, "step x"); g = num(r, FIN, "step g"); b = num(r, FIN, "step b"); }
            if (!allSet) st.setRho(rho);
            else st.setRho(rho).setR(rr).setX(x).setG(g).setB(b);
            if (!allSet) { st.setR(0).setX(0).setG(0).setB(0); }
            st.endStep();
            steps += std::to_string(low + static_cast<long>(k)) + ":(" + hex(rho) + " " + hex(rr) + " " + hex(x) + " " + hex(g) + " " + hex(b) + ")";
        }
    } catch (const PowsyblException& e) { err = e.what(); }
    if (!err.empty()) { r.exp.clear(); attempt(r, [&]() { throw PowsyblException(err); }); return; }
    if (!count) r.bad("no step");
    long high = low + static_cast<long>(count) - 1;
    long pos = count ? s.range(low, high) : low;
    if (wild()) pos = s.chance(50) ? low - 1 - static_cast<long>(s.draw(3)) : high + 1 + static_cast<long>(s.draw(3));
    if (pos < low || pos > high) r.bad("position out of range");
    if (wild()) r.bad("position not set"); else a.setTapPosition(pos);
    bool ltc = s.chance(60), reg = s.chance(o.regulation ? 40 : 0);
    if (!o.wild && reg && (otherRegulating(site, true) || !ltc)) reg = false;
    auto t = terminals();
    stdcxx::Reference<Terminal> rt;
    if (!t.empty() && s.chance(reg ? 90 : 40)) rt = stdcxx::ref(*t[s.draw(t.size())]);
    if (!o.wild && reg && !rt) rt = stdcxx::ref(*t[s.draw(t.size())]);
    bool foreign = false;
    if (other && wild()) { Rec tmp; auto f = regTerminal(tmp, &foreign); if (foreign) rt = f; }
    Rec tmp;
    double v = num(tmp, reg && !o.wild ? POS : FIN_N, "targetV"), d = num(r, reg ? NONNEG : NONNEG_N, "deadband");
    if (reg) {
        if (ltc) {
            if (!(v > 0)) r.bad("regulating without target voltage");
            if (!rt) r.bad("regulating without terminal");
        } else if (!(v > 0) || !rt) r.unspecified = true;  // documented as a warning only
        if (foreign) { if (ltc) r.bad("terminal of another network"); else r.unspecified = true; }
        if (otherRegulating(site, true)) r.bad("another tap changer is regulating");
    }
    if (foreign && !reg) r.unspecified = true;
    a.setLoadTapChangingCapabilities(ltc).setRegulating(reg).setTargetV(v).setTargetDeadband(d);
    if (rt) a.setRegulationTerminal(rt);
    if (r.unspecified && foreign) return;  // would leave a reference to another network
    r.e("steps", steps); r.e("low", low); r.e("high", high); r.e("count", static_cast<unsigned long>(count)); r.e("ltc", ltc);
    r.e("terminal", rt && !foreign ? model::termRef(rt.get()) : "none");
    r.e("position", pos); r.e("regulating", reg); r.e("deadband", d); r.e("targetV", v);
    attempt(r, [&]() { a.add(); });
}

void World::addPhaseTapChanger() {
    auto sites = tapSites(*this);
    if (sites.empty()) return;
    TapSite site = sites[s.draw(sites.size())];
    Rec r;
    r.what = "phase tap changer of";
    r.id = site.key;
    r.prefix = site.key + "ptc";
    auto a = site.phase->newPhaseTapChanger();
    long low = s.chance(40) ? 0 : s.range(-20, 20);
    if (s.chance(80) || low) a.setLowTapPosition(low);
    unsigned long count = o.wild && s.chance(8) ? 0 : 1 + s.draw(6);
    std::string steps, err;
    try {
        for (unsigned long k = 0; k < count; ++k) {
            double al = num(r, FIN, "alpha"), rho = num(r, FIN, "rho"), rr = num(r, FIN, "step r"), x = num(r, FIN, "step x"), g = num(r, FIN, "step g"), b = num(r, FIN, "step b");
            a.beginStep().setAlpha(al).setRho(rho).setR(rr).setX(x).setG(g).setB(b).endStep();
            steps += std::to_string(low + static_cast<long>(k)) + ":(" + hex(al) + " " + hex(rho) + " " + hex(rr) + " " + hex(x) + " " + hex(g) + " " + hex(b) + ")";
        }
    } catch (const PowsyblException& e) { err = e.what(); }
    if (!err.empty()) { r.exp.clear(); attempt(r, [&]() { throw PowsyblException(err); }); return; }
    if (!count) r.bad("no step");
    long high = low + static_cast<long>(count) - 1;
    long pos = count ? s.range(low, high) : low;
    if (wild()) pos = s.chance(50) ? low - 1 : high + 1;
    if (pos < low || pos > high) r.bad("position out of range");
    if (wild()) r.bad("position not set"); else a.setTapPosition(pos);
    auto mode = s.pickOf({PhaseTapChanger::RegulationMode::FIXED_TAP, PhaseTapChanger::RegulationMode::CURRENT_LIMITER, PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL});
    bool reg = s.chance(o.regulation ? 40 : 0);
    if (!o.wild && reg && (otherRegulating(site, false) || mode == PhaseTapChanger::RegulationMode::FIXED_TAP)) reg = false;
    auto t = terminals();
    stdcxx::Reference<Terminal> rt;
    if (!t.empty() && s.chance(reg ? 90 : 40)) rt = stdcxx::ref(*t[s.draw(t.size())]);
    if (!o.wild && reg && !rt) rt = stdcxx::ref(*t[s.draw(t.size())]);
    bool foreign = false;
    if (other && wild()) { Rec tmp; auto f = regTerminal(tmp, &foreign); if (foreign) rt = f; }
    Rec tmp;
    double v = num(tmp, reg && !o.wild ? FIN : FIN_N, "value"), d = num(r, reg ? NONNEG : NONNEG_N, "deadband");
    if (reg) {
        if (mode == PhaseTapChanger::RegulationMode::FIXED_TAP) r.bad("regulating with fixed tap");
        else {
            if (std::isnan(v)) r.bad("regulating without value");
            if (!rt) r.bad("regulating without terminal");
        }
        if (otherRegulating(site, false)) r.bad("another tap changer is regulating");
    }
    if (foreign) r.bad("terminal of another network");
    a.setRegulationMode(mode).setRegulating(reg).setRegulationValue(v).setTargetDeadband(d);
    if (rt) a.setRegulationTerminal(rt);
    r.e("steps", steps); r.e("low", low); r.e("high", high); r.e("count", static_cast<unsigned long>(count)); r.e("mode", static_cast<int>(mode));
    r.e("terminal", rt && !foreign ? model::termRef(rt.get()) : "none");
    r.e("position", pos); r.e("regulating", reg); r.e("deadband", d); r.e("value", v);
    attempt(r, [&]() { a.add(); });
}

// ---------------------------------------------------------------- limits

template <typename A> static void fillLimits(World& w, A& a, Rec& r, const std::string& key) {
    Src& s = w.s;
    double perm = NaN;
    if (s.chance(80)) { perm = w.num(r, POS_N, "permanentLimit"); a.setPermanentLimit(perm); }
    struct T { std::string name; double v; unsigned long d; bool f; };
    std::vector<T> ts;
    std::string err;
    unsigned count = static_cast<unsigned>(s.draw(4));
    std::set<unsigned long> durations;
    std::set<std::string> names;
    bool dup = false;
    try {
        for (unsigned k = 0; k < count; ++k) {
            T t;
            t.d = s.chance(20) ? s.pickOf({0UL, 2147483647UL, 1UL}) : 60 * (1 + s.draw(30));
            if (durations.count(t.d)) continue;  // the outcome is not specified
            t.v = w.num(r, POS, "temporary value");
            t.name = s.chance(30) && w.o.nasty ? w.word() : "TL" + std::to_string(w.o.wild && s.chance(20) ? s.draw(3) : k);
            t.f = s.chance(30);
            bool ensure = s.chance(15);
            auto ta = a.beginTemporaryLimit();
            bool noName = w.wild();
            if (noName) r.bad("temporary limit without name"); else ta.setName(t.name);
            ta.setValue(t.v).setFictitious(t.f);
            if (w.wild()) r.bad("temporary limit without duration"); else ta.setAcceptableDuration(t.d);
            if (ensure && !noName) {
                ta.ensureNameUnicity();
                std::string u = t.name;
                unsigned i = 0;
                while (names.count(u)) u = t.name + "#" + std::to_string(i++);
                t.name = u;
            }
            if (durations.count(t.d)) { dup = true; }
            if (names.count(t.name) && !noName) { if (!w.o.wild) { t.name += "_" + std::to_string(k); ta.setName(t.name); } else r.bad("two temporary limits named " + t.name); }
            ta.endTemporaryLimit();
            durations.insert(t.d);
            names.insert(t.name);
            ts.push_back(t);
        }
    } catch (const PowsyblException& e) { err = e.what(); }
    if (dup) r.bad("two temporary limits with the same duration");
    std::sort(ts.begin(), ts.end(), [](const T& x, const T& y) { return x.d > y.d; });
    std::string e = "perm=" + hex(perm);
    for (const T& t : ts) e += "; " + t.name + "|" + hex(t.v) + "|" + std::to_string(t.d) + "|" + (t.f ? "f" : "-");
    r.exp[key] = e;
    r.id = key;
    w.attempt(r, [&]() { if (!err.empty()) throw PowsyblException(err); a.add(); });
}

void World::addLimits() {
    struct Site { std::string prefix; std::string suffix; Branch* b; FlowsLimitsHolder* h; int side; };
    std::vector<Site> sites;
    for (Connectable* k : connectables()) {
        std::string p = "eq:" + k->getId() + ".";
        if (auto* b = dynamic_cast<Branch*>(k)) { sites.push_back({p, "1", b, nullptr, 1}); sites.push_back({p, "2", b, nullptr, 2}); }
        if (auto* d = dynamic_cast<DanglingLine*>(k)) sites.push_back({p, "", nullptr, d, 0});
        if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(k)) {
            sites.push_back({p + "leg1.", "", nullptr, &t->getLeg1(), 0});
            sites.push_back({p + "leg2.", "", nullptr, &t->getLeg2(), 0});
            sites.push_back({p + "leg3.", "", nullptr, &t->getLeg3(), 0});
        }
    }
    if (sites.empty()) return;
    Site x = sites[s.draw(sites.size())];
    Rec r;
    switch (s.draw(3)) {
        case 0: {
            r.what = "current limits";
            auto a = x.b ? (x.side == 1 ? x.b->newCurrentLimits1() : x.b->newCurrentLimits2()) : x.h->newCurrentLimits();
            fillLimits(*this, a, r, x.prefix + "currentLimits" + x.suffix);
            break;
        }
        case 1: {
            r.what = "active power limits";
            auto a = x.b ? (x.side == 1 ? x.b->newActivePowerLimits1() : x.b->newActivePowerLimits2()) : x.h->newActivePowerLimits();
            fillLimits(*this, a, r, x.prefix + "activeLimits" + x.suffix);
            break;
        }
        default: {
            r.what = "apparent power limits";
            auto a = x.b ? (x.side == 1 ? x.b->newApparentPowerLimits1() : x.b->newApparentPowerLimits2()) : x.h->newApparentPowerLimits();
            fillLimits(*this, a, r, x.prefix + "apparentLimits" + x.suffix);
            break;
        }
    }
}

void World::addReactiveLimits() {
    struct Site { std::string key; ReactiveLimitsHolder* h; };
    std::vector<Site> sites;
    for (Connectable* k : connectables()) {
        std::string p = "eq:" + k->getId() + ".";
        if (auto* g = dynamic_cast<Generator*>(k)) sites.push_back({p + "reactiveLimits", g});
        if (auto* g = dynamic_cast<Battery*>(k)) sites.push_back({p + "reactiveLimits", g});
        if (auto* g = dynamic_cast<VscConverterStation*>(k)) sites.push_back({p + "reactiveLimits", g});
        if (auto* d = dynamic_cast<DanglingLine*>(k)) if (d->getGeneration()) sites.push_back({p + "gen.reactiveLimits", &d->getGeneration().get()});
    }
    if (sites.empty()) return;
    Site x = sites[s.draw(sites.size())];
    Rec r;
    r.id = x.key;
    if (s.chance(50)) {
        r.what = "min/max reactive limits";
        auto a = x.h->newMinMaxReactiveLimits();
        double mn = num(r, FIN, "minQ"), mx = o.wild ? num(r, FIN, "maxQ", {mn}) : mn + num(NONNEG);
        if (mx < mn) r.bad("minQ > maxQ");
        if (wild()) r.bad("minQ not set"); else a.setMinQ(mn);
        if (wild()) r.bad("maxQ not set"); else a.setMaxQ(mx);
        r.exp[x.key] = "minmax " + hex(mn) + " " + hex(mx);
        attempt(r, [&]() { a.add(); });
    } else {
        r.what = "capability curve";
        auto a = x.h->newReactiveCapabilityCurve();
        unsigned long count = o.wild && s.chance(12) ? s.draw(2) : 2 + s.draw(4);
        std::map<double, std::string> pts;
        std::string err;
        double lo = 0, hi = 0;
        try {
            for (unsigned long k = 0; k < count; ++k) {
                double p = num(r, FIN, "p"), mn = num(r, FIN, "minQ"), mx = mn + num(NONNEG);
                if (std::isnan(mx)) mx = 0;
                if (!std::isnan(p) && pts.count(p)) {
                    if (o.wild && s.chance(50)) r.bad("two points at the same active power");
                    else { p = 0.25; while (pts.count(p)) p += 1; }
                }
                a.beginPoint().setP(p).setMinQ(mn).setMaxQ(mx).endPoint();
                if (!std::isnan(p)) pts[p] = " (" + hex(p) + " " + hex(mn) + " " + hex(mx) + ")";
            }
        } catch (const PowsyblException& e) { err = e.what(); }
        if (pts.size() < 2) r.bad("less than two points");
        std::string e = "curve";
        for (const auto& p : pts) e += p.second;
        if (!pts.empty()) { lo = pts.begin()->first; hi = pts.rbegin()->first; }
        r.exp[x.key] = e + " n=" + std::to_string(pts.size()) + " minP=" + hex(lo) + " maxP=" + hex(hi);
        attempt(r, [&]() { if (!err.empty()) throw PowsyblException(err); a.add(); });
    }
}

// ---------------------------------------------------------------- composition

void World::addInjection(VoltageLevel& vl) {
    switch (s.weighted({20, 20, 10, 12, 10, 14, 8, 10})) {
        case 0: addLoad(vl); break;
        case 1: addGenerator(vl); break;
        case 2: addBattery(vl); break;
        case 3: addShunt(vl); break;
        case 4: addSvc(vl); break;
        case 5: addDanglingLine(vl); break;
        case 6: addLcc(vl); break;
        default: addVsc(vl); break;
    }
}

void World::addAny() {
    last = Rec();
    auto vls = levels();
    auto subs = substations();
    size_t k = s.weighted({5, 6, 6, 5, 8, 3, 30, 12, 6, 10, 8, 8, 6, 8, 8, 8});
    if (vls.empty() && k >= 2 && k <= 6) k = 1;
    if (subs.empty() && k == 1) k = 0;
    VoltageLevel* vl = vls.empty() ? nullptr : vls[s.draw(vls.size())];
    switch (k) {
        case 0: addSubstation(); break;
        case 1: addVoltageLevel(*subs[s.draw(subs.size())]); break;
        case 2: addBus(*vl); break;
        case 3: addBusbarSection(*vl); break;
        case 4: addSwitch(*vl); break;
        case 5: addInternalConnection(*vl); break;
        case 6: addInjection(*vl); break;
        case 7: addLine(); break;
        case 8: addTieLine(); break;
        case 9: addT2(); break;
        case 10: addT3(); break;
        case 11: addHvdcLine(); break;
        case 12: addRatioTapChanger(); break;
        case 13: addPhaseTapChanger(); break;
        case 14: addLimits(); break;
        default: addReactiveLimits(); break;
    }
}

void World::buildTopology(VoltageLevel& vl) {
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        unsigned k = 1 + static_cast<unsigned>(s.draw(3));
        for (unsigned i = 0; i < k; ++i) addBusbarSection(vl);
        k = static_cast<unsigned>(s.draw(8));
        for (unsigned i = 0; i < k; ++i) addSwitch(vl);
        k = static_cast<unsigned>(s.draw(3));
        for (unsigned i = 0; i < k; ++i) addInternalConnection(vl);
    } else {
        unsigned k = 1 + static_cast<unsigned>(s.draw(4));
        for (unsigned i = 0; i < k; ++i) addBus(vl);
        k = static_cast<unsigned>(s.draw(4));
        for (unsigned i = 0; i < k; ++i) addSwitch(vl);
    }
}

void World::build() {
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-01T00:00:00.000Z"));  // the date of the creation is the time it was made
    unsigned k = 1 + static_cast<unsigned>(s.draw(o.maxSubstations));
    for (unsigned i = 0; i < k; ++i) addSubstation();
    auto subs = substations();
    if (subs.empty()) return;
    k = 1 + static_cast<unsigned>(s.draw(o.maxLevels));
    for (unsigned i = 0; i < k; ++i) {
        addVoltageLevel(*subs[s.draw(subs.size())]);
    }
    for (VoltageLevel* vl : levels()) buildTopology(*vl);
    auto vls = levels();
    if (vls.empty()) return;
    k = static_cast<unsigned>(s.draw(o.maxEquipment + 1));
    for (unsigned i = 0; i < k; ++i) {
        switch (s.weighted({50, 15, 5, 12, 8, 5})) {
            case 0: addInjection(*vls[s.draw(vls.size())]); break;
            case 1: addLine(); break;
            case 2: addTieLine(); break;
            case 3: addT2(); break;
            case 4: addT3(); break;
            default: addSwitch(*vls[s.draw(vls.size())]); break;
        }
    }
    k = static_cast<unsigned>(s.draw(o.maxEquipment > 3 ? 7 : 4));
    for (unsigned i = 0; i < k; ++i) {
        switch (s.draw(5)) {
            case 0: {
                VoltageLevel& vl1 = *vls[s.draw(vls.size())];
                VoltageLevel& vl2 = *vls[s.draw(vls.size())];
                if (n.getHvdcConverterStationCount() < 2) {
                    if (s.chance(50)) { addLcc(vl1); addLcc(vl2); } else { addVsc(vl1); addVsc(vl2); }
                }
                addHvdcLine();
                break;
            }
            case 1: if (s.chance(30)) { if (s.chance(50)) addT2(); else addT3(); } addRatioTapChanger(); break;
            case 2: if (s.chance(30)) { if (s.chance(50)) addT2(); else addT3(); } addPhaseTapChanger(); break;
            case 3: addLimits(); break;
            default: addReactiveLimits(); break;
        }
    }
}

Identifiable* World::pickVaried() {
    std::vector<std::string> kinds;
    std::map<std::string, std::vector<Identifiable*>> by;
    for (Identifiable* i : identifiables()) {
        std::string k = prefixOf(*i);
        k = k.substr(0, k.find(':'));
        if (k == "eq") k += std::to_string(static_cast<int>(dynamic_cast<Connectable&>(*i).getType()));
        if (!by.count(k)) kinds.push_back(k);
        by[k].push_back(i);
    }
    if (kinds.empty()) return nullptr;
    std::sort(kinds.begin(), kinds.end());
    const auto& v = by.at(s.pick(kinds));
    return v[s.draw(v.size())];
}

void World::randomState(unsigned count) {
    for (unsigned i = 0; i < count; ++i) set(true);
}

// ---------------------------------------------------------------- dumps of all variants

std::map<std::string, model::Dump> dumpVariants(Network& n, unsigned flags) {
    std::map<std::string, model::Dump> r;
    const std::string w = n.getVariantManager().getWorkingVariantId();
    for (const std::string& v : n.getVariantManager().getVariantIds()) {
        n.getVariantManager().setWorkingVariant(v);
        r[v] = model::dump(n, flags);
    }
    n.getVariantManager().setWorkingVariant(w);
    return r;
}
std::string diffVariants(const std::map<std::string, model::Dump>& a, const std::map<std::string, model::Dump>& b, const std::function<bool(const std::string&)>& ignore) {
    std::string o;
    for (const auto& v : a) {
        if (!b.count(v.first)) { o += "variant " + v.first + " disappeared\n"; continue; }
        std::string d = model::diff(v.second, b.at(v.first), 15, ignore);
        if (!d.empty()) o += "[" + v.first + "]\n" + d;
    }
    for (const auto& v : b) if (!a.count(v.first)) o += "variant " + v.first + " appeared\n";
    return o;
}

}  // namespace gen
