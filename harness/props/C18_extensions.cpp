// C18: extensions attach to one object, are found by type and name, and keep state.
#include "../model/gen.hpp"

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>

using namespace gen;
using model::Dump;
namespace ex = powsybl::iidm::extensions;
using iidm::Extendable;
using iidm::Extension;

namespace {

// Extensions of our own, to see when they are destroyed and to attach them anywhere.
template <int N>
class Probe : public Extension {
public:
    Probe(Extendable& e, int value, int& alive, bool onlyLoads) : Extension(e), m_value(value), m_alive(alive), m_onlyLoads(onlyLoads) { ++m_alive; }
    ~Probe() noexcept override { --m_alive; }
    const std::string& getName() const override { static std::string s = "probe" + std::to_string(N); return s; }
    const std::type_index& getType() const override { static std::type_index t = typeid(Probe<N>); return t; }
    int value() const { return m_value; }
private:
    void assertExtendable(const stdcxx::Reference<Extendable>& e) const override {
        if (e && m_onlyLoads && dynamic_cast<const iidm::Load*>(&e.get()) == nullptr) throw powsybl::AssertionError("not a load");
    }
    int m_value;
    int& m_alive;
    bool m_onlyLoads;
};

struct Kind {
    std::string name;
    std::function<const Extension*(const Extendable&)> find, get, byName;
    std::function<const Extension*(Extendable&)> findMutable;
};
template <typename T> Kind kind(const std::string& name) {
    Kind k;
    k.name = name;
    k.find = [](const Extendable& e) -> const Extension* { auto r = e.findExtension<T>(); return r ? &r.get() : nullptr; };
    k.findMutable = [](Extendable& e) -> const Extension* { auto r = e.findExtension<T>(); return r ? &r.get() : nullptr; };
    k.byName = [name](const Extendable& e) -> const Extension* { auto r = e.getExtensionByName<T>(name); return r ? &r.get() : nullptr; };
    k.get = [](const Extendable& e) -> const Extension* { try { return &e.getExtension<T>(); } catch (const PowsyblException&) { return nullptr; } };
    return k;
}
const std::vector<Kind>& kinds() {
    static const std::vector<Kind> v = {
        kind<ex::LoadDetail>("detail"), kind<ex::SlackTerminal>("slackTerminal"), kind<ex::entsoe::EntsoeArea>("entsoeArea"), kind<ex::entsoe::MergedXnode>("mergedXnode"), kind<ex::entsoe::Xnode>("xnode"),
        kind<ex::iidm::ActivePowerControl>("activePowerControl"), kind<ex::iidm::CoordinatedReactiveControl>("coordinatedReactiveControl"), kind<ex::iidm::DiscreteMeasurements>("discreteMeasurements"),
        kind<ex::iidm::HvdcAngleDroopActivePowerControl>("hvdcAngleDroopActivePowerControl"), kind<ex::iidm::HvdcOperatorActivePowerRange>("hvdcOperatorActivePowerRange"), kind<ex::iidm::Measurements>("measurements"),
        kind<ex::iidm::RemoteReactivePowerControl>("generatorRemoteReactivePowerControl"), kind<ex::iidm::ThreeWindingsTransformerPhaseAngleClock>("threeWindingsTransformerPhaseAngleClock"),
        kind<ex::iidm::TwoWindingsTransformerPhaseAngleClock>("twoWindingsTransformerPhaseAngleClock"), kind<ex::iidm::VoltagePerReactivePowerControl>("voltagePerReactivePowerControl"),
        kind<ex::sld::BranchStatus>("branchStatus"), kind<ex::sld::BusbarSectionPosition>("busbarSectionPosition"), kind<ex::sld::ConnectablePosition>("position"),
        kind<Probe<0>>("probe0"), kind<Probe<1>>("probe1"), kind<Probe<2>>("probe2")};
    return v;
}

bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

// every way of finding the extensions of an object agrees
void consistent(pbt::Case& c, iidm::Identifiable& i) {
    std::map<std::string, const Extension*> listed;
    for (const Extension& e : static_cast<const iidm::Identifiable&>(i).getExtensions()) {
        c.check(listed.emplace(e.getName(), &e).second, "listed-twice", i.getId() + " " + e.getName());
        auto owner = e.getExtendable<iidm::Identifiable>();
        c.check(owner && &owner.get() == &i, "owner", "extension " + e.getName() + " of " + i.getId() + " does not refer back to it");
    }
    size_t mutableCount = 0;
    for (Extension& e : i.getExtensions()) { ++mutableCount; c.check(listed.count(e.getName()) == 1, "listing", e.getName()); }
    c.checkEq(mutableCount, listed.size(), "listing", i.getId());
    size_t known = 0;
    for (const Kind& k : kinds()) {
        const Extension* expected = listed.count(k.name) ? listed.at(k.name) : nullptr;
        known += expected != nullptr;
        const std::string what = "extension " + k.name + " of " + i.getId();
        c.check(k.find(i) == expected, "find-by-type", what);
        c.check(k.findMutable(i) == expected, "find-by-type", what);
        c.check(k.get(i) == expected, "get-by-type", what);
        c.check(k.byName(i) == expected, "find-by-name", what);
        if (expected) c.check(expected->getType() == std::type_index(typeid(*expected)), "type", what);
    }
    c.checkEq(known, listed.size(), "unknown-extension", i.getId());
    c.check(!i.getExtensionByName<Extension>("nothing"), "find-by-name", "nothing");
    // sub-objects
    if (auto m = i.findExtension<ex::iidm::Measurements>()) {
        const auto& cm = m.get();
        std::map<int, unsigned> byType;
        std::set<std::string> ids;
        for (const auto& x : static_cast<const ex::iidm::Measurements&>(cm).getMeasurements()) {
            ++byType[static_cast<int>(x.getType())];
            if (ids.insert(x.getId()).second) {
                auto f = static_cast<const ex::iidm::Measurements&>(cm).getMeasurement(x.getId());
                c.check(f && &f.get() == &x, "measurement-by-id", x.getId());
            }
        }
        c.check(!static_cast<const ex::iidm::Measurements&>(cm).getMeasurement("nothing"), "measurement-by-id", "nothing");
        for (int t = 0; t < 8; ++t) {
            unsigned k = 0;
            for (const auto& x : static_cast<const ex::iidm::Measurements&>(cm).getMeasurements(static_cast<ex::iidm::Measurement::Type>(t))) { ++k; c.check(static_cast<int>(x.getType()) == t, "measurement-by-type", x.getId()); }
            c.checkEq(k, byType[t], "measurement-by-type", std::to_string(t));
            k = 0;
            for (const auto& x : const_cast<ex::iidm::Measurements&>(static_cast<const ex::iidm::Measurements&>(cm)).getMeasurements(static_cast<ex::iidm::Measurement::Type>(t))) { ++k; c.check(static_cast<int>(x.getType()) == t, "measurement-by-type", x.getId()); }
            c.checkEq(k, byType[t], "measurement-by-type", std::to_string(t));
        }
    }
    if (auto m = i.findExtension<ex::iidm::DiscreteMeasurements>()) {
        auto& cm = m.get();
        std::map<int, unsigned> byType;
        std::set<std::string> ids;
        for (const auto& x : cm.getDiscreteMeasurements()) {
            ++byType[static_cast<int>(x.getType())];
            if (ids.insert(x.getId()).second) {
                auto f = cm.getDiscreteMeasurement(x.getId());
                c.check(f && &f.get() == &x, "measurement-by-id", x.getId());
            }
        }
        c.check(!cm.getDiscreteMeasurement("nothing"), "measurement-by-id", "nothing");
        for (int t = 0; t < 4; ++t) {
            unsigned k = 0;
            for (const auto& x : cm.getDiscreteMeasurements(static_cast<ex::iidm::DiscreteMeasurement::Type>(t))) { ++k; c.check(static_cast<int>(x.getType()) == t, "measurement-by-type", x.getId()); }
            c.checkEq(k, byType[t], "measurement-by-type", std::to_string(t));
            k = 0;
            for (const auto& x : static_cast<const ex::iidm::DiscreteMeasurements&>(cm).getDiscreteMeasurements(static_cast<ex::iidm::DiscreteMeasurement::Type>(t))) { ++k; c.check(static_cast<int>(x.getType()) == t, "measurement-by-type", x.getId()); }
            c.checkEq(k, byType[t], "measurement-by-type", std::to_string(t));
        }
    }
}

// A variant operation; the state of extensions follows: a clone has that of its source, all other variants keep theirs.
void variantStep(pbt::Case& c, Network& n, std::map<std::string, Dump>& before) {
    auto& m = n.getVariantManager();
    const std::string working = m.getWorkingVariantId();
    std::vector<std::string> ids;
    for (const auto& v : before) ids.push_back(v.first);
    const std::string src = c.s.pick(ids);
    std::string target;
    switch (c.s.weighted({6, 4, 3})) {
        case 0:
            target = "v" + std::to_string(c.s.draw(6));
            if (target == src) return;
            c.note("clone " + src + " to " + target + (before.count(target) ? " (overwrite)" : ""));
            m.cloneVariant(src, target, before.count(target) > 0);
            before[target] = before.at(src);
            c.label("clone");
            break;
        case 1: break;
        default:
            if (src == iidm::VariantManager::getInitialVariantId()) return;
            c.note("remove variant " + src);
            m.removeVariant(src);
            before.erase(src);
            if (src == working) m.setWorkingVariant(iidm::VariantManager::getInitialVariantId());
            break;
    }
    std::string d = diffVariants(before, dumpVariants(n, model::ALL));
    c.check(d.empty(), "variant-change", "after the variant operation:\n" + d);
    if (c.s.chance(60)) {
        ids.clear();
        for (const auto& v : before) ids.push_back(v.first);
        const std::string v = c.s.pick(ids);
        c.note("work on " + v);
        m.setWorkingVariant(v);
    }
}

template <int N> void probe(pbt::Case& c, iidm::Identifiable& i, iidm::Identifiable& j, int& alive, std::map<std::pair<std::string, int>, int>& model) {
    const auto key = std::make_pair(i.getId(), N);
    const std::string what = "probe" + std::to_string(N) + " of " + i.getId();
    const int before = alive;
    switch (c.s.weighted({5, 3, 2, 2})) {
        case 0: {
            const int v = static_cast<int>(c.s.draw(1000));
            const bool onlyLoads = c.s.chance(25), isLoad = dynamic_cast<iidm::Load*>(&i) != nullptr;
            c.note("add " + what + (onlyLoads ? " (loads only)" : ""));
            bool refused = false;
            try { i.addExtension(std::unique_ptr<Extension>(new Probe<N>(i, v, alive, onlyLoads))); }
            catch (const powsybl::AssertionError&) { refused = true; }
            catch (const PowsyblException&) { refused = true; }
            c.checkEq(refused, onlyLoads && !isLoad, "wrong-owner", what);
            if (refused) { c.checkEq(alive, before, "refused-kept", what); c.label("refused"); }
            else { if (model.count(key)) c.label("replaced"); model[key] = v; }
            break;
        }
        case 1:
            c.note("remove " + what);
            i.removeExtension<Probe<N>>();
            model.erase(key);
            break;
        case 2: {  // built for another object
            if (&i == &j) break;
            c.note("add a foreign " + what);
            bool refused = false;
            try { i.addExtension(std::unique_ptr<Extension>(new Probe<N>(j, 1, alive, false))); }
            catch (const PowsyblException&) { refused = true; }
            c.check(refused, "foreign-accepted", what + " belongs to " + j.getId());
            c.checkEq(alive, before, "refused-kept", what);
            break;
        }
        default: break;
    }
    auto r = i.findExtension<Probe<N>>();
    c.checkEq(static_cast<bool>(r), model.count(key) == 1, "probe-presence", what);
    if (r) c.checkEq(r.get().value(), model.at(key), "probe-value", what);
    c.checkEq(static_cast<size_t>(alive), model.size(), "probe-lifetime", what + ": extensions alive");
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C18";
    cfg.rule = "histories of adding, replacing, changing and removing all 18 kinds of extensions (and extensions of our own) on every kind of object with valid and invalid data, with variant changes and removals of objects; "
               "outcome, values, dumps of all variants and every way of finding an extension are compared with a model. Non-trivial: an extension added and another operation on the extensions of the same case accepted.";
    cfg.quick = 14000;
    cfg.thorough = 500000;
    cfg.quickSeconds = 45;
    std::vector<std::string> labels = {"refused", "state", "replaced", "clone"};
    for (const Kind& k : kinds()) labels.push_back(k.name);
    labels.resize(labels.size() - 3);
    cfg.requiredLabels = labels;
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        int alive = 0;
        std::map<std::pair<std::string, int>, int> probes;
        {
            Network n("n", "test");
            Options o;
            o.maxSubstations = 2;
            o.maxLevels = 2;
            o.maxEquipment = 6;
            o.extreme = true;
            World w(c, n, o);
            w.build();
            while (c.s.more(1)) w.variantOp();
            const bool probing = c.s.chance(25);
            w.o.wild = true;
            w.o.wildPct = c.s.pickOf({6u, 3u, 20u});
            std::map<std::string, Dump> before = dumpVariants(n, model::ALL);
            std::vector<std::string> focus;
            for (unsigned k = 0; k < 3; ++k) { auto* x = w.pickVaried(); if (x) focus.push_back(x->getId()); }
            // those with state in their extensions
            for (auto& l : n.getLoads()) if (c.s.chance(60)) { focus.push_back(l.getId()); focus.push_back(l.getId()); }
            unsigned steps = 2 + static_cast<unsigned>(c.s.draw(14));
            unsigned adds = 0, others = 0;
            for (unsigned i = 0; i < steps; ++i) {
                if (c.s.chance(12)) { variantStep(c, n, before); continue; }
                iidm::Identifiable* x = c.s.chance(75) && !focus.empty() ? &n.get<iidm::Identifiable>(c.s.pick(focus)) : w.pickVaried();
                if (!x) return;
                if (probing && c.s.chance(50)) {
                    iidm::Identifiable* y = w.pickVaried();
                    switch (c.s.draw(3)) {
                        case 0: probe<0>(c, *x, *y, alive, probes); break;
                        case 1: probe<1>(c, *x, *y, alive, probes); break;
                        default: probe<2>(c, *x, *y, alive, probes); break;
                    }
                    consistent(c, *x);
                    std::map<std::string, Dump> after = dumpVariants(n, model::ALL);
                    std::string d = diffVariants(before, after, [x](const std::string& k) { return startsWith(k, prefixOf(*x) + ".ext") ; });
                    c.check(d.empty(), "side-effect", "probe on " + x->getId() + " changes:\n" + d);
                    before = std::move(after);
                    continue;
                }
                w.extensionOn(*x);
                const Rec& r = w.last;
                if (r.skipped) continue;
                w.requirePrediction("extension");
                consistent(c, *x);
                std::map<std::string, Dump> after = dumpVariants(n, model::ALL);
                const std::string working = n.getVariantManager().getWorkingVariantId();
                const std::string own = prefixOf(*x) + ".ext[" + r.extName + "]", list = prefixOf(*x) + ".extensions", by = prefixOf(*x) + ".extByName[" + r.extName + "]";
                if (!r.accepted) {
                    c.label("refused");
                    std::string d = diffVariants(before, after);
                    c.check(d.empty(), "refused-with-effect", r.what + " '" + r.id + "' is refused (" + r.error + ") and changes:\n" + d);
                } else {
                    c.label(r.extName);
                    if (r.extKind == ADD && before.begin()->second.count(own + ".owner")) c.label("replaced");
                    if (r.state) c.label("state");
                    (r.extKind == ADD ? adds : others)++;
                    for (const auto& v : after) {
                        const bool here = v.first == working;
                        const Dump& b = before.at(v.first);
                        for (const auto& e : r.exp) {
                            auto it = v.second.find(e.first);
                            c.check(it != v.second.end(), "value-missing", r.what + ": no " + e.first + " in variant " + v.first);
                            const bool onlyHere = r.extName == "slackTerminal" || (r.extKind != ADD && it->second.state);
                            if (here || !onlyHere) c.checkEq(it->second.v, e.second, "value-differs", r.what + " '" + r.id + "': " + e.first + " in variant " + v.first + ":");
                            else if (b.count(e.first) && r.extKind != ADD) c.checkEq(it->second.v, b.at(e.first).v, "visible-elsewhere", r.what + " '" + r.id + "': " + e.first + " in variant " + v.first + ":");
                        }
                        std::string bad;
                        for (const auto& e : model::diffMap(b, v.second)) {
                            if (r.exp.count(e.first) || r.also.count(e.first)) continue;
                            if (r.extKind != SET && (startsWith(e.first, own) || e.first == list || e.first == by)) continue;
                            bad += e.first + ": " + e.second.first + " -> " + e.second.second + "\n";
                        }
                        c.check(bad.empty(), "side-effect", r.what + " '" + r.id + "' changes something else in variant " + v.first + ":\n" + bad);
                        const bool present = v.second.count(own + ".owner") > 0;
                        c.checkEq(present, r.extKind != REMOVE, "presence", r.what + " '" + r.id + "' in variant " + v.first);
                    }
                }
                before = std::move(after);
            }
            for (auto* x : w.identifiables()) consistent(c, *x);
            c.nontrivial(adds > 0 && adds + others > 1);
        }
        c.checkEq(alive, 0, "leak", "extensions alive after their network");
    });
}
