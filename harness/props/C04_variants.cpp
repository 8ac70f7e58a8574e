// C04: a change made in one variant is visible in that variant only.
#include "../model/gen.hpp"

using namespace gen;
using model::Dump;

namespace {

Dump without(const Dump& d, bool state) {
    Dump r;
    for (const auto& e : d) if (e.second.state == state) r.insert(e);
    return r;
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C04";
    cfg.rule = "histories of variant creation, overwriting, removal and selection mixed with changes of every per-variant attribute, switch, connection and extension state, creations, removals and topology queries; "
               "the complete dump of every variant after each step is compared with a model: a clone equals its source, a state change alters only the working variant and reads back, all other data is equal in all variants, objects created later have the same state everywhere. "
               "Non-trivial: a state change accepted while at least two variants exist.";
    cfg.quick = 8000;
    cfg.thorough = 300000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"clone", "overwrite", "change", "creation", "recycled"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Network n("n", "test");
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 6;
        o.nasty = false;
        o.variants = true;
        World w(c, n, o);
        w.build();
        for (unsigned k = static_cast<unsigned>(c.s.draw(3)); k > 0; --k) w.extension();
        w.randomState(static_cast<unsigned>(c.s.draw(4)));
        const unsigned flags = c.s.chance(40) ? model::ALL : model::STRUCT | model::STATE | model::EXT | model::TOPO;
        auto& vm = n.getVariantManager();
        std::map<std::string, Dump> before = dumpVariants(n, flags);
        bool removedOne = false;
        unsigned steps = 2 + static_cast<unsigned>(c.s.draw(16));
        for (unsigned i = 0; i < steps; ++i) {
            const std::string working = vm.getWorkingVariantId();
            std::string src, target, kind;
            switch (c.s.weighted({10, 22, 10, 14, 6, 10, 6, 8, 4, 12})) {
                case 0: {  // clone
                    std::vector<std::string> ids;
                    for (const auto& v : before) ids.push_back(v.first);
                    src = c.s.pick(ids);
                    target = "v" + std::to_string(c.s.draw(5));
                    if (target == src) continue;
                    const bool exists = before.count(target) > 0;
                    const bool many = c.s.chance(20);
                    c.note("clone " + src + " to " + target + (exists ? " (overwrite)" : ""));
                    if (many && !exists && !before.count(target + "b")) {
                        vm.cloneVariant(src, {target, target + "b"});
                    } else vm.cloneVariant(src, target, exists || c.s.chance(30));
                    c.label(exists ? "overwrite" : "clone");
                    if (removedOne && !exists) c.label("recycled");
                    std::map<std::string, Dump> after = dumpVariants(n, flags);
                    c.check(after.count(target) == 1, "clone-missing");
                    std::string d = model::diff(before.at(src), after.at(target));
                    c.check(d.empty(), "clone-differs", "variant " + target + " differs from its source " + src + ":\n" + d);
                    for (const auto& v : before) {
                        if (v.first == target) continue;
                        d = model::diff(v.second, after.at(v.first));
                        c.check(d.empty(), "clone-touches-other", "cloning " + src + " to " + target + " changes variant " + v.first + ":\n" + d);
                    }
                    c.checkEq(vm.getWorkingVariantId(), working, "clone-working", "working variant");
                    if (c.s.chance(50)) vm.setWorkingVariant(target);
                    before = std::move(after);
                    continue;
                }
                case 1: w.set(true); kind = "set"; break;
                case 2: w.switchOp(); kind = "switch"; break;
                case 3: w.connectOp(); kind = "connect"; break;
                case 4: w.setConnectableBus(); kind = "connectable bus"; break;
                case 5: {  // select
                    std::vector<std::string> ids;
                    for (const auto& v : before) ids.push_back(v.first);
                    const std::string v = c.s.pick(ids);
                    c.note("work on " + v);
                    vm.setWorkingVariant(v);
                    continue;
                }
                case 6: {  // remove
                    std::vector<std::string> ids;
                    for (const auto& v : before) if (v.first != iidm::VariantManager::getInitialVariantId()) ids.push_back(v.first);
                    if (ids.empty()) continue;
                    const std::string v = c.s.pick(ids);
                    c.note("remove variant " + v);
                    vm.removeVariant(v);
                    if (v == working) vm.setWorkingVariant(iidm::VariantManager::getInitialVariantId());
                    removedOne = true;
                    before.erase(v);
                    std::string d = diffVariants(before, dumpVariants(n, flags));
                    c.check(d.empty(), "remove-variant-effect", "removing variant " + v + " changes:\n" + d);
                    c.label("variant removed");
                    continue;
                }
                case 7: {
                    std::vector<iidm::Identifiable*> v;
                    for (auto* x : w.identifiables()) if (!x->getExtensions().empty()) v.push_back(x);
                    if (v.empty()) continue;
                    w.extensionOn(*v[c.s.draw(v.size())], SET);
                    kind = "extension";
                    break;
                }
                case 8: w.addAny(); kind = "creation"; break;
                default: {  // many changes of the working variant at once
                    std::vector<std::string> withState;
                    for (auto* x : w.identifiables()) if (!x->getExtensions().empty()) withState.push_back(x->getId());
                    for (unsigned k = 4 + static_cast<unsigned>(c.s.draw(24)); k > 0; --k) {
                        switch (c.s.weighted({10, 1, 2, 2})) {
                            case 0: w.set(true); break;
                            case 1: w.switchOp(); break;
                            case 2: w.connectOp(); break;
                            default: if (!withState.empty()) w.extensionOn(n.get<iidm::Identifiable>(c.s.pick(withState)), STATE_SET); break;
                        }
                    }
                    std::map<std::string, Dump> after = dumpVariants(n, flags);
                    for (const auto& v : after) {
                        if (v.first == working) continue;
                        std::string d = model::diff(before.at(v.first), v.second);
                        c.check(d.empty(), "visible-elsewhere", "changes in variant " + working + " change variant " + v.first + ":\n" + d);
                    }
                    c.label("change");
                    c.label("many changes");
                    c.nontrivial(after.size() >= 2);
                    before = std::move(after);
                    continue;
                }
            }
            const Rec r = w.last;
            if (r.skipped || !r.accepted) continue;
            std::map<std::string, Dump> after = dumpVariants(n, flags);
            c.checkEq(vm.getWorkingVariantId(), working, "working-variant", "working variant");
            if (kind == "creation") {
                c.label("creation");
                // what is created is the same everywhere, the rest keeps its state
                for (const auto& v : after) {
                    for (const auto& e : v.second) {
                        auto f = after.begin()->second.find(e.first);
                        auto b = before.at(v.first).find(e.first);
                        if (b == before.at(v.first).end()) {
                            if (e.second.flag & (model::STRUCT | model::STATE | model::EXT)) {
                                c.check(f != after.begin()->second.end(), "created-differs", e.first);
                                c.checkEq(e.second.v, f->second.v, "created-differs", r.what + " '" + r.id + "': " + e.first + " differs between variants " + v.first + " and " + after.begin()->first + ":");
                            }
                        } else if (e.second.state && (e.second.flag & (model::STATE | model::EXT)) && !r.exp.count(e.first) && !r.also.count(e.first)) {
                            c.checkEq(e.second.v, b->second.v, "creation-changes-state", r.what + " '" + r.id + "': " + e.first + " in variant " + v.first + ":");
                        }
                    }
                }
            } else {
                const bool state = kind == "extension" ? false : r.state;
                for (const auto& v : after) {
                    const bool here = v.first == working;
                    if (!here && state) {
                        std::string d = model::diff(before.at(v.first), v.second);
                        c.check(d.empty(), "visible-elsewhere", r.what + " '" + r.id + "' in variant " + working + " changes variant " + v.first + ":\n" + d);
                    }
                    for (const auto& e : r.exp) {
                        auto it = v.second.find(e.first);
                        if (it == v.second.end()) { c.check(!here, "value-missing", e.first); continue; }
                        if (here || !it->second.state) c.checkEq(it->second.v, e.second, "not-read-back", r.what + " '" + r.id + "': " + e.first + " in variant " + v.first + ":");
                        else c.checkEq(it->second.v, before.at(v.first).at(e.first).v, "visible-elsewhere", r.what + " '" + r.id + "' in variant " + working + ": " + e.first + " in variant " + v.first + ":");
                    }
                }
                c.label("change");
                c.label(kind);
                c.nontrivial(after.size() >= 2);
            }
            // data that does not depend on the variant is the same in all of them
            const Dump shared = without(model::only(after.begin()->second, model::STRUCT | model::STATE | model::EXT), false);
            for (const auto& v : after) {
                std::string d = model::diff(shared, without(model::only(v.second, model::STRUCT | model::STATE | model::EXT), false));
                c.check(d.empty(), "shared-differs", r.what + " '" + r.id + "': variants " + after.begin()->first + " and " + v.first + " differ in shared data:\n" + d);
            }
            before = std::move(after);
        }
    });
}
