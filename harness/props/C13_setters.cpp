// C13: a refused change leaves the value, an accepted one is read back.
#include "../model/gen.hpp"

using namespace gen;
using model::Dump;

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C13";
    cfg.rule = "a random network (0-4 variants with different states) on which every settable attribute of random objects is set to valid, boundary, undefined, out-of-range and conflicting values; "
               "the outcome is compared with the documented constraints, a refused change with the complete dump of all variants before it, an accepted one with the value given and every other attribute unchanged. "
               "Non-trivial: at least one change refused and one accepted.";
    cfg.quick = 20000;
    cfg.thorough = 600000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"refused", "accepted", "state", "shared"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Network n("n", "test");
        Network foreign("foreign", "test");
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 7;
        World w(c, n, o);
        w.build();
        if (c.s.chance(25)) {
            Options fo;
            fo.maxSubstations = 1; fo.maxLevels = 2; fo.maxEquipment = 2; fo.extreme = false; fo.nasty = false;
            World(c, foreign, fo).build();
            w.other = &foreign;
        }
        for (unsigned k = static_cast<unsigned>(c.s.draw(4)); k > 0; --k) { w.variantOp(); w.set(true); }
        w.o.wild = true;
        w.o.wildPct = c.s.pickOf({25u, 10u, 5u});
        unsigned acc = 0, ref = 0;
        const unsigned flags = c.s.chance(15) ? model::ALL : model::STRUCT | model::STATE | model::EXT;
        std::map<std::string, Dump> before = dumpVariants(n, flags);
        unsigned steps = 1 + static_cast<unsigned>(c.s.draw(14));
        // concentrate on few objects so that constraints between attributes matter
        std::vector<std::string> focus;
        for (unsigned k = 0; k < 2; ++k) {
            auto* v = w.pickVaried();
            if (v) focus.push_back(v->getId());
        }
        for (unsigned i = 0; i < steps; ++i) {
            if (c.s.chance(8)) { w.variantOp(); before = dumpVariants(n, flags); continue; }
            if (c.s.chance(60) && !focus.empty()) w.setOn(n.get<iidm::Identifiable>(c.s.pick(focus)), false);
            else w.set(false);
            const Rec& r = w.last;
            if (r.skipped) continue;
            w.requirePrediction("set");
            std::map<std::string, Dump> after = dumpVariants(n, flags);
            const std::string working = n.getVariantManager().getWorkingVariantId();
            if (!r.accepted) {
                ++ref;
                c.label("refused");
                std::string d = diffVariants(before, after);
                c.check(d.empty(), "refused-with-effect", r.what + " '" + r.id + "' is refused (" + r.error + ") and changes:\n" + d);
            } else {
                ++acc;
                c.label("accepted");
                c.label(r.state ? "state" : "shared");
                {
                    std::string k = r.exp.empty() ? "?" : r.exp.begin()->first;
                    c.label(k.substr(0, k.find(':')) + " ." + k.substr(k.rfind('.') + 1));
                }
                for (const auto& v : after) {
                    const bool here = v.first == working;
                    if (here || !r.state) {
                        for (const auto& e : r.exp) {
                            auto it = v.second.find(e.first);
                            c.check(it != v.second.end(), "value-missing", r.what + ": no " + e.first + " in variant " + v.first);
                            if (!here && it->second.state) continue;
                            c.checkEq(it->second.v, e.second, "value-differs", r.what + " '" + r.id + "': " + e.first + " in variant " + v.first + ":");
                        }
                    }
                    Dump a = model::only(before.at(v.first), model::STRUCT | model::STATE | model::EXT | model::LISTS), b = model::only(v.second, model::STRUCT | model::STATE | model::EXT | model::LISTS);
                    std::string bad;
                    for (const auto& e : model::diffMap(a, b)) {
                        if ((here || !r.state) && r.exp.count(e.first)) continue;
                        if (r.also.count(e.first)) continue;
                        bad += e.first + ": " + e.second.first + " -> " + e.second.second + "\n";
                    }
                    c.compared();
                    c.check(bad.empty(), "side-effect", r.what + " '" + r.id + "' changes something else in variant " + v.first + ":\n" + bad);
                }
            }
            before = std::move(after);
        }
        c.nontrivial(acc > 0 && ref > 0);
    });
}
