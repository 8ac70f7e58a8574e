// C12: a refused creation leaves no trace and an accepted one has its values.
#include "../model/gen.hpp"

using namespace gen;
using model::Dump;

static bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

static void smallOther(pbt::Case& c, Network& n) {
    Options o;
    o.maxSubstations = 1; o.maxLevels = 2; o.maxEquipment = 3; o.extreme = false; o.nasty = false;
    World w(c, n, o);
    w.build();
}

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C12";
    cfg.rule = "a random network (0-5 variants with different states) on which creations of every kind of object, limit set, tap changer and reactive limits are tried with valid, missing, out-of-range, conflicting and boundary data; "
               "each outcome is compared with the documented constraints, a refused creation with the complete dump of all variants before it, an accepted one with the values given. "
               "Non-trivial: at least one creation refused and one accepted after the initial network.";
    cfg.quick = 12000;
    cfg.thorough = 400000;
    cfg.quickSeconds = 60;
    cfg.requiredLabels = {"refused", "accepted"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Network n(c.s.chance(50) ? "n" : "net", "test");
        Network foreign("foreign", "test");
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 6;
        o.infinite = false;
        o.knownDefects = true;
        World w(c, n, o);
        w.build();
        if (c.s.chance(70)) smallOther(c, foreign);
        w.other = &foreign;
        while (c.s.more(1)) w.variantOp();
        for (unsigned k = static_cast<unsigned>(c.s.draw(4)); k > 0; --k) w.set(true);
        w.o.wild = true;
        w.o.wildPct = c.s.pickOf({4u, 2u, 8u, 15u});
        unsigned acc = 0, ref = 0;
        std::map<std::string, Dump> before = dumpVariants(n, model::ALL);
        unsigned steps = 1 + static_cast<unsigned>(c.s.draw(10));
        for (unsigned i = 0; i < steps; ++i) {
            if (c.s.chance(8)) { w.variantOp(); before = dumpVariants(n, model::ALL); continue; }
            if (c.s.chance(8)) { w.connectOp(); before = dumpVariants(n, model::ALL); continue; }
            w.addAny();
            const Rec& r = w.last;
            if (r.skipped) continue;
            w.requirePrediction("creation");
            std::map<std::string, Dump> after = dumpVariants(n, model::ALL);
            if (!r.accepted) {
                ++ref;
                c.label("refused");
                std::string d = diffVariants(before, after);
                c.check(d.empty(), r.knownDefect.empty() ? "refused-with-effect" : r.knownDefect, r.what + " '" + r.id + "' is refused (" + r.error + ") and changes:\n" + d);
                if (!r.id.empty() && !before.begin()->second.count(r.prefix + ".id")) {
                    auto found = n.find<iidm::Identifiable>(r.id);
                    bool existed = false;
                    for (const auto& e : before.begin()->second) {
                        if (e.first.size() > 3 && e.first.compare(e.first.size() - 3, 3, ".id") == 0 && e.second.v == r.id) existed = true;
                        if (e.first.size() > 8 && e.first.compare(e.first.size() - 8, 8, ".aliases") == 0 && e.second.v.find(r.id) != std::string::npos) existed = true;
                    }
                    c.check(!found || existed, "ghost-object", r.what + " '" + r.id + "' is refused (" + r.error + ") but can be looked up");
                }
            } else {
                ++acc;
                c.label("accepted");
                std::string l;
                for (char ch : r.what.substr(0, 24)) { if (ch == '_' || (ch >= '0' && ch <= '9')) break; l += ch; }
                c.label(l.substr(0, l.find(' ', 4)));
                for (const auto& v : after) {
                    for (const auto& e : r.exp) {
                        auto it = v.second.find(e.first);
                        c.check(it != v.second.end(), "value-missing", r.what + ": no " + e.first + " in variant " + v.first);
                        c.checkEq(it->second.v, e.second, "value-differs", r.what + ": " + e.first + " in variant " + v.first + ":");
                    }
                    // nothing else changes
                    Dump a = model::only(before.at(v.first), model::STRUCT | model::STATE), b = model::only(v.second, model::STRUCT | model::STATE);
                    std::string bad;
                    for (const auto& e : model::diffMap(a, b)) {
                        if (!r.prefix.empty() && (e.first == r.prefix || startsWith(e.first, r.prefix + "."))) continue;
                        if (r.exp.count(e.first) || r.also.count(e.first)) continue;
                        if (e.first.find(".nodes") != std::string::npos || e.first.find(".internalConnections") != std::string::npos) continue;
                        bad += e.first + ": " + e.second.first + " -> " + e.second.second + "\n";
                    }
                    c.compared();
                    c.check(bad.empty(), "side-effect", r.what + " '" + r.id + "' changes something else in variant " + v.first + ":\n" + bad);
                }
            }
            before = std::move(after);
        }
        c.nontrivial(acc > 0 && ref > 0);
    });
}
