// C23: asking a network something never changes it nor any later answer.
#include "../model/asker.hpp"

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C23";
    cfg.rule = "a random history (creations, changes, switching, connections, extensions, variants, removals) builds network A with random questions after any of its steps (whole state, documents with random options, traversals, buses, components, lookups of missing and of wrongly typed objects, "
               "flows and limits, runs for each variant, listings, utilities, creations begun and abandoned, documents read into another network), each also asked twice; the same history without any question builds network B: outcomes, errors, the state in every variant and the document must be equal. "
               "Non-trivial: at least three steps were accepted and three questions asked.";
    cfg.quick = 12000;
    cfg.thorough = 300000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"state", "document", "visit", "traversal", "buses", "components", "missing", "electrical", "each variant", "listings", "utilities", "abandoned creation", "document read", "variants", "lists", "list gone through again"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 6;
        o.variants = true;
        o.extensions = true;
        o.wild = c.s.chance(30);
        const unsigned steps = 1 + static_cast<unsigned>(c.s.draw(12));
        const unsigned pct = static_cast<unsigned>(c.s.draw(3)) * 30 + 20;
        Network a("net", "test"), b("net", "test");
        unsigned asked = 0;

        // the same choices for both networks, the questions apart
        auto run = [&](World& w, const std::function<void()>& questions) {
            std::vector<std::string> r;
            w.build();
            for (unsigned i = 0; i < steps; ++i) {
                questions();
                if (w.levels().empty()) break;
                switch (w.s.weighted({16, 12, 10, 10, 5, 16, 10, 4, 4, 8, 8, 4})) {
                    case 0: w.set(false); break;
                    case 1: w.addAny(); break;
                    case 2: w.switchOp(); break;
                    case 3: w.connectOp(); break;
                    case 4: w.setConnectableBus(); break;
                    case 5: w.variantOp(); break;
                    case 6: w.extension(); break;
                    case 7: w.property(); break;
                    case 8: w.alias(); break;
                    case 9: w.removeOp(true); break;
                    case 10: w.set(true); break;
                    default: w.addInternalConnection(*w.pickOne(w.levels())); break;
                }
                r.push_back(w.last.skipped ? "" : w.last.what + (w.last.accepted ? " ok" : " refused: " + w.last.error));
            }
            questions();
            return r;
        };

        std::vector<uint64_t> choices;
        World wa(c, a, o);
        c.s.record(&choices);
        const std::vector<std::string> ra = run(wa, [&]() {
            c.s.record(nullptr);
            Asker q{c, a, wa, c.s};
            while (c.s.chance(static_cast<int>(pct)) && asked < 40) {
                ++asked;
                q.ask();
            }
            c.s.record(&choices);
        });
        c.s.record(nullptr);
        pbt::Src again(choices, nullptr, 0);
        Case cb(again, false, c.size());
        World wb(cb, b, o);
        const std::vector<std::string> rb = run(wb, []() {});
        unsigned done = 0;
        for (size_t i = 0; i < std::max(ra.size(), rb.size()); ++i) {
            const std::string x = i < ra.size() ? ra[i] : "", y = i < rb.size() ? rb[i] : "";
            c.checkEq(x, y, "outcome-changed", "operation after questions, and without");
            if (!x.empty() && x.find(" refused: ") == std::string::npos) ++done;
        }
        c.checkEq(guarded([&]() { return a.getVariantManager().getWorkingVariantId(); }), guarded([&]() { return b.getVariantManager().getWorkingVariantId(); }), "working-variant", "working variant");
        const std::string da = guarded([&]() { return model::toXml(a); }), db = guarded([&]() { return model::toXml(b); });
        if (a.getVariantManager().getVariantIds().size() > 1) c.label("variants");
        const std::string d = diffVariants(dumpVariants(b, model::ALL), dumpVariants(a, model::ALL));
        c.check(d.empty(), "state-changed", "without questions -> with questions:\n" + d);
        c.check(da == db, "document-changed", da == db ? "" : model::firstDifference(db, da));
        c.nontrivial(done >= 3 && asked >= 3);
    });
}
