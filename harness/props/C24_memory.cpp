// C24: no history of public calls touches memory that is not the network's, and everything is given back at its end.
#include "../model/asker.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

namespace {

struct Run {
    unsigned done = 0, asked = 0, removed = 0;
    bool moved = false;
};

Run run(Case& c, bool labels) {
    Run r;
    Options o;
    o.maxSubstations = 2;
    o.maxLevels = 3;
    o.maxEquipment = 8;
    o.variants = true;
    o.extensions = true;
    o.nasty = c.s.chance(20);
    o.wild = c.s.chance(40);
    auto n = stdcxx::make_unique<Network>("net", "test");
    unsigned counter = 0;
    bool first = true;
    do {
        World w(c, *n, o);
        if (first) w.build(); else w.counter = counter;
        first = false;
        const unsigned steps = 2 + static_cast<unsigned>(c.s.draw(25));
        const unsigned pct = static_cast<unsigned>(c.s.draw(4)) * 15;
        for (unsigned i = 0; i < steps && !w.levels().empty(); ++i) {
            w.last = {};
            switch (c.s.weighted({16, 14, 10, 12, 6, 18, 12, 4, 4, 16, 8, 4})) {
                case 0: w.set(false); break;
                case 1: w.addAny(); break;
                case 2: w.switchOp(); break;
                case 3: w.connectOp(); break;
                case 4: w.setConnectableBus(); break;
                case 5: w.variantOp(); break;
                case 6: w.extension(); break;
                case 7: w.property(); break;
                case 8: w.alias(); break;
                case 9: w.removeOp(true); if (!w.last.skipped && w.last.accepted) ++r.removed; break;
                case 10: w.set(true); break;
                default: w.addInternalConnection(*w.pickOne(w.levels())); break;
            }
            if (!w.last.skipped && w.last.accepted) ++r.done;
            if (c.s.chance(static_cast<int>(pct)) && r.asked < 25) {
                ++r.asked;
                Asker q{c, *n, w, c.s};
                q.ask();
            }
        }
        counter = w.counter;
        if (!c.s.chance(15) || r.moved) break;
        r.moved = true;
        n = stdcxx::make_unique<Network>(std::move(*n));
    } while (true);
    const unsigned end = static_cast<unsigned>(c.s.draw(4));
    if (end == 0) {
        // everything is used once more before the end
        dumpVariants(*n, model::ALL);
        guarded([&]() { return model::toXml(*n); });
    } else if (end == 1) {
        // variants go one after the other
        auto& m = n->getVariantManager();
        m.setWorkingVariant(VariantManager::getInitialVariantId());
        for (const auto& v : m.getVariantIds()) {
            if (v == VariantManager::getInitialVariantId()) continue;
            m.removeVariant(v);
            if (c.s.chance(50)) model::dump(*n, model::ALL);
        }
        if (labels) c.label("variants removed");
    }
    return r;
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C24";
    cfg.rule = "random histories of creations, changes, switching, connections, removals, variant operations, extensions, moves of the network and random questions (state, documents, traversals, views, components, missing objects, limits, utilities, creations begun) run under the address and undefined-behaviour sanitizers; "
               "a part of the histories is repeated and the memory in use after each repetition compared. Non-trivial: at least five operations were accepted, one of them a removal or a question asked.";
    cfg.quick = 6000;
    cfg.thorough = 150000;
    cfg.quickSeconds = 100;
    cfg.requiredLabels = {"removal", "moved", "variants removed", "question"};
#ifdef HAS_ASAN
    cfg.requiredLabels.push_back("memory measured");
#endif
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        std::vector<uint64_t> choices;
        c.s.record(&choices);
        const Run r = run(c, true);
        c.s.record(nullptr);
        if (r.removed > 0) c.label("removal");
        if (r.moved) c.label("moved");
        if (r.asked > 0) c.label("question");
        c.nontrivial(r.done >= 5 && (r.removed > 0 || r.asked > 0));
#ifdef HAS_ASAN
        if (c.s.chance(8)) {
            c.label("memory measured");
            size_t used[3] = {0, 0, 0};
            for (size_t& u : used) {
                {
                    pbt::Src again(choices, nullptr, 0);
                    Case twin(again, false, c.size());
                    run(twin, false);
                }
                u = __sanitizer_get_current_allocated_bytes();
            }
            c.check(used[2] <= used[1] || used[1] <= used[0], "memory-not-given-back", "bytes in use after each repetition of the history: " + std::to_string(used[0]) + ", " + std::to_string(used[1]) + ", " + std::to_string(used[2]));
        }
#endif
    });
}
