// C10: connection requests do what they report and touch nothing else.
#include "../model/shadow.hpp"

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C10";
    cfg.rule = "random levels (feeder bays, couplings, rings, parallel paths, disconnectors and load break switches, internal connections, isolated nodes; buses with several terminals) with connect / disconnect requests on random terminals, "
               "interleaved with other topology edits and variant operations; the answer and the operated switches are compared with an enumeration of all simple paths to the busbar sections, and every view of the network with the plain model, in all variants. "
               "Non-trivial: a request on a node/breaker terminal operated at least one breaker.";
    cfg.quick = 60000;
    cfg.thorough = 200000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"connected", "disconnected", "connection refused", "disconnection refused", "two breakers", "bus terminal", "variants", "busbar section"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        shadow::Limits lim;
        lim.kind = c.s.chance(70) ? 1 : c.s.chance(50) ? 0 : 2;
        lim.levels = 2;
        iidm::Network n("n", "test");
        shadow::Topo t(c, n, lim);
        t.build(2 + static_cast<unsigned>(c.s.draw(8)));
        if (auto* l = t.pickLevel(1)) {
            for (unsigned k = static_cast<unsigned>(c.s.draw(3)); k > 0; --k) c.note(t.addEquipment(*l, "BBS"));
            for (unsigned k = static_cast<unsigned>(c.s.draw(5)); k > 0; --k) if (l->internals.size() + t.m.sws.size() < 16) c.note(t.addBay(*l));
        }
        t.verify("after construction");
        for (unsigned k = 1 + static_cast<unsigned>(c.s.draw(12)); k > 0; --k) {
            std::string d;
            if (c.s.chance(35)) {
                if (t.m.sws.size() > 18) continue;
                d = t.step();
                if (d.empty()) continue;
                c.note(d);
                continue;
            }
            const shadow::Term* term = t.pickTerm();
            if (term == nullptr) continue;
            if (!term->nb) {
                d = t.connectBus();
                c.label("bus terminal");
            } else {
                const bool on = c.s.chance(75) ? !t.terminal(*term).isConnected() : c.s.chance(50);
                bool result = false;
                const auto before = t.m.now().sw;
                d = t.requestNode(*term, on, result);
                unsigned changed = 0;
                for (const auto& s : before) if (s.second.open != t.m.now().sw.at(s.first).open) ++changed;
                c.nontrivial(changed > 0);
                c.label(result ? on ? "connected" : "disconnected" : on ? "connection refused" : "disconnection refused");
                if (changed > 1) c.label("two breakers");
                if (result && t.m.eqs.at(term->eq).bbs()) c.label("busbar section");
            }
            c.note(d);
            t.verify("after " + d);
        }
        if (t.m.variants.size() > 1) c.label("variants");
        std::vector<std::string> ids;
        for (const auto& v : t.m.variants) ids.push_back(v.first);
        for (const auto& v : ids) {
            n.getVariantManager().setWorkingVariant(v);
            t.m.working = v;
            t.verify("at the end in variant " + v);
        }
    });
}
