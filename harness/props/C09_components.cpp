// C09: connected and synchronous components follow the current topology.
#include "../model/shadow.hpp"

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C09";
    cfg.rule = "random histories of creations, removals, switching, connections and variant operations on networks mixing node/breaker and bus/breaker levels joined by lines, transformers and HVDC lines, with and without queries between them; "
               "the component of every bus (through every view), its number, size, content and main flag are compared with a direct computation (repeated joining) from a plain model. "
               "Non-trivial: a change was made after a query and a component joins buses of two levels.";
    cfg.quick = 60000;
    cfg.thorough = 200000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"switching", "connection", "variants", "removal", "several components", "hvdc between components", "voltage", "no query"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        shadow::Limits lim;
        lim.kind = c.s.chance(50) ? 0 : c.s.chance(50) ? 1 : 2;
        lim.substations = 3;
        lim.levels = 5;
        lim.hvdc = 16;
        iidm::Network n("n", "test");
        shadow::Topo t(c, n, lim);
        t.build(8 + static_cast<unsigned>(c.s.draw(40)));
        const bool quiet = c.s.chance(20);
        if (quiet) c.label("no query"); else t.verifyComponents("after construction");
        unsigned done = 0;
        for (unsigned k = 1 + static_cast<unsigned>(c.s.draw(16)); k > 0; --k) {
            const std::string d = t.step();
            if (d.empty()) continue;
            c.note(d);
            if (d.compare(0, 4, "open") == 0 || d.compare(0, 5, "close") == 0) c.label("switching");
            if (d.find("connect ") != std::string::npos) c.label("connection");
            if (d.compare(0, 6, "remove") == 0) c.label("removal");
            if (d.compare(0, 7, "voltage") == 0) c.label("voltage");
            ++done;
            if (!quiet && c.s.chance(60)) {
                if (c.s.chance(20)) t.verify("after " + d);
                t.verifyComponents("after " + d);
            }
        }
        if (t.m.variants.size() > 1) c.label("variants");
        std::vector<std::string> ids;
        for (const auto& v : t.m.variants) ids.push_back(v.first);
        for (const auto& v : ids) {
            n.getVariantManager().setWorkingVariant(v);
            t.m.working = v;
            t.verifyComponents("at the end in variant " + v);
            const shadow::Components comps = shadow::components(t.m, false), sync = shadow::components(t.m, true);
            if (comps.count > 1) c.label("several components");
            if (sync.count > comps.count) c.label("hvdc between components");
            if (done > 0 && comps.acrossLevels) c.nontrivial();
        }
    });
}
