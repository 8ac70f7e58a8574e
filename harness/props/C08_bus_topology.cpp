// C08: bus/breaker levels always expose the merged buses their switches define.
#include "../model/shadow.hpp"

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C08";
    cfg.rule = "random histories of creations, removals, switching, connections, moves to another bus, voltage changes and variant operations on networks of bus/breaker levels, with and without queries between them; "
               "all views of every level are compared with a direct computation (repeated joining) from a plain model of the buses, switches, equipment and connections, in the working variant and in the others. "
               "Non-trivial: a change was made after a query, and a merged bus joins two configured buses.";
    cfg.quick = 50000;
    cfg.thorough = 200000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"switching", "connection", "move", "variants", "removal", "several buses", "voltage", "no query"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        shadow::Limits lim;
        lim.kind = 2;
        iidm::Network n("n", "test");
        shadow::Topo t(c, n, lim);
        t.build(4 + static_cast<unsigned>(c.s.draw(24)));
        const bool quiet = c.s.chance(20);  // no query until the end
        if (quiet) c.label("no query"); else t.verify("after construction");
        unsigned done = 0;
        for (unsigned k = 1 + static_cast<unsigned>(c.s.draw(16)); k > 0; --k) {
            const std::string d = t.step();
            if (d.empty()) continue;
            c.note(d);
            if (d.compare(0, 4, "open") == 0 || d.compare(0, 5, "close") == 0) c.label("switching");
            if (d.find("connect ") != std::string::npos) c.label("connection");
            if (d.compare(0, 11, "connectable") == 0) c.label("move");
            if (d.compare(0, 6, "remove") == 0) c.label("removal");
            if (d.compare(0, 7, "voltage") == 0) c.label("voltage");
            ++done;
            if (!quiet && c.s.chance(60)) t.verify("after " + d);
        }
        if (t.m.variants.size() > 1) c.label("variants");
        std::vector<std::string> ids;
        for (const auto& v : t.m.variants) ids.push_back(v.first);
        for (const auto& v : ids) {
            n.getVariantManager().setWorkingVariant(v);
            t.m.working = v;
            t.verify("at the end in variant " + v);
            for (const auto& l : t.m.levels) {
                const auto g = t.m.busGroups(l.second, t.m.now());
                if (g.size() > 1) c.label("several buses");
                for (const auto& x : g) if (x.buses.size() > 1 && done > 0) c.nontrivial();
            }
        }
    });
}
