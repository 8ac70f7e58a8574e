// C19: a network obtained by moving another one is complete and usable.
#include "../model/gen.hpp"
#include "../model/xml.hpp"

using namespace gen;
using model::Dump;

namespace {

// One random operation; its description, outcome and error are the observation.
std::string step(World& w, bool wildOps) {
    w.o.wild = wildOps;
    switch (w.s.weighted({16, 12, 8, 10, 5, 14, 8, 6, 6, 10, 5, 4})) {
        case 0: w.set(false); break;
        case 1: w.addAny(); break;
        case 2: w.switchOp(); break;
        case 3: w.connectOp(); break;
        case 4: w.setConnectableBus(); break;
        case 5: w.variantOp(); break;
        case 6: w.extension(); break;
        case 7: w.property(); break;
        case 8: w.alias(); break;
        case 9: w.removeOp(true); break;
        case 10: w.set(true); break;
        default: w.addInternalConnection(*w.pickOne(w.levels())); break;
    }
    if (w.last.skipped) return "";
    return w.last.what + (w.last.accepted ? " ok" : " refused: " + w.last.error);
}

std::vector<std::string> history(World& w, unsigned steps, bool wildOps) {
    std::vector<std::string> r;
    for (unsigned i = 0; i < steps; ++i) {
        if (w.levels().empty()) break;
        r.push_back(step(w, wildOps));
    }
    return r;
}

std::string guarded(const std::function<std::string()>& f) {
    try {
        return f();
    } catch (const std::exception& e) {
        return std::string("error: ") + e.what();
    }
}

// every object refers to the network given
std::string strangers(const Network& n) {
    for (const auto& i : n.getIdentifiables()) {
        if (&i.getNetwork() != &n) return i.getId() + " belongs to another network";
        if (&n.get(i.getId()) != &i) return i.getId() + " is found as another object";
        for (const auto& a : i.getAliases()) if (&n.get(a) != &i) return a + " is found as another object";
    }
    for (const auto& eq : n.getConnectables<iidm::Connectable>()) {
        for (const auto& t : eq.getTerminals()) {
            if (&t.get().getVoltageLevel().getNetwork() != &n) return eq.getId() + " is in another network";
            if (&t.get().getConnectable().get() != &eq) return eq.getId() + " has another terminal";
        }
    }
    return "";
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C19";
    cfg.rule = "a random history builds network A and, with the same choices, network B; A is then moved (once or several times, calculated topologies queried or not, from and to the heap, a container or a function, the original destroyed) and compared with B in every variant; "
               "a second random history applied to the moved network and repeated on B must give the same outcomes, errors, states, working variants and documents. "
               "Non-trivial: at least three operations were accepted after the move.";
    cfg.quick = 14000;
    cfg.thorough = 200000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"variants", "no working variant", "several moves", "extensions", "multi thread", "refused afterwards", "removal afterwards", "exported", "alone"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 6;
        o.nasty = c.s.chance(20);
        o.variants = true;
        o.extensions = true;
        const unsigned flags = c.s.chance(40) ? model::ALL : model::STRUCT | model::STATE | model::EXT | model::TOPO;
        const bool multi = c.s.chance(20);
        const bool noWorking = c.s.chance(6);
        std::unique_ptr<Network> a = stdcxx::make_unique<Network>("net", "test");
        Network b("net", "test");

        auto before = [&](World& w) {
            Network& n = w.n;
            n.setForecastDistance(static_cast<int>(w.s.draw(100)));
            n.setCaseDate(stdcxx::DateTime::parse("2021-03-0" + std::to_string(1 + w.s.draw(9)) + "T10:20:30.000+01:00"));
            if (w.s.chance(30)) n.addAlias("netAlias", w.s.chance(50) ? "kind" : "");
            if (w.s.chance(30)) n.setProperty("p", "v");
            if (w.s.chance(95)) w.build();
            if (w.s.chance(70)) for (unsigned k = static_cast<unsigned>(w.s.draw(4)); k > 0; --k) w.extension();
            const unsigned steps = static_cast<unsigned>(w.s.draw(12));
            std::vector<std::string> r = history(w, steps, false);
            if (multi) n.getVariantManager().allowVariantMultiThreadAccess(true);
            if (noWorking) {
                n.getVariantManager().cloneVariant(iidm::VariantManager::getInitialVariantId(), "gone", true);
                n.getVariantManager().setWorkingVariant("gone");
                n.getVariantManager().removeVariant("gone");
            }
            return r;
        };
        std::vector<uint64_t> choices;
        c.s.record(&choices);
        World wa(c, *a, o);
        std::vector<std::string> ra = before(wa);
        c.s.record(nullptr);
        pbt::Src again(choices, nullptr, 0);
        Case cb(again, false, c.size());
        World wb(cb, b, o);
        std::vector<std::string> rb = before(wb);
        if (ra != rb) throw pbt::Discard{"the two histories differ before the move"};

        // (calculated topologies may or may not be known at the time of the move)
        if (c.s.chance(50) && !noWorking) dumpVariants(*a, flags);
        const std::string aText = guarded([&]() { return model::toXml(*a); });

        std::unique_ptr<Network> m;
        unsigned moves = 1 + static_cast<unsigned>(c.s.weighted({60, 25, 15}));
        c.note("moved " + std::to_string(moves) + " times");
        if (moves > 1) c.label("several moves");
        m = stdcxx::make_unique<Network>(std::move(*a));
        const bool keepOriginal = c.s.chance(20);  // the original is destroyed at the end, or now
        if (!keepOriginal) a.reset(); else c.label("original kept");
        for (unsigned k = 1; k < moves; ++k) {
            if (c.s.chance(30)) {
                std::vector<Network> v;
                v.push_back(std::move(*m));
                m.reset();
                m = stdcxx::make_unique<Network>(std::move(v.front()));
            } else {
                auto pass = [](Network&& n) { Network local(std::move(n)); return local; };
                std::unique_ptr<Network> next = stdcxx::make_unique<Network>(pass(std::move(*m)));
                m = std::move(next);
            }
        }

        auto compare = [&](const std::string& key, const std::string& context) {
            c.checkEq(guarded([&]() { return m->getVariantManager().getWorkingVariantId(); }), guarded([&]() { return b.getVariantManager().getWorkingVariantId(); }), key + "-working", context + " working variant");
            c.check(m->getVariantManager().getVariantIds() == b.getVariantManager().getVariantIds(), key + "-variants", context);
            c.checkEq(m->getVariantManager().isVariantMultiThreadAccessAllowed(), b.getVariantManager().isVariantMultiThreadAccessAllowed(), key + "-multi", context);
            const std::string none = guarded([&]() { return b.getVariantManager().getWorkingVariantId(); });
            if (none.compare(0, 6, "error:") == 0) return;
            std::string d = diffVariants(dumpVariants(b, flags), dumpVariants(*m, flags));
            c.check(d.empty(), key, context + " (original -> moved):\n" + d);
            const std::string s = strangers(*m);
            c.check(s.empty(), key + "-owner", context + ": " + s);
        };
        if (noWorking) c.label("no working variant");
        if (multi) c.label("multi thread");
        if (b.getVariantManager().getVariantIds().size() > 1) c.label("variants");
        for (const auto& i : b.getIdentifiables()) if (!i.getExtensions().empty()) c.label("extensions");
        c.checkEq(guarded([&]() { return model::toXml(*m); }), aText, "moved-document", "document after the move");
        compare("moved", "after the move");
        if (noWorking) {
            m->getVariantManager().setWorkingVariant(iidm::VariantManager::getInitialVariantId());
            b.getVariantManager().setWorkingVariant(iidm::VariantManager::getInitialVariantId());
            compare("moved-selected", "after the move and the selection of a variant");
        }

        // afterwards both behave the same
        choices.clear();
        c.s.record(&choices);
        World wm(c, *m, o);
        wm.counter = wa.counter;
        const bool wild = c.s.chance(40);
        const unsigned steps = 1 + static_cast<unsigned>(c.s.draw(14));
        std::vector<std::string> rm = history(wm, steps, wild);
        c.s.record(nullptr);
        pbt::Src replay(choices, nullptr, 0);
        Case cr(replay, false, c.size());
        World wr(cr, b, o);
        wr.counter = wb.counter;
        const bool wild2 = cr.s.chance(40);
        const unsigned steps2 = 1 + static_cast<unsigned>(cr.s.draw(14));
        std::vector<std::string> rr = history(wr, steps2, wild2);
        unsigned done = 0;
        for (size_t i = 0; i < std::max(rm.size(), rr.size()); ++i) {
            const std::string x = i < rm.size() ? rm[i] : "", y = i < rr.size() ? rr[i] : "";
            c.checkEq(x, y, "behaves-differently", "operation after the move");
            if (x.empty()) continue;
            if (x.find(" refused: ") != std::string::npos) c.label("refused afterwards"); else ++done;
            if (x.compare(0, 6, "remove") == 0) c.label("removal afterwards");
        }
        compare("afterwards", "after the same operations");
        const std::string doc = guarded([&]() { return model::toXml(*m); });
        c.checkEq(doc, guarded([&]() { return model::toXml(b); }), "afterwards-document", "document");
        c.label("exported");
        c.nontrivial(done >= 3);
        // the moved network alone (nothing refers to the twin or to the original)
        if (c.s.chance(30)) {
            c.label("alone");
            a.reset();
            Network last(std::move(*m));
            m.reset();
            c.checkEq(guarded([&]() { return model::toXml(last); }), doc, "alone-document", "document");
        }
    });
}
