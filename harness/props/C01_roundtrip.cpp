// C01: XML export followed by import gives back the same network.
#include "../model/gen.hpp"
#include "../model/xml.hpp"

using namespace gen;
using model::Dump;

namespace {

// kind of attribute a difference is about
std::string attribute(const Dump& a, const Dump& b) {
    auto m = model::diffMap(a, b);
    if (m.empty()) return "";
    std::string k = m.begin()->first, r;
    int depth = 0;
    for (char ch : k) {
        if (ch == '[') ++depth;
        if (depth == 0) r += ch;
        if (ch == ']') --depth;
    }
    return r.substr(r.rfind('.') + 1);
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C01";
    cfg.rule = "random networks with every kind of equipment, limits, tap changers, extensions, unusual numbers and texts, several variants and random states are written and read back; "
               "the complete dumps of the exported variant and of the network read are compared, and the second export with the first one byte for byte. "
               "Non-trivial: at least five pieces of equipment, switches or extensions.";
    cfg.quick = 12000;
    cfg.thorough = 400000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"extensions", "variant", "tap changer", "hvdc", "tie line", "node/breaker", "bus/breaker"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Options o;
        o.maxSubstations = 3;
        o.maxLevels = 4;
        o.maxEquipment = 12;
        o.nasty = c.s.chance(70);
        o.specialIds = o.nasty && c.s.chance(50);
        o.extreme = c.s.chance(70);
        o.serializableOnly = true;
        o.variants = c.s.chance(40);
        Network n(o.specialIds && c.s.chance(50) ? "net <\"&> \xc3\xa9" : "n", "test");
        World w(c, n, o);
        w.build();
        n.setForecastDistance(static_cast<int>(c.s.draw(5)) * 60);
        for (unsigned k = static_cast<unsigned>(c.s.draw(5)); k > 0; --k) {
            switch (c.s.draw(4)) {
                case 0: w.property(); break;
                case 1: w.alias(); break;
                case 2: w.switchOp(); break;
                default: w.connectOp(); break;
            }
        }
        for (unsigned k = static_cast<unsigned>(c.s.draw(8)); k > 0; --k) w.extension();
        w.randomState(static_cast<unsigned>(c.s.draw(8)));
        for (unsigned k = static_cast<unsigned>(c.s.draw(4)); k > 0; --k) w.set(false);
        if (o.variants) {
            for (unsigned k = 1 + static_cast<unsigned>(c.s.draw(3)); k > 0; --k) { w.variantOp(); w.randomState(static_cast<unsigned>(c.s.draw(4))); }
            std::vector<std::string> ids;
            for (const auto& v : n.getVariantManager().getVariantIds()) ids.push_back(v);
            std::sort(ids.begin(), ids.end());
            n.getVariantManager().setWorkingVariant(c.s.pick(ids));
        }
        size_t size = 0;
        for (auto* x : w.identifiables()) size += 1 + static_cast<size_t>(boost::size(x->getExtensions()));
        c.nontrivial(size >= 9);
        if (n.getVariantManager().getWorkingVariantId() != iidm::VariantManager::getInitialVariantId()) c.label("variant");
        if (!n.getHvdcLines().empty()) c.label("hvdc");
        for (const auto& l : n.getLines()) if (l.isTieLine()) c.label("tie line");
        for (auto& t : tapSites(w)) if ((t.ratio && t.ratio->hasRatioTapChanger()) || (t.phase && t.phase->hasPhaseTapChanger())) c.label("tap changer");
        for (auto* x : w.identifiables()) if (!x->getExtensions().empty()) { c.label("extensions"); for (const auto& e : x->getExtensions()) c.label("ext " + e.getName()); }
        for (auto* vl : w.levels()) c.label(vl->getTopologyKind() == iidm::TopologyKind::NODE_BREAKER ? "node/breaker" : "bus/breaker");

        Dump before = model::dump(n);
        std::string xml;
        try {
            xml = model::toXml(n);
        } catch (const std::exception& e) {
            c.fail("not-exported", e.what());
        }
        {
            std::string d = model::diff(before, model::dump(n));
            c.check(d.empty(), "export-changes", "exporting changes the network:\n" + d);
        }
        try {
            Network m = model::fromXml(xml);
            Dump after = model::dump(m);
            const Dump x = model::xmlView(before), y = model::xmlView(after);
            std::string d = model::diff(x, y);
            c.check(d.empty(), "not-preserved-" + attribute(x, y), "written -> read back:\n" + d);
            std::string again = model::toXml(m);
            c.check(again == xml, "second-export-differs", again == xml ? "" : model::firstDifference(xml, again));
        } catch (const pbt::Failure&) {
            throw;
        } catch (const std::exception& e) {
            c.note(xml);
            c.fail("not-imported", e.what());
        }
    });
}
