// C02: every export version and option keeps what it says it keeps.
#include "../model/gen.hpp"
#include "../model/xml.hpp"

#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>

using namespace gen;
using iidm::converter::ExportOptions;
using iidm::converter::ImportOptions;
using model::Dump;

namespace {

bool endsWith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

std::string lastAttribute(const Dump& a, const Dump& b, const std::function<bool(const std::string&)>& ignore) {
    for (const auto& m : model::diffMap(a, b)) {
        if (ignore && ignore(m.first)) continue;
        std::string r;
        int depth = 0;
        for (char ch : m.first) {
            if (ch == '[') ++depth;
            if (depth == 0) r += ch;
            if (ch == ']') --depth;
        }
        return r.substr(r.rfind('.') + 1);
    }
    return "";
}

void same(pbt::Case& c, const Dump& a, const Dump& b, const std::string& key, const std::string& context, const std::function<bool(const std::string&)>& ignore = nullptr) {
    std::string d = model::diff(a, b, 25, ignore);
    c.check(d.empty(), key + "-" + lastAttribute(a, b, ignore), context + "\n" + d);
}

// errors that announce data or connections the requested form has no place for
bool explicitRefusal(const std::string& m) {
    return m.find("IIDM-XML version should be") != std::string::npos || m.find("IIDM-XML version of network") != std::string::npos || m.find("Terminal ref should not point to a busbar section") != std::string::npos;
}

std::string version(unsigned i) { return "1." + std::to_string(i); }

// what a document of this version has no place for (and the writer leaves out without refusing)
std::function<bool(const std::string&)> lostIn(unsigned v, const Dump& d) {
    return [v, &d](const std::string& k) {
        if (v < 2 && endsWith(k, ".fictitious") && k.compare(0, 3, "sw:") != 0) return true;
        if (v < 3 && (k.find(".aliases") != std::string::npos || k.find(".alias") != std::string::npos)) return true;
        if (v < 4 && k.find(".aliases") != std::string::npos) return true;
        // rated apparent powers appeared in 1.2; section conductances and the fictitious flag of half lines in 1.3
        if (v < 2 && endsWith(k, "ratedS")) return true;
        if (v < 2 && (endsWith(k, "tc.deadband"))) return true;  // 0 is written as undefined, other values are refused
        if (v < 3 && k.find(":SH") != std::string::npos && (endsWith(k, ".G") || endsWith(k, ".gPerSection"))) return true;
        if (v < 3 && k.find(".half") != std::string::npos && endsWith(k, ".fictitious")) return true;
        (void)d;
        return false;
    };
}

// texts of a document: attribute values and element contents
std::vector<std::string> texts(const std::string& xml) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < xml.size()) {
        if (xml[i] == '<') {
            size_t e = i;
            while (e < xml.size() && xml[e] != '>') {
                if (xml[e] == '"') {
                    size_t q = xml.find('"', e + 1);
                    if (q == std::string::npos) return r;
                    r.push_back(xml.substr(e + 1, q - e - 1));
                    e = q;
                }
                ++e;
            }
            i = e + 1;
        } else {
            size_t e = xml.find('<', i);
            if (e == std::string::npos) e = xml.size();
            r.push_back(xml.substr(i, e - i));
            i = e;
        }
    }
    return r;
}

// name of the bus of every terminal, or none
std::map<std::string, std::string> busOfTerminals(const Network& n, int level) {
    std::map<std::string, std::string> r;
    for (const auto& eq : n.getConnectables<iidm::Connectable>()) {
        if (dynamic_cast<const iidm::BusbarSection*>(&eq) != nullptr) continue;
        unsigned side = 0;
        for (const auto& t : eq.getTerminals()) {
            ++side;
            const auto b = level == 0 ? t.get().getBusBreakerView().getBus() : t.get().getBusView().getBus();
            r[eq.getId() + "#" + std::to_string(side)] = b ? b.get().getId() : "";
        }
    }
    return r;
}

bool samePartition(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, std::string& why) {
    std::map<std::string, std::string> ab, ba;
    for (const auto& e : a) {
        auto it = b.find(e.first);
        if (it == b.end()) { why = e.first + " is missing"; return false; }
        if (e.second.empty() != it->second.empty()) { why = e.first + ": bus '" + e.second + "' -> '" + it->second + "'"; return false; }
        if (e.second.empty()) continue;
        if (ab.emplace(e.second, it->second).first->second != it->second || ba.emplace(it->second, e.second).first->second != e.second) {
            why = e.first + ": bus '" + e.second + "' -> '" + it->second + "' is joined differently";
            return false;
        }
    }
    if (a.size() != b.size()) { why = "number of terminals"; return false; }
    return true;
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C02";
    cfg.rule = "random networks are exported with a random format version, incompatibility behaviour, indentation, flow, extension, topology and anonymization option; the version declared, the texts of the document and the network read back are compared with what the option keeps. "
               "Non-trivial: the export is accepted and the network has at least five pieces of equipment.";
    cfg.quick = 15000;
    cfg.thorough = 500000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"version", "branch flows", "indent", "extension export", "extension import", "topology 1", "topology 2", "anonymized", "mixed", "refused", "extension version refused", "extension not found", "slack terminal version", "unknown extension read"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        const size_t mode = c.s.weighted({30, 8, 6, 8, 8, 25, 15, 20, 14});
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 8;
        o.nasty = mode != 6 && c.s.chance(30);
        o.extreme = c.s.chance(40);
        o.serializableOnly = mode != 8 || c.s.chance(50);
        o.regulation = c.s.chance(60);
        Network n("net0", "test");
        World w(c, n, o);
        w.build();
        for (unsigned k = static_cast<unsigned>(c.s.draw(4)); k > 0; --k) {
            switch (c.s.draw(4)) {
                case 0: w.property(); break;
                case 1: w.alias(); break;
                case 2: w.switchOp(); break;
                default: w.connectOp(); break;
            }
        }
        for (unsigned k = static_cast<unsigned>(c.s.draw(mode == 3 || mode == 4 || mode == 8 ? 12 : 4)); k > 0; --k) w.extension();
        if (mode == 8 && n.getGeneratorCount() > 0 && c.s.chance(30)) {
            auto& g = *n.getGenerators().begin();
            g.newExtension<iidm::extensions::iidm::RemoteReactivePowerControlAdder>().withTargetQ(1.5).withEnabled(true).withRegulatingTerminal(g.getTerminal()).add();
        }
        w.randomState(static_cast<unsigned>(c.s.draw(6)));
        const Dump before = model::dump(n);
        const Dump view = model::xmlView(before);
        std::string xml;
        ExportOptions opt;

        auto write = [&](const Network& net, const ExportOptions& op, bool mayRefuse) {
            try {
                xml = model::toXml(net, op);
            } catch (const PowsyblException& e) {
                // an extension may have no form in an old version whatever the behaviour asked for
                const std::string what = e.what();
                if (mayRefuse && explicitRefusal(what) && (opt.getIidmVersionIncompatibilityBehavior() != ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR || what.find("IIDM-XML version should be") == std::string::npos)) { c.label("refused"); c.note(std::string("refused: ") + e.what()); return false; }
                c.fail("not-exported", e.what());
            } catch (const std::exception& e) {
                c.fail("not-exported", e.what());
            }
            return true;
        };
        auto read = [&](const std::string& doc, const ImportOptions& op = ImportOptions()) {
            try {
                return model::fromXml(doc, op);
            } catch (const std::exception& e) {
                c.note(doc);
                c.fail("not-imported", e.what());
            }
        };
        auto declared = [&](const std::string& v) {
            std::string u = v;
            u[1] = '_';
            c.check(xml.find("/schema/iidm/" + u + "\"") != std::string::npos, "declared-version", xml.substr(0, 200));
        };
        // what was read back in this form is kept by the same form
        auto stable = [&](const Network& m, const Dump& d, const std::string& key) {
            write(m, opt, false);
            const std::string second = xml;
            Network m2 = read(xml);
            same(c, d, model::xmlView(model::dump(m2)), key, "written again in the same form:");
            write(m2, opt, false);
            c.check(second == xml, key + "-text", second == xml ? "" : model::firstDifference(second, xml));
        };
        c.nontrivial(w.connectables().size() >= 5);

        switch (mode) {
            case 0: {
                c.label("version");
                const unsigned v = static_cast<unsigned>(c.s.draw(6));
                const bool lenient = c.s.chance(30);
                opt.setVersion(version(v));
                opt.setIidmVersionIncompatibilityBehavior(lenient ? ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR : ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION);
                c.note("export version " + version(v) + (lenient ? " lenient" : ""));
                if (!write(n, opt, true)) break;
                declared(version(v));
                Network m = read(xml);
                const Dump after = model::xmlView(model::dump(m));
                if (!lenient) same(c, view, after, "version-" + version(v), "written in version " + version(v) + " -> read back:", lostIn(v, before));
                stable(m, after, "version-second-export");
                c.label("v" + version(v));
                break;
            }
            case 1: {
                c.label("branch flows");
                opt.setWithBranchSV(false);
                write(n, opt, false);
                Network m = read(xml);
                const Dump after = model::xmlView(model::dump(m));
                std::set<std::string> branches;
                for (auto* eq : w.connectables()) if (eq->getTerminals().size() > 1) branches.insert(prefixOf(*eq));
                auto isFlow = [&](const std::string& k) {
                    for (const char* a : {".p", ".q", ".p1", ".q1", ".p2", ".q2", ".p3", ".q3"}) if (endsWith(k, a)) {
                        for (const auto& b : branches) if (k.compare(0, b.size() + 1, b + ".") == 0) return true;
                    }
                    return false;
                };
                same(c, model::only(view, ~static_cast<unsigned>(model::DERIVED)), model::only(after, ~static_cast<unsigned>(model::DERIVED)), "branch-flows", "without branch flows:", isFlow);
                for (auto* eq : w.connectables()) {
                    if (eq->getTerminals().size() < 2) continue;
                    for (const auto& t : m.get<iidm::Connectable>(eq->getId()).getTerminals()) {
                        c.check(std::isnan(t.get().getP()) && std::isnan(t.get().getQ()), "branch-flows-kept", eq->getId());
                    }
                }
                break;
            }
            case 2: {
                c.label("indent");
                opt.setIndent(false);
                write(n, opt, false);
                Network m = read(xml);
                same(c, view, model::xmlView(model::dump(m)), "indent", "without indentation:");
                break;
            }
            case 3:
            case 4: {
                c.label(mode == 3 ? "extension export" : "extension import");
                std::set<std::string> chosen;
                for (const auto& e : model::serializableExtensions()) if (c.s.chance(50)) chosen.insert(e);
                if (c.s.chance(10)) chosen = {"unknown"};
                if (chosen.empty()) chosen.insert("slackTerminal");
                ImportOptions in;
                if (mode == 3) opt.setExtensions(chosen); else in.setExtensions(chosen);
                write(n, opt, false);
                Network m = read(xml, in);
                const Dump after = model::xmlView(model::dump(m));
                auto other = [&](const std::string& k) { return k.find(".ext[") != std::string::npos || k.find(".extByName[") != std::string::npos || endsWith(k, ".extensions"); };
                same(c, view, after, "extension-filter", "with some extensions only:", other);
                for (const auto& e : view) {
                    size_t at = e.first.find(".ext[");
                    if (at == std::string::npos) continue;
                    const std::string name = e.first.substr(at + 5, e.first.find(']', at) - at - 5);
                    if (chosen.count(name)) {
                        auto it = after.find(e.first);
                        c.check(it != after.end(), "extension-filter-lost", e.first);
                        c.checkEq(it->second.v, e.second.v, "extension-filter-changed", e.first);
                    } else c.check(!after.count(e.first), "extension-filter-kept", e.first);
                }
                for (const auto& e : after) if (e.first.find(".ext[") != std::string::npos) c.check(view.count(e.first) > 0, "extension-filter-new", e.first);
                break;
            }
            case 5: {
                const int level = c.s.chance(50) ? 1 : 2;
                c.label("topology " + std::to_string(level));
                opt.setTopologyLevel(level == 1 ? iidm::TopologyLevel::BUS_BREAKER : iidm::TopologyLevel::BUS_BRANCH);
                c.note(level == 1 ? "export bus/breaker" : "export bus/branch");
                if (!write(n, opt, true)) break;
                bool placed = true;  // is there a bus for every terminal?
                for (auto* t : w.terminals()) {
                    if (dynamic_cast<iidm::BusbarSection*>(&t->getConnectable().get()) != nullptr && t->getVoltageLevel().getTopologyKind() == iidm::TopologyKind::NODE_BREAKER) continue;
                    placed = placed && static_cast<bool>(level == 1 ? t->getBusBreakerView().getConnectableBus() : t->getBusView().getConnectableBus());
                }
                if (!placed) { c.label("no bus to connect to"); break; }
                Network m = read(xml);
                std::string why;
                // what shares a bus in the view asked for shares a configured bus of what is read back
                c.check(samePartition(busOfTerminals(n, level - 1), busOfTerminals(m, 0), why), "topology-joined", why);
                for (const auto& vl : m.getVoltageLevels()) {
                    c.check(vl.getTopologyKind() == iidm::TopologyKind::BUS_BREAKER, "topology-kind", vl.getId());
                    const auto& o1 = n.getVoltageLevel(vl.getId());
                    std::set<std::string> x, y;
                    if (level == 1) for (const auto& b : o1.getBusBreakerView().getBuses()) x.insert(b.getId() + " " + pbt::hex(b.getV()) + " " + pbt::hex(b.getAngle()));
                    else for (const auto& b : o1.getBusView().getBuses()) x.insert(b.getId() + " " + pbt::hex(b.getV()) + " " + pbt::hex(b.getAngle()));
                    for (const auto& b : vl.getBusBreakerView().getBuses()) y.insert(b.getId() + " " + pbt::hex(b.getV()) + " " + pbt::hex(b.getAngle()));
                    std::string sx, sy;
                    for (const auto& s : x) sx += s + "; ";
                    for (const auto& s : y) sy += s + "; ";
                    c.checkEq(sy, sx, "topology-buses", "buses of " + vl.getId());
                    std::set<std::string> u, v;
                    if (level == 1) for (const auto& s : o1.getBusBreakerView().getSwitches()) {
                        u.insert(s.getId() + (s.isOpen() ? " open" : " closed") + (s.isFictitious() ? " f " : " ") + o1.getBusBreakerView().getBus1(s.getId()).get().getId() + " " + o1.getBusBreakerView().getBus2(s.getId()).get().getId());
                    }
                    for (const auto& s : vl.getBusBreakerView().getSwitches()) {
                        v.insert(s.getId() + (s.isOpen() ? " open" : " closed") + (s.isFictitious() ? " f " : " ") + vl.getBusBreakerView().getBus1(s.getId()).get().getId() + " " + vl.getBusBreakerView().getBus2(s.getId()).get().getId());
                    }
                    sx.clear(); sy.clear();
                    for (const auto& s : u) sx += s + "; ";
                    for (const auto& s : v) sy += s + "; ";
                    c.checkEq(sy, sx, "topology-switches", "switches of " + vl.getId());
                }
                // equipment and its data
                const Dump a = model::only(view, model::STRUCT | model::STATE | model::EXT), b = model::only(model::xmlView(model::dump(m)), model::STRUCT | model::STATE | model::EXT);
                std::set<std::string> sections;
                for (auto* eq : w.connectables()) if (dynamic_cast<iidm::BusbarSection*>(eq) != nullptr) sections.insert(prefixOf(*eq));
                same(c, a, b, "topology-data", "in another topology level:", [&](const std::string& k) {
                    if (k.compare(0, 3, "eq:") != 0) return !(k.compare(0, 4, "net:") == 0 || k.compare(0, 2, "s:") == 0 || k.compare(0, 4, "sub:") == 0 || k.compare(0, 5, "hvdc:") == 0);
                    for (const auto& s : sections) if (k.compare(0, s.size() + 1, s + ".") == 0) return true;
                    for (const char* p : {".node", ".bus", ".cbus", ".bbBus", ".bvBus", ".connected", ".t1", ".t2", ".t3", ".term"}) if (k.find(p) != std::string::npos) return true;
                    return false;
                });
                break;
            }
            case 6: {
                c.label("anonymized");
                opt.setAnonymized(true);
                const int level = static_cast<int>(c.s.weighted({60, 20, 20}));
                if (level == 1) opt.setTopologyLevel(iidm::TopologyLevel::BUS_BREAKER);
                if (level == 2) opt.setTopologyLevel(iidm::TopologyLevel::BUS_BRANCH);
                std::string table;
                try {
                    xml = model::toXmlAnonymized(n, opt, table);
                } catch (const std::exception& e) {
                    if (explicitRefusal(e.what())) { c.label("refused"); break; }
                    c.fail("anonymized-not-exported", e.what());
                }
                std::set<std::string> ids;
                for (auto* i : w.identifiables()) {
                    if (i == &n) continue;
                    ids.insert(i->getId());
                    for (const auto& a : i->getAliases()) ids.insert(a);
                }
                for (const auto& t : texts(xml)) c.check(!ids.count(t), "anonymized-shows-id", "the anonymized document contains '" + t + "'");
                if (level == 0) {
                    Network m = [&]() {
                        try {
                            return model::fromXmlAnonymized(xml, ImportOptions(), table);
                        } catch (const std::exception& e) {
                            c.note(xml);
                            c.note(table);
                            c.fail("anonymized-not-imported", e.what());
                        }
                    }();
                    same(c, view, model::xmlView(model::dump(m)), "anonymized", "anonymized -> restored:", [](const std::string& k) { return endsWith(k, ".country"); });
                }
                break;
            }
            case 8: {
                c.label("extension versions");
                const unsigned v = c.s.chance(60) ? 3 + static_cast<unsigned>(c.s.draw(3)) : static_cast<unsigned>(c.s.draw(6));
                opt.setVersion(version(v));
                std::set<std::string> chosen;
                if (c.s.chance(30)) {
                    for (const auto& e : model::serializableExtensions()) if (c.s.chance(60)) chosen.insert(e);
                    if (c.s.chance(50)) chosen.insert("generatorRemoteReactivePowerControl");
                    if (!chosen.empty()) opt.setExtensions(chosen);
                }
                auto exported = [&](const std::string& name) { return chosen.empty() || chosen.count(name) > 0; };
                const std::string name = c.s.chance(50) ? "slackTerminal" : model::serializableExtensions()[c.s.draw(model::serializableExtensions().size())];
                const std::string ev = c.s.pickOf<std::string>({"1.0", "1.0", "1.1", "1.2", "1.3", "2.0"});
                const bool asked = c.s.chance(70);
                if (asked) {
                    bool taken = true;
                    try { opt.addExtensionVersion(name, ev); } catch (const PowsyblException&) { taken = false; }
                    c.checkEq(taken, exported(name), "extension-version-option", "version of " + name + " accepted");
                    c.checkEq(opt.getExtensionVersion(name), taken ? ev : std::string(), "extension-version-option", "version of " + name);
                    bool again = true;
                    try { opt.addExtensionVersion(name, "1.0"); } catch (const PowsyblException&) { again = false; }
                    c.check(!again, "extension-version-option", "the version of " + name + " was set twice");
                    c.checkEq(opt.getExtensionVersion(name), taken ? ev : std::string(), "extension-version-option", "version of " + name);
                    c.note("version " + ev + " of " + name + " in " + version(v));
                }
                const bool strict = c.s.chance(40);
                opt.setThrowExceptionIfExtensionNotFound(strict);
                std::set<std::string> present;
                for (const auto& e : view) {
                    size_t at = e.first.find(".ext[");
                    if (at != std::string::npos) present.insert(e.first.substr(at + 5, e.first.find(']', at) - at - 5));
                }
                const std::string unwritable = "generatorRemoteReactivePowerControl";
                const bool wrongVersion = asked && exported(name) && present.count(name) && !(name == "slackTerminal" ? v >= 3 && ev == version(v - 3) : ev == "1.0");
                const bool notFound = strict && present.count(unwritable) && exported(unwritable);
                bool written = true;
                std::string what;
                try {
                    xml = model::toXml(n, opt);
                } catch (const PowsyblException& e) {
                    written = false;
                    what = e.what();
                } catch (const std::exception& e) {
                    c.fail("not-exported", e.what());
                }
                if (wrongVersion) { c.label("extension version refused"); c.check(!written, "extension-version", "version " + ev + " of " + name + " was written in a document of version " + version(v)); }
                if (notFound) { c.label("extension not found"); c.check(!written, "extension-not-found", unwritable + " has no XML form, but no exception was thrown"); }
                if (!written) {
                    c.check(wrongVersion || notFound || explicitRefusal(what), "not-exported", what);
                    break;
                }
                declared(version(v));
                if (present.count("slackTerminal") && exported("slackTerminal")) {
                    c.label("slack terminal version");
                    c.check(xml.find("/slack_terminal/1_" + std::to_string(v - 3) + "\"") != std::string::npos, "extension-version", "slack terminal in a document of version " + version(v) + ":\n" + xml.substr(0, 600));
                }
                Network m = read(xml);
                auto lost = lostIn(v, before);
                auto left = [&](const std::string& k) {
                    if (lost(k)) return true;
                    if (endsWith(k, ".extensions")) return true;
                    size_t at = k.find(".ext[");
                    if (at == std::string::npos) at = k.find(".extByName[");
                    if (at == std::string::npos) return false;
                    const size_t b = k.find('[', at) + 1;
                    const std::string x = k.substr(b, k.find(']', b) - b);
                    return x == unwritable || !exported(x) || k.find(".extByName[") != std::string::npos;
                };
                same(c, view, model::xmlView(model::dump(m)), "extension-versions", "with chosen extension versions:", left);
                const size_t end = xml.rfind("</iidm:extension>");
                if (end != std::string::npos && c.s.chance(50)) {
                    c.label("unknown extension read");
                    const std::string other = xml.substr(0, end) + "<x:never xmlns:x=\"urn:never\"><x:y z=\"1\"/>text</x:never>" + xml.substr(end);
                    Network k = read(other);
                    same(c, model::dump(m), model::dump(k), "unknown-extension", "with an unknown extension in the document:");
                    ImportOptions in;
                    in.setThrowExceptionIfExtensionNotFound(true);
                    bool accepted = true;
                    try { Network no = model::fromXml(other, in); } catch (const PowsyblException&) { accepted = false; }
                    c.check(!accepted, "unknown-extension", "an unknown extension was read although an exception was asked for");
                    Network yes = read(xml, in);
                }
                break;
            }
            default: {
                c.label("mixed");
                const unsigned v = static_cast<unsigned>(c.s.draw(6));
                opt = ExportOptions(c.s.chance(50), c.s.chance(50), false, c.s.pickOf({iidm::TopologyLevel::NODE_BREAKER, iidm::TopologyLevel::BUS_BREAKER, iidm::TopologyLevel::BUS_BRANCH}), c.s.chance(50),
                    version(v), c.s.chance(50) ? ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR : ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION);
                c.note("export version " + version(v) + " level " + std::to_string(static_cast<int>(opt.getTopologyLevel())));
                if (!write(n, opt, true)) break;
                declared(version(v));
                if (opt.getTopologyLevel() != iidm::TopologyLevel::NODE_BREAKER) {
                    bool placed = true;
                    for (auto* t : w.terminals()) {
                        if (dynamic_cast<iidm::BusbarSection*>(&t->getConnectable().get()) != nullptr) continue;
                        placed = placed && static_cast<bool>(opt.getTopologyLevel() == iidm::TopologyLevel::BUS_BREAKER ? t->getBusBreakerView().getConnectableBus() : t->getBusView().getConnectableBus());
                    }
                    if (!placed) { c.label("no bus to connect to"); break; }
                }
                Network m = read(xml);
                // the same equipment, and a stable document
                std::string x, y;
                for (auto* eq : w.connectables()) if (dynamic_cast<iidm::BusbarSection*>(eq) == nullptr) x += eq->getId() + " ";
                Case quiet(c.s, false, 1);
                World wm(quiet, m, o);
                for (auto* eq : wm.connectables()) if (dynamic_cast<iidm::BusbarSection*>(eq) == nullptr) y += eq->getId() + " ";
                if (opt.getTopologyLevel() == iidm::TopologyLevel::NODE_BREAKER || true) c.checkEq(y, x, "mixed-equipment", "equipment");
                if (opt.getTopologyLevel() != iidm::TopologyLevel::BUS_BRANCH) stable(m, model::xmlView(model::dump(m)), "mixed-second-export");
                break;
            }
        }
        std::string d = model::diff(before, model::dump(n));
        c.check(d.empty(), "export-changes", "exporting changes the network:\n" + d);
    });
}
