// C28: a damaged or incomplete document is refused, it is never read in part.
#include "../model/gen.hpp"
#include "../model/tree.hpp"
#include "../model/xml.hpp"

#include <libxml/parser.h>

#include <powsybl/iidm/converter/ExportOptions.hpp>

using namespace gen;

namespace {

std::string local(const std::string& name) {
    const size_t at = name.find(':');
    return at == std::string::npos ? name : name.substr(at + 1);
}

// without the number of the side
std::string bare(std::string name) {
    while (!name.empty() && std::isdigit(static_cast<unsigned char>(name.back())) != 0) name.pop_back();
    return name;
}

struct Place {
    Node* parent;
    size_t index;
    Node* node;
    bool inExtension;
    std::string up, name;  // local names
};

void collect(Node& x, std::vector<Place>& places, bool inExtension = false) {
    for (size_t i = 0; i < x.children.size(); ++i) {
        Node& y = *x.children[i];
        if (y.name.empty()) continue;
        const std::string name = local(y.name);
        places.push_back({&x, i, &y, inExtension, x.name == "#" ? "" : local(x.name), name});
        collect(y, places, inExtension || name == "extension");
    }
}

void silent(void*, const char*, ...) {}

// said by the parser of libxml2 that builds a tree; the library reads node after node
bool wellFormed(const std::string& xml) {
    xmlDocPtr doc = xmlReadMemory(xml.data(), static_cast<int>(xml.size()), "", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    if (doc == nullptr) return false;
    xmlFreeDoc(doc);
    return true;
}

using Names = std::set<std::string>;

// what an element cannot do without, as the schemas say; an element is named by itself or with its parent, without numbers of sides
const std::map<std::string, Names>& required() {
    static const Names reactive{"minQ", "maxQ"}, ref{"id"};
    static const std::map<std::string, Names> all{
        {"network", {"id", "caseDate", "sourceFormat", "xmlns:iidm"}},
        {"network/extension", ref},
        {"substation", ref},
        {"voltageLevel", {"id", "nominalV", "topologyKind"}},
        {"busBreakerTopology/bus", ref},
        {"busBreakerTopology/switch", {"id", "open", "bus1", "bus2"}},
        {"nodeBreakerTopology/switch", {"id", "kind", "retained", "open", "node1", "node2"}},
        {"nodeBreakerTopology/bus", {"nodes"}},
        {"busbarSection", {"id", "node"}},
        {"internalConnection", {"node1", "node2"}},
        {"load", {"id", "p0", "q0", "node"}},
        {"generator", {"id", "energySource", "minP", "maxP", "voltageRegulatorOn", "targetP", "node"}},
        {"battery", {"id", "p0", "q0", "minP", "maxP", "node"}},
        {"shunt", {"id", "sectionCount", "currentSectionCount", "bPerSection", "maximumSectionCount", "node"}},
        {"shuntLinearModel", {"bPerSection", "maximumSectionCount"}},
        {"shuntNonLinearModel/section", {"b", "g"}},
        {"staticVarCompensator", {"id", "bMin", "bMax", "regulationMode", "node"}},
        {"danglingLine", {"id", "p0", "q0", "r", "x", "g", "b", "node"}},
        {"lccConverterStation", {"id", "lossFactor", "powerFactor", "node"}},
        {"vscConverterStation", {"id", "lossFactor", "voltageRegulatorOn", "node"}},
        {"minMaxReactiveLimits", reactive},
        {"reactiveCapabilityCurve/point", {"p", "minQ", "maxQ"}},
        {"regulatingTerminal", ref},
        {"terminalRef", ref},
        {"line", {"id", "r", "x", "g1", "b1", "g2", "b2", "voltageLevelId1", "voltageLevelId2", "node1", "node2"}},
        {"tieLine", {"id", "ucteXnodeCode", "voltageLevelId1", "voltageLevelId2", "node1", "node2", "id_1", "r_1", "x_1", "g1_1", "b1_1", "g2_1", "b2_1", "id_2", "r_2", "x_2", "g1_2", "b1_2", "g2_2", "b2_2"}},
        {"twoWindingsTransformer", {"id", "r", "x", "g", "b", "ratedU1", "ratedU2", "voltageLevelId1", "voltageLevelId2", "node1", "node2"}},
        {"threeWindingsTransformer", {"id", "r1", "x1", "g1", "b1", "ratedU1", "r2", "x2", "ratedU2", "r3", "x3", "ratedU3", "voltageLevelId1", "voltageLevelId2", "voltageLevelId3", "node1", "node2", "node3"}},
        {"hvdcLine", {"id", "r", "nominalV", "activePowerSetpoint", "maxP", "convertersMode", "converterStation1", "converterStation2"}},
        {"ratioTapChanger", {"lowTapPosition", "tapPosition", "loadTapChangingCapabilities"}},
        {"phaseTapChanger", {"lowTapPosition", "tapPosition", "regulationMode"}},
        {"ratioTapChanger/step", {"r", "x", "g", "b", "rho"}},
        {"phaseTapChanger/step", {"r", "x", "g", "b", "rho", "alpha"}},
        {"temporaryLimit", {"name"}},
        {"property", {"name", "value"}},
        // extensions
        {"busbarSectionPosition", {"busbarIndex", "sectionIndex"}},
        {"hvdcAngleDroopActivePowerControl", {"droop", "enabled", "p0"}},
        {"activePowerControl", {"participate"}},
        {"coordinatedReactiveControl", {"qPercent"}},
        {"slackTerminal", ref},
        {"voltagePerReactivePowerControl", {"slope"}},
        {"xnode", {"code"}},
        {"detail", {"fixedActivePower", "fixedReactivePower", "variableActivePower", "variableReactivePower"}},
        {"mergedXnode", {"rdp", "xdp", "xnodeP1", "xnodeQ1", "xnodeP2", "xnodeQ2", "code"}},
        {"measurement", {"type", "value", "valid"}},
        {"position/feeder", {"name", "order", "direction"}},
    };
    return all;
}

bool isRequired(const Place& p, const std::string& attribute) {
    for (const std::string& key : {bare(p.up) + "/" + bare(p.name), bare(p.name)}) {
        const auto i = required().find(key);
        if (i != required().end()) return i->second.count(attribute) != 0;
    }
    return false;
}

// holds a number, wherever it is read
bool isNumber(const std::string& attribute) {
    static const Names s{"r", "x", "g", "b", "p0", "q0", "p", "q", "v", "angle", "nominalV", "targetP", "targetQ", "targetV", "minP", "maxP", "minQ", "maxQ", "permanentLimit", "ratedU", "ratedU0", "ratedS", "rho", "alpha", "bMin", "bMax", "voltageSetpoint", "voltageSetPoint",
        "reactivePowerSetpoint", "reactivePowerSetPoint", "lossFactor", "powerFactor", "lowVoltageLimit", "highVoltageLimit", "activePowerSetpoint", "targetDeadband", "regulationValue", "bPerSection", "gPerSection", "node", "lowTapPosition", "tapPosition", "sectionCount", "currentSectionCount",
        "maximumSectionCount", "acceptableDuration", "forecastDistance", "busbarIndex", "sectionIndex", "droop", "slope", "qPercent", "generationMinP", "generationMaxP", "generationTargetP", "generationTargetQ", "generationTargetV", "g1_1", "b1_1", "g2_1", "b2_1", "r_1", "x_1", "g1_2", "b1_2", "g2_2", "b2_2", "r_2", "x_2"};
    return s.count(attribute) != 0 || s.count(bare(attribute)) != 0;
}

// identifies an object of the network by its element
bool isObject(const Place& p) {
    static const Names s{"substation", "voltageLevel", "switch", "busbarSection", "load", "generator", "battery", "shunt", "staticVarCompensator", "danglingLine", "lccConverterStation", "vscConverterStation", "line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer", "hvdcLine"};
    return !p.inExtension && (s.count(p.name) != 0 || (p.name == "bus" && p.up == "busBreakerTopology"));
}

bool isReference(const Place& p, const std::string& attribute) {
    const std::string a = bare(attribute);
    if (p.inExtension) return p.name == "slackTerminal" && a == "id";
    if (a == "bus" || a == "connectableBus" || a == "voltageLevelId" || a == "converterStation") return true;
    return a == "id" && (p.name == "regulatingTerminal" || p.name == "terminalRef" || p.name == "extension");
}

// values among a list
bool isEnum(const Place& p, const std::string& attribute) {
    static const std::map<std::string, Names> s{{"voltageLevel", {"topologyKind"}}, {"generator", {"energySource"}}, {"load", {"loadType"}}, {"hvdcLine", {"convertersMode"}}, {"staticVarCompensator", {"regulationMode"}}, {"phaseTapChanger", {"regulationMode"}}, {"substation", {"country"}},
        {"terminalRef", {"side"}}, {"regulatingTerminal", {"side"}}, {"slackTerminal", {"side"}}, {"feeder", {"direction"}}, {"measurement", {"type", "side"}}, {"discreteMeasurement", {"type", "tapChanger", "valueType"}}};
    if (p.name == "switch") return p.up == "nodeBreakerTopology" && attribute == "kind";
    const auto i = s.find(bare(p.name));
    return i != s.end() && i->second.count(attribute) != 0;
}

// a part of the schema that came after the version: where it goes, what it is
struct Newer {
    int since;
    Names parents;
    std::string text;
};
const std::vector<Newer>& newer() {
    static const Names branches{"line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer"};
    static const std::vector<Newer> all{
        {3, {"substation", "voltageLevel", "bus", "switch", "busbarSection", "load", "generator", "battery", "shunt", "staticVarCompensator", "danglingLine", "lccConverterStation", "vscConverterStation", "line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer", "hvdcLine"}, "<%alias>another name</%alias>"},
        {5, branches, "<%activePowerLimits1 permanentLimit=\"10.0\"/>"},
        {5, branches, "<%activePowerLimits2 permanentLimit=\"10.0\"/>"},
        {5, branches, "<%apparentPowerLimits1 permanentLimit=\"10.0\"/>"},
        {5, branches, "<%apparentPowerLimits2 permanentLimit=\"10.0\"/>"},
        {5, {"threeWindingsTransformer"}, "<%activePowerLimits3 permanentLimit=\"10.0\"/>"},
        {5, {"threeWindingsTransformer"}, "<%apparentPowerLimits3 permanentLimit=\"10.0\"/>"},
        {5, {"danglingLine"}, "<%activePowerLimits permanentLimit=\"10.0\"/>"},
        {5, {"danglingLine"}, "<%apparentPowerLimits permanentLimit=\"10.0\"/>"},
        {3, {"danglingLine"}, "<%minMaxReactiveLimits minQ=\"-1.0\" maxQ=\"1.0\"/>"},
        {3, {"shunt"}, "<%shuntLinearModel bPerSection=\"0.5\" maximumSectionCount=\"4\"/>"},
        {3, {"shunt"}, "<%shuntNonLinearModel><%section b=\"0.5\" g=\"0.0\"/></%shuntNonLinearModel>"},
        {1, {"staticVarCompensator"}, "<%regulatingTerminal id=\"@\"/>"},
        {1, {"nodeBreakerTopology"}, "<%bus v=\"1.0\" angle=\"0.0\" nodes=\"0\"/>"},
        {1, {"threeWindingsTransformer"}, "<%ratioTapChanger1 lowTapPosition=\"0\" tapPosition=\"0\" targetDeadband=\"0.0\" loadTapChangingCapabilities=\"false\"><%step r=\"0.0\" x=\"0.0\" g=\"0.0\" b=\"0.0\" rho=\"1.0\"/></%ratioTapChanger1>"},
        {1, {"threeWindingsTransformer"}, "<%phaseTapChanger2 lowTapPosition=\"0\" tapPosition=\"0\" targetDeadband=\"0.0\" regulationMode=\"FIXED_TAP\"><%step r=\"0.0\" x=\"0.0\" g=\"0.0\" b=\"0.0\" rho=\"1.0\" alpha=\"0.0\"/></%phaseTapChanger2>"},
        {1, {"threeWindingsTransformer"}, "<%phaseTapChanger3 lowTapPosition=\"0\" tapPosition=\"0\" targetDeadband=\"0.0\" regulationMode=\"FIXED_TAP\"><%step r=\"0.0\" x=\"0.0\" g=\"0.0\" b=\"0.0\" rho=\"1.0\" alpha=\"0.0\"/></%phaseTapChanger3>"},
    };
    return all;
}

// number of the version of the schema, -1 if it is not known
int versionOf(const Node& top) {
    for (const auto& a : top.attributes) {
        if (a.first.compare(0, 5, "xmlns") != 0 || a.second.find("/ext/") != std::string::npos) continue;
        const size_t at = a.second.find("schema/iidm/1_");
        if (at != std::string::npos) return std::atoi(a.second.c_str() + at + 14);
    }
    return -1;
}

std::unique_ptr<Node> snippet(std::string text, const std::string& prefix, const std::string& id) {
    size_t at;
    while ((at = text.find('%')) != std::string::npos) text.replace(at, 1, prefix);
    if ((at = text.find('@')) != std::string::npos) text.replace(at, 1, id);
    auto x = parse(text, true);
    return std::move(x->children.at(0));
}

bool accepted(const std::string& xml, std::string& error) {
    try {
        model::fromXml(xml);
        return true;
    } catch (const std::exception& e) {
        error = e.what();
        return false;
    }
}

class Damager {
public:
    Damager(Case& c, const std::string& xml) : c(c), s(c.s), xml(xml) {}
    Case& c;
    Src& s;
    const std::string& xml;
    std::string other, what, kind;

    bool bytes() {
        const size_t end = xml.rfind("</");
        if (end == std::string::npos) return false;
        if (s.chance(35)) {
            other = xml.substr(0, s.draw(end + 2));
            kind = "cut";
            what = "cut after " + std::to_string(other.size()) + " bytes of " + std::to_string(xml.size());
            return true;
        }
        other = xml;
        const size_t at = s.draw(end);
        switch (s.draw(4)) {
            case 0: other.erase(at, 1 + s.draw(4)); break;
            case 1: other.insert(at, s.pickOf<std::string>({"<", ">", "&", "\"", "</", "/>", "<a>", "</a>", "]]>", "<!--", std::string(1, '\0'), "\x01", "\xff", "\xc3", "&nope;", "&#0;", "=", " a", "xml:id='1'"})); break;
            case 2: std::swap(other[at], other[s.draw(end)]); break;
            default: other[at] = static_cast<char>(s.draw(256)); break;
        }
        if (wellFormed(other)) return false;
        kind = "ill-formed";
        what = "byte " + std::to_string(at);
        return true;
    }

    bool structure() {
        auto root = parse(xml, true);
        places.clear();
        collect(*root, places);
        if (places.empty()) return false;
        Node& top = *places[0].node;
        const size_t colon = top.name.find(':');
        const std::string prefix = colon == std::string::npos ? "" : top.name.substr(0, colon + 1);
        switch (s.draw(7)) {
            case 0: {
                kind = "without a required attribute";
                const auto a = attribute([](const Place& p, const std::string& n) { return isRequired(p, n); });
                if (a.first == nullptr) return false;
                a.first->attributes.erase(a.first->attributes.begin() + static_cast<long>(a.second));
                break;
            }
            case 1: {
                kind = "not a number";
                const auto a = attribute([](const Place& p, const std::string& n) { return isNumber(n) && (required().count(bare(p.name)) != 0 || required().count(bare(p.up) + "/" + bare(p.name)) != 0); });
                if (a.first == nullptr) return false;
                std::string& v = a.first->attributes[a.second].second;
                const std::string old = v;
                switch (s.draw(6)) {
                    case 0: v = "nope"; break;
                    case 1: v = ""; break;
                    case 2: v += "x"; break;
                    case 3: v = "--" + v; break;
                    case 4: v += " 1"; break;
                    default: v = "1,5"; break;
                }
                what += ": " + old + " -> " + v;
                break;
            }
            case 2: {
                kind = "not a value of the list";
                const auto a = attribute([](const Place& p, const std::string& n) { return isEnum(p, n); });
                if (a.first == nullptr) return false;
                std::string& v = a.first->attributes[a.second].second;
                v = s.pickOf<std::string>({"NOPE", v + "X", "X" + v, "_"});
                what += ": " + v;
                break;
            }
            case 3: {
                kind = "reference to nothing";
                const auto a = attribute([](const Place& p, const std::string& n) { return isReference(p, n); });
                if (a.first == nullptr) return false;
                std::string& v = a.first->attributes[a.second].second;
                if (v.empty()) return false;
                const std::string old = v;
                v = s.pickOf<std::string>({"nothing has this id", v + "?", "?" + v});
                // the bus and the connectable bus of an end have to be the same
                const std::string& name = a.first->attributes[a.second].first;
                const std::string twin = name.compare(0, 3, "bus") == 0 ? "connectableBus" + name.substr(3) : name.compare(0, 14, "connectableBus") == 0 ? "bus" + name.substr(14) : "";
                for (auto& x : a.first->attributes) if (x.first == twin && x.second == old) x.second = v;
                for (const auto& p : places) {
                    for (const auto& x : p.node->attributes) if (p.node != a.first && x.second == v) return false;
                    for (const auto& t : p.node->children) if (t->text == v) return false;
                }
                what += ": " + v;
                break;
            }
            case 4: {
                kind = "identifier used twice";
                const auto objects = where([](const Place& p) { return isObject(p); });
                if (objects.empty()) return false;
                const Place& p = *objects[s.draw(objects.size())];
                if (s.chance(50)) {
                    what = "<" + p.name + "> of <" + p.up + "> twice";
                    const size_t to = s.chance(50) ? p.index : p.parent->children.size();
                    p.parent->children.insert(p.parent->children.begin() + static_cast<long>(to), p.node->clone());
                } else {
                    const Place& q = *objects[s.draw(objects.size())];
                    if (p.node == q.node) return false;
                    std::string* id = nullptr;
                    for (auto& a : p.node->attributes) if (a.first == "id") id = &a.second;
                    for (const auto& a : q.node->attributes) if (a.first == "id" && id != nullptr) *id = a.second;
                    what = "<" + p.name + "> has the identifier of <" + q.name + ">";
                }
                break;
            }
            case 5: {
                kind = "unknown element";
                const auto known = where([](const Place& p) {
                    return !p.inExtension && p.name != "extension" && p.name.find("Limits") == std::string::npos && p.up.find("Limits") == std::string::npos && (required().count(bare(p.name)) != 0 || required().count(bare(p.up) + "/" + bare(p.name)) != 0);
                });
                if (known.empty()) return false;
                const Place& p = *known[s.draw(known.size())];
                if (s.chance(50)) {
                    what = "<" + p.name + "> of <" + p.up + "> renamed";
                    p.node->name += "X";
                } else {
                    // elements that have no content are not looked into
                    static const Names containers{"network", "substation", "voltageLevel", "load", "generator", "battery", "shunt", "staticVarCompensator", "danglingLine", "lccConverterStation", "vscConverterStation", "line", "tieLine", "twoWindingsTransformer", "threeWindingsTransformer", "hvdcLine", "ratioTapChanger", "phaseTapChanger", "bus", "busbarSection", "switch", "reactiveCapabilityCurve"};
                    if (containers.count(bare(p.name)) == 0) return false;
                    what = "something in <" + p.name + "> of <" + p.up + ">";
                    const size_t to = s.draw(p.node->children.size() + 1);
                    p.node->children.insert(p.node->children.begin() + static_cast<long>(to), snippet(s.pickOf<std::string>({"<%unknown/>", "<%unknown id=\"1\"></%unknown>", "<%unknown><%load/></%unknown>"}), prefix, ""));
                }
                break;
            }
            default: {
                kind = "newer than its version";
                const int version = versionOf(top);
                if (version < 0) return false;
                std::vector<std::pair<const Place*, const Newer*>> all;
                for (const auto& p : places) {
                    if (p.inExtension || (p.name == "bus" && p.up != "busBreakerTopology")) continue;
                    for (const auto& x : newer()) if (x.since > version && x.parents.count(p.name) != 0) all.emplace_back(&p, &x);
                }
                if (all.empty()) return false;
                // every kind of addition as often as another
                std::set<const Newer*> kinds;
                for (const auto& x : all) kinds.insert(x.second);
                std::vector<const Newer*> sorted;
                for (const auto& x : newer()) if (kinds.count(&x) != 0) sorted.push_back(&x);
                const Newer* chosen = sorted[s.draw(sorted.size())];
                all.erase(std::remove_if(all.begin(), all.end(), [&](const std::pair<const Place*, const Newer*>& x) { return x.second != chosen; }), all.end());
                const Place& p = *all[s.draw(all.size())].first;
                std::string id;
                for (const auto& a : p.node->attributes) if (a.first == "id") id = a.second;
                what = "in <" + p.name + "> of version 1." + std::to_string(version) + ": " + chosen->text;
                auto x = snippet(chosen->text, prefix, id);
                const bool first = p.name != "nodeBreakerTopology" && s.chance(50);
                p.node->children.insert(first ? p.node->children.begin() : p.node->children.end(), std::move(x));
                break;
            }
        }
        other = document(*root);
        return true;
    }

private:
    std::vector<Place> places;

    template <typename F>
    std::vector<const Place*> where(F f) {
        std::vector<const Place*> r;
        for (const auto& p : places) if (f(p)) r.push_back(&p);
        return r;
    }

    // one of the attributes, the rare ones as often as the others
    template <typename F>
    std::pair<Node*, size_t> attribute(F f) {
        std::map<std::string, std::vector<std::pair<Node*, size_t>>> all;
        for (const auto& p : places) {
            for (size_t k = 0; k < p.node->attributes.size(); ++k) {
                if (f(p, p.node->attributes[k].first)) all[p.up + "/" + p.name + "@" + p.node->attributes[k].first].emplace_back(p.node, k);
            }
        }
        if (all.empty()) return {nullptr, 0};
        auto i = all.begin();
        std::advance(i, static_cast<long>(s.draw(all.size())));
        what = i->first;
        return i->second[s.draw(i->second.size())];
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C28";
    cfg.rule = "documents written from random networks (all versions, topology levels and extensions) and the library's own test documents, which are accepted, are damaged in one place: cut anywhere before the end tag of the network, made ill-formed (as the tree parser of libxml2 says), an attribute that the schema requires removed, a number or an enumerated value that is not one, "
               "a reference to something that is not in the document, an identifier used twice, an unknown element, a part of a later version of the schema. Each damaged document must be refused. Non-trivial: a document was damaged.";
    cfg.quick = 30000;
    cfg.thorough = 600000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"cut", "ill-formed", "without a required attribute", "not a number", "not a value of the list", "reference to nothing", "identifier used twice", "unknown element", "newer than its version", "test document", "generated", "older version"};
    xmlSetGenericErrorFunc(nullptr, silent);
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Src& s = c.s;
        std::string xml;
        if (s.chance(10) && !resources().empty()) {
            xml = document(*parse(s.pick(resources()), true));
            c.label("test document");
        } else {
            Options o;
            o.maxSubstations = 2;
            o.maxLevels = 3;
            o.maxEquipment = 8;
            o.nasty = s.chance(30);
            o.serializableOnly = true;
            Network n("n", "test");
            World w(c, n, o);
            w.build();
            for (unsigned k = static_cast<unsigned>(s.draw(6)); k > 0; --k) {
                if (s.chance(50)) w.property(); else w.alias();
            }
            for (unsigned k = static_cast<unsigned>(s.draw(6)); k > 0; --k) w.extension();
            w.randomState(static_cast<unsigned>(s.draw(6)));
            iidm::converter::ExportOptions e;
            e.setIndent(s.chance(50));
            if (s.chance(40)) {
                e.setVersion("1." + std::to_string(s.draw(6))).setIidmVersionIncompatibilityBehavior(iidm::converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
                c.label("older version");
            }
            if (s.chance(30)) e.setTopologyLevel(s.chance(50) ? iidm::TopologyLevel::BUS_BREAKER : iidm::TopologyLevel::BUS_BRANCH);
            try {
                xml = model::toXml(n, e);
            } catch (const std::exception&) {
                throw pbt::Discard{"not exported"};
            }
            c.label("generated");
        }
        std::string error;
        if (!accepted(xml, error)) throw pbt::Discard{"not accepted"};
        // several damages of the same document, one at a time
        bool any = false;
        for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0; --k) {
            Damager d(c, xml);
            if (!(s.chance(25) ? d.bytes() : d.structure()) || d.other == xml) continue;
            any = true;
            c.label(d.kind);
            error.clear();
            const bool ok = accepted(d.other, error);
            if (c.verbose()) c.note(d.kind + ", " + d.what + (ok ? ": accepted" : ": " + error));
            if (ok) c.note(d.other);
            c.check(!ok, "accepted: " + d.kind, d.what);
        }
        c.nontrivial(any);
    });
}
