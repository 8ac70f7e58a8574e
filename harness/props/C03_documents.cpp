// C03: reading any document is memory-safe and ends in a consistent network or in an exception.
#include "../model/gen.hpp"
#include "../model/tree.hpp"
#include "../model/xml.hpp"

#include <fstream>
#include <unistd.h>

#include <boost/filesystem.hpp>

#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/stdcxx/Properties.hpp>

using namespace gen;
using model::Dump;

namespace {

void collect(Node& x, std::vector<Node*>& elements, std::vector<std::pair<Node*, size_t>>& places, std::vector<Node*>& texts) {
    if (x.name.empty()) { texts.push_back(&x); return; }
    if (x.name != "#") elements.push_back(&x);
    for (size_t i = 0; i < x.children.size(); ++i) {
        if (x.name != "#") places.emplace_back(&x, i);
        collect(*x.children[i], elements, places, texts);
    }
}

const std::vector<std::string>& junk() {
    static const std::vector<std::string> v{"", " ", "0", "-0", "1", "-1", "2", "3", "10", "100", "1.5", "-273.15", "1e400", "-1e400", "1e-400", "NaN", "nan", "inf", "-Infinity", "abc", "12abc", "0x10", "true", "false", "TRUE", "yes",
        "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551614", "99999999999999999999999999", "1,2", "1;2", ",", "0,0,0", "1,", ",1", "a,b",
        "FR", "XX", "NODE_BREAKER", "BUS_BREAKER", "BUS_BRANCH", "OFF", "VOLTAGE", "REACTIVE_POWER", "CURRENT_LIMITER", "ONE", "TWO", "THREE", "FOUR", "LINEAR", "UNDEFINED", "&#9;", "&lt;&amp;", "\xC3\xA9", "%1%", "%s%n", "2013-02-30T00:00:00Z", "2013-01-15T18:45:00.000+01:00", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
    return v;
}
const std::vector<std::string>& uris() {
    static const std::vector<std::string> v{"http://www.itesla_project.eu/schema/iidm/1_0", "http://www.powsybl.org/schema/iidm/1_1", "http://www.powsybl.org/schema/iidm/1_2", "http://www.powsybl.org/schema/iidm/1_3", "http://www.powsybl.org/schema/iidm/1_4", "http://www.powsybl.org/schema/iidm/1_5", "http://www.powsybl.org/schema/iidm/1_6", "http://www.powsybl.org/schema/iidm/1_0", "", "1_5",
        "http://www.powsybl.org/schema/iidm/ext/slack_terminal/1_0", "http://www.itesla_project.eu/schema/iidm/ext/active_power_control/1_0", "http://www.powsybl.org/schema/iidm/ext/measurements/1_0"};
    return v;
}

bool isNodeNumber(const std::string& attribute) { return attribute.compare(0, 4, "node") == 0; }
// the memory used grows with the largest node number of a level: numbers between these two bounds are not tried
bool allowedNode(const std::string& v) {
    const char* p = v.c_str();
    // lists of nodes
    while (*p != 0) {
        char* end = nullptr;
        const double d = std::strtod(p, &end);
        if (end == p) { ++p; continue; }
        if (d > 3000 && d < 1.5e18) return false;
        if (d < 0 && d > -1.7e19) { /* refused */ }
        p = end;
    }
    return true;
}

class Mutator {
public:
    Mutator(Case& c, Node& root) : c(c), s(c.s), root(root) {}
    Case& c;
    Src& s;
    Node& root;

    std::string valueFor(const std::string& name, const std::vector<Node*>& elements) {
        switch (s.weighted({22, 45, 18, 15})) {
            case 0: return s.pick(junk());
            case 1: {  // of the same attribute somewhere else
                std::vector<const std::string*> values;
                for (auto* e : elements) for (const auto& a : e->attributes) if (a.first == name) values.push_back(&a.second);
                return values.empty() ? "" : *values[s.draw(values.size())];
            }
            case 2: {  // the identifier of something
                std::vector<const std::string*> values;
                for (auto* e : elements) for (const auto& a : e->attributes) if (a.first == "id") values.push_back(&a.second);
                return values.empty() ? "" : *values[s.draw(values.size())];
            }
            default: {  // any value
                Node* e = elements[s.draw(elements.size())];
                return e->attributes.empty() ? "0" : e->attributes[s.draw(e->attributes.size())].second;
            }
        }
    }

    void mutate() {
        std::vector<Node*> elements, texts;
        std::vector<std::pair<Node*, size_t>> places;
        collect(root, elements, places, texts);
        if (elements.empty()) return;
        Node& e = *elements[s.draw(elements.size())];
        const auto at = [&](size_t n) { return static_cast<size_t>(s.draw(n)); };
        switch (s.weighted({22, 12, 5, 8, 10, 8, 10, 5, 5, 3, 4, 4, 4})) {
            case 0: {  // another value
                if (e.attributes.empty()) return;
                auto& a = e.attributes[at(e.attributes.size())];
                std::string v = a.first.compare(0, 5, "xmlns") == 0 ? (s.chance(70) ? uris()[s.draw(6)] : s.pick(uris())) : valueFor(a.first, elements);
                if (isNodeNumber(a.first) && !allowedNode(v)) v = "7";
                c.note("<" + e.name + "> " + a.first + "=" + a.second.substr(0, 60) + " -> " + v.substr(0, 60));
                a.second = v;
                break;
            }
            case 1: {  // an attribute less
                if (e.attributes.empty()) return;
                const size_t k = at(e.attributes.size());
                c.note("<" + e.name + "> without " + e.attributes[k].first);
                e.attributes.erase(e.attributes.begin() + static_cast<long>(k));
                break;
            }
            case 2: {  // another name
                if (e.attributes.empty()) return;
                Node& o = *elements[at(elements.size())];
                if (o.attributes.empty()) return;
                auto& a = e.attributes[at(e.attributes.size())];
                const std::string name = o.attributes[at(o.attributes.size())].first;
                if (isNodeNumber(name) && !allowedNode(a.second)) return;
                c.note("<" + e.name + "> " + a.first + " renamed " + name);
                a.first = name;
                break;
            }
            case 3: {  // one more
                Node& o = *elements[at(elements.size())];
                if (o.attributes.empty()) return;
                auto a = o.attributes[at(o.attributes.size())];
                bool there = false;
                for (const auto& x : e.attributes) there = there || x.first == a.first;
                if (there && s.chance(90)) return;
                c.note("<" + e.name + "> with " + a.first + "=" + a.second.substr(0, 60));
                e.attributes.push_back(std::move(a));
                break;
            }
            case 4: {  // an element less
                if (places.empty()) return;
                const auto p = places[at(places.size())];
                c.note("without <" + p.first->children[p.second]->name + "> of <" + p.first->name + ">");
                p.first->children.erase(p.first->children.begin() + static_cast<long>(p.second));
                break;
            }
            case 5: {  // twice, next to it
                if (places.empty()) return;
                const auto p = places[at(places.size())];
                auto x = p.first->children[p.second]->clone();
                c.note("<" + x->name + "> of <" + p.first->name + "> twice");
                p.first->children.insert(p.first->children.begin() + static_cast<long>(p.second), std::move(x));
                break;
            }
            case 6: {  // moved or copied elsewhere
                if (places.empty()) return;
                const auto p = places[at(places.size())];
                auto x = p.first->children[p.second]->clone();
                c.note("<" + x->name + "> of <" + p.first->name + "> into <" + e.name + ">");
                const size_t where = at(e.children.size() + 1);
                e.children.insert(e.children.begin() + static_cast<long>(where), std::move(x));
                break;
            }
            case 7: {  // exchanged with a sibling
                if (e.children.size() < 2) return;
                const size_t a = at(e.children.size()), b = at(e.children.size());
                c.note("children " + std::to_string(a) + " and " + std::to_string(b) + " of <" + e.name + "> exchanged");
                std::swap(e.children[a], e.children[b]);
                break;
            }
            case 8: {  // renamed
                const std::string name = s.chance(70) ? elements[at(elements.size())]->name : s.pickOf<std::string>({"iidm:unknown", "unknown", "iidm:bus", "iidm:alias", "iidm:property", "iidm:extension", "x:y"});
                c.note("<" + e.name + "> renamed <" + name + ">");
                e.name = name;
                break;
            }
            case 9: {  // children of another element
                Node& o = *elements[at(elements.size())];
                std::vector<std::unique_ptr<Node>> copy;
                for (const auto& x : o.children) copy.push_back(x->clone());
                c.note("<" + e.name + "> with the content of <" + o.name + ">");
                e.children = std::move(copy);
                break;
            }
            case 10: {  // a text
                std::unique_ptr<Node> x(new Node);
                x->text = s.chance(50) ? s.pick(junk()) : valueFor("id", elements);
                if (!texts.empty() && s.chance(60)) {
                    Node& t = *texts[at(texts.size())];
                    c.note("text " + t.text.substr(0, 60) + " -> " + x->text.substr(0, 60));
                    t.text = x->text;
                    return;
                }
                if (x->text.empty()) x->text = " ";
                c.note("text " + x->text.substr(0, 60) + " in <" + e.name + ">");
                const size_t where = at(e.children.size() + 1);
                e.children.insert(e.children.begin() + static_cast<long>(where), std::move(x));
                break;
            }
            case 11: {  // something unknown
                std::unique_ptr<Node> x(new Node);
                x->name = s.pickOf<std::string>({"iidm:unknown", "unknown", "iidm:extension", "iidm:alias", "iidm:property", "iidm:terminalRef", "iidm:regulatingTerminal", "iidm:node", "iidm:inj", "iidm:bus"});
                if (s.chance(70)) x->attributes.emplace_back("id", valueFor("id", elements));
                if (s.chance(20)) x->attributes.emplace_back("name", "n");
                c.note("<" + x->name + "> in <" + e.name + ">");
                const size_t where = at(e.children.size() + 1);
                e.children.insert(e.children.begin() + static_cast<long>(where), std::move(x));
                break;
            }
            default: {  // another version of the schema
                for (auto* x : elements) {
                    for (auto& a : x->attributes) {
                        if (a.first == "xmlns:iidm") {
                            a.second = uris()[at(6)];
                            c.note("version " + a.second);
                            return;
                        }
                    }
                }
            }
        }
    }
};

void mutateBytes(Case& c, std::string& d) {
    Src& s = c.s;
    const auto at = [&](size_t n) { return static_cast<size_t>(s.draw(n)); };
    for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0 && !d.empty(); --k) {
        switch (s.weighted({4, 4, 3, 3, 2, 2})) {
            case 0: d.resize(at(d.size())); c.note("truncated at " + std::to_string(d.size())); break;
            case 1: { const size_t i = at(d.size()); d[i] = static_cast<char>(s.draw(256)); c.note("byte " + std::to_string(i) + " is " + std::to_string(static_cast<unsigned char>(d[i]))); break; }
            case 2: { const size_t i = at(d.size()), n = at(std::min<size_t>(d.size() - i, 60)) + 1; d.erase(i, n); c.note(std::to_string(n) + " bytes erased at " + std::to_string(i)); break; }
            case 3: { const size_t i = at(d.size()); const std::string t = s.pickOf<std::string>({"<", ">", "\"", "&", "&#0;", "&x;", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?x", "\xFF", "\xC3", std::string(1, '\0'), "<!DOCTYPE a [<!ENTITY x \"y\">]>", "xmlns=\"\"", "\xEF\xBB\xBF"}); d.insert(i, t); c.note("inserted at " + std::to_string(i) + " " + pbt::quote(t)); break; }
            case 4: { const size_t i = at(d.size()), n = at(std::min<size_t>(d.size() - i, 200)) + 1; d.insert(at(d.size()), d.substr(i, n)); c.note("bytes copied"); break; }
            default: { const size_t i = d.find("encoding=\"UTF-8\""); if (i != std::string::npos) { d.replace(i, 16, s.pickOf<std::string>({"encoding=\"ISO-8859-1\"", "encoding=\"UTF-16\"", "encoding=\"x\"", "standalone=\"no\""})); c.note("encoding"); } break; }
        }
    }
}

// the digits of a node number may have been joined: see allowedNode
bool safeNodes(const std::string& d) {
    size_t i = 0;
    while ((i = d.find("ode", i)) != std::string::npos) {
        const size_t e = d.find('=', i), q = d.find_first_of("\"'", i);
        i += 3;
        if (e == std::string::npos || q == std::string::npos || q > i + 30) continue;
        const size_t f = std::min(d.find_first_of("\"'<>", q + 1), d.size());
        if (!allowedNode(d.substr(q + 1, f - q - 1))) return false;
    }
    return true;
}

bool runOfDigits(const std::string& d) {
    size_t run = 0;
    for (char x : d) {
        run = std::isdigit(static_cast<unsigned char>(x)) != 0 ? run + 1 : 0;
        if (run > 4) return true;
    }
    return false;
}

// ------------------------------------------------------------ what a network must satisfy
void consistent(Case& c, Network& n) {
    const auto check = [&](bool b, const std::string& key, const std::string& what) { c.check(b, key, what); };
    std::set<const iidm::Identifiable*> known;
    for (auto& i : n.getIdentifiables()) known.insert(&i);
    const auto inside = [&](const iidm::Terminal& t, const std::string& what) {
        const auto& owner = t.getConnectable();
        check(static_cast<bool>(owner), "reference-outside", what + ": a terminal without equipment");
        check(known.count(&owner.get()) != 0, "reference-outside", what + ": terminal of " + owner.get().getId() + ", which is not in the network");
        check(known.count(&t.getVoltageLevel()) != 0, "reference-outside", what + ": voltage level " + t.getVoltageLevel().getId() + " is not in the network");
    };
    check(n.getVariantManager().getVariantIds().size() == 1, "variants", "variants of a network that was read");
    for (auto& i : n.getIdentifiables()) {
        const std::string& id = i.getId();
        check(!id.empty(), "index", "empty identifier");
        check(&i.getNetwork() == &n, "index", id + ": network");
        check(&n.getIdentifiable(id) == &i, "index", id + " is not found by its identifier");
        for (const auto& a : i.getAliases()) check(&n.getIdentifiable(a) == &i, "index", "alias " + a + " of " + id);
    }
    for (auto& x : n.getConnectables<iidm::Connectable>()) {
        for (auto& t : x.getTerminals()) {
            inside(t.get(), x.getId());
            auto& vl = t.get().getVoltageLevel();
            check(&t.get().getConnectable().get() == &x, "terminal", x.getId() + ": terminal of another equipment");
            bool found = false;
            for (auto& y : vl.getConnectables<iidm::Connectable>()) found = found || &y == &x;
            check(found, "terminal", x.getId() + " is not listed by its voltage level " + vl.getId());
        }
    }
    for (auto& g : n.getGenerators()) inside(g.getRegulatingTerminal(), g.getId());
    for (auto& g : n.getStaticVarCompensators()) inside(g.getRegulatingTerminal(), g.getId());
    for (auto& g : n.getShuntCompensators()) inside(g.getRegulatingTerminal(), g.getId());
    for (auto& h : n.getHvdcLines()) {
        check(known.count(&h.getConverterStation1().get()) != 0 && known.count(&h.getConverterStation2().get()) != 0, "reference-outside", h.getId() + ": converter stations");
        check(&h.getConverterStation1().get() != &h.getConverterStation2().get(), "hvdc", h.getId() + ": the same station on both sides");
    }
    for (auto& vl : n.getVoltageLevels()) check(known.count(&vl.getSubstation()) != 0, "reference-outside", vl.getId() + ": substation");
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C03";
    cfg.rule = "documents written from random networks (every version, topology level and extension) and the library's own test documents are mutated: attributes removed, renamed, added, given values of other attributes, identifiers or junk, elements removed, duplicated, moved, renamed, exchanged, other schema versions, bytes changed, truncated, inserted; they are read under address and undefined-behaviour sanitizers. "
               "A network that is returned is dumped completely (every public getter), checked for references outside itself, written and read again. Non-trivial: at least one mutation was applied to a document with an element below the network.";
    cfg.quick = 12000;
    cfg.thorough = 400000;
    cfg.quickSeconds = 120;
    cfg.thoroughSeconds = 3000;
    cfg.requiredLabels = {"network read", "refused", "generated document", "bytes mutated"};
    cfg.assumptions = {"node numbers between 3000 and 2^60 are not tried: the memory used is proportional to the largest node number of a voltage level"};
    resources();
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Src& s = c.s;
        std::string xml;
        const bool own = resources().empty() || s.chance(60);
        if (own) {
            c.label("generated document");
            Options o;
            o.maxSubstations = 2;
            o.maxLevels = 3;
            o.maxEquipment = 8;
            o.nasty = s.chance(30);
            o.extreme = s.chance(30);
            o.serializableOnly = true;
            Network n("n", "test");
            World w(c, n, o);
            w.build();
            for (unsigned k = static_cast<unsigned>(s.draw(4)); k > 0; --k) { w.property(); w.alias(); }
            for (unsigned k = static_cast<unsigned>(s.draw(8)); k > 0; --k) w.extension();
            w.randomState(static_cast<unsigned>(s.draw(6)));
            stdcxx::Properties p;
            using EO = iidm::converter::ExportOptions;
            if (s.chance(30)) p.set(EO::TOPOLOGY_LEVEL, s.pickOf<std::string>({"BUS_BREAKER", "BUS_BRANCH"}));
            if (s.chance(40)) p.set(EO::VERSION, "1." + std::to_string(s.draw(5)));
            p.set(EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, "LOG_ERROR");
            try { xml = model::toXml(n, EO(p)); }
            catch (const std::exception& e) { c.note(e.what()); xml = model::toXml(n); }
        } else {
            c.label("test document");
            xml = s.pick(resources());
        }
        auto root = parse(xml);
        // as many mutations as the source says, few most of the time
        const unsigned mutations = s.chance(5) ? 0 : s.chance(75) ? 1 + static_cast<unsigned>(s.draw(2)) : 3 + static_cast<unsigned>(s.draw(12));
        Mutator m(c, *root);
        for (unsigned k = 0; k < mutations; ++k) m.mutate();
        xml = document(*root);
        if (s.chance(10)) {
            c.label("bytes mutated");
            mutateBytes(c, xml);
            if (!safeNodes(xml) && runOfDigits(xml)) throw pbt::Discard{"node number"};
        }
        if (s.chance(1)) {
            xml.clear();
            while (s.more(40)) xml += static_cast<char>(s.draw(256));
        }
        c.nontrivial(xml.size() > 300);
        if (c.verbose()) c.note(xml);
        iidm::converter::ImportOptions io;
        if (s.chance(20)) io.setThrowExceptionIfExtensionNotFound(true);
        std::unique_ptr<Network> n;
        try {
            n.reset(new Network(model::fromXml(xml, io)));
        } catch (const std::exception& e) {
            c.note(std::string("refused: ") + e.what());
            c.label("refused");
            c.compared();
            return;
        }
        c.label("network read");
        consistent(c, *n);
        Dump d;
        try { d = model::dump(*n); }
        catch (const std::exception& e) { c.fail("not-readable", std::string("a getter of the network fails: ") + e.what()); }
        std::string again;
        try { again = model::toXml(*n); }
        catch (const std::exception& e) { c.fail("not-exported", e.what()); }
        try {
            Network m2 = model::fromXml(again);
            const std::string diff = model::diff(model::xmlView(d), model::xmlView(model::dump(m2)));
            c.check(diff.empty(), "not-preserved", diff);
        } catch (const pbt::Failure&) {
            throw;
        } catch (const std::exception& e) {
            c.fail("not-imported", e.what());
        }
    });
}
