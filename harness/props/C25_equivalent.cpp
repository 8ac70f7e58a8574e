// C25: documents that mean the same are read as the same network.
#include "../model/gen.hpp"
#include "../model/tree.hpp"
#include "../model/xml.hpp"

using namespace gen;
using model::Dump;

namespace {

std::string local(const std::string& name) {
    const size_t at = name.find(':');
    return at == std::string::npos ? name : name.substr(at + 1);
}

// elements whose order among themselves has no meaning, by group
int group(const std::string& parent, const std::string& name) {
    static const std::map<std::string, std::map<std::string, int>> g{
        {"network", {{"substation", 1}, {"line", 2}, {"tieLine", 2}, {"hvdcLine", 2}, {"extension", 3}, {"alias", 4}, {"property", 5}}},
        {"substation", {{"voltageLevel", 1}, {"twoWindingsTransformer", 2}, {"threeWindingsTransformer", 2}, {"alias", 4}, {"property", 5}}},
        {"voltageLevel", {{"battery", 1}, {"danglingLine", 1}, {"generator", 1}, {"lccConverterStation", 1}, {"load", 1}, {"shunt", 1}, {"staticVarCompensator", 1}, {"vscConverterStation", 1}, {"alias", 4}, {"property", 5}}},
        {"nodeBreakerTopology", {{"busbarSection", 1}, {"switch", 2}, {"internalConnection", 3}, {"node", 4}}},
        {"busBreakerTopology", {{"switch", 2}}},
        {"extension", {{"*", 1}}},
        {"reactiveCapabilityCurve", {{"point", 1}}},
        {"*", {{"alias", 4}, {"property", 5}, {"temporaryLimit", 6}}},
    };
    for (const auto& p : {parent, std::string("*")}) {
        const auto i = g.find(p);
        if (i == g.end()) continue;
        auto j = i->second.find(name);
        if (j == i->second.end()) j = i->second.find("*");
        if (j != i->second.end()) return j->second;
    }
    return 0;
}

// attributes that hold a floating-point number
bool isReal(const std::string& name) {
    static const std::set<std::string> s{"r", "x", "g", "b", "g1", "g2", "b1", "b2", "p0", "q0", "p", "q", "p1", "q1", "p2", "q2", "p3", "q3", "v", "angle", "nominalV", "targetP", "targetQ", "targetV", "minP", "maxP", "minQ", "maxQ", "permanentLimit", "ratedU", "ratedU1", "ratedU2", "ratedU3",
        "ratedS", "rho", "alpha", "bMin", "bMax", "voltageSetpoint", "voltageSetPoint", "reactivePowerSetpoint", "reactivePowerSetPoint", "lossFactor", "powerFactor", "lowVoltageLimit", "highVoltageLimit", "activePowerSetpoint", "maxP", "targetDeadband", "regulationValue", "bPerSection", "gPerSection"};
    return s.count(name) != 0;
}

struct Rewriter {
    Case& c;
    Src& s;
    int order, attributes, blanks, comments, references, quotes, numbers, empties, texts;

    Rewriter(Case& c) : c(c), s(c.s) {
        for (int* x : {&order, &attributes, &blanks, &comments, &references, &quotes, &numbers, &empties, &texts}) *x = s.chance(50) ? static_cast<int>(s.draw(60)) : 0;
    }

    // groups of siblings are shuffled in the places they have
    void shuffle(Node& x) {
        if (order > 0) {
            std::map<int, std::vector<size_t>> places;
            for (size_t i = 0; i < x.children.size(); ++i) {
                if (x.children[i]->name.empty()) continue;
                const int g = group(local(x.name), local(x.children[i]->name));
                if (g != 0) places[g].push_back(i);
            }
            for (auto& p : places) {
                auto& v = p.second;
                if (v.size() < 2 || !s.chance(order + 20)) continue;
                for (size_t i = v.size() - 1; i > 0; --i) {
                    const size_t j = s.draw(i + 1);
                    if (i != j) { std::swap(x.children[v[i]], x.children[v[j]]); c.label("elements exchanged"); }
                }
            }
        }
        if (attributes > 0 && x.attributes.size() > 1 && s.chance(attributes)) {
            for (size_t i = x.attributes.size() - 1; i > 0; --i) std::swap(x.attributes[i], x.attributes[s.draw(i + 1)]);
            c.label("attributes exchanged");
        }
        for (auto& y : x.children) shuffle(*y);
    }

    std::string blank(bool required) {
        std::string r;
        unsigned n = static_cast<unsigned>(s.draw(4));
        if (required && n == 0) n = 1;
        for (; n > 0; --n) r += s.pickOf<std::string>({" ", "\n", "\t", "\r\n", "  "});
        return r;
    }

    // between elements
    std::string between() {
        std::string r;
        if (blanks > 0 && s.chance(blanks)) { r += blank(false); c.label("blanks"); }
        if (comments > 0 && s.chance(comments)) {
            r += s.pickOf<std::string>({"<!-- a comment -->", "<!---->", "<!-- <iidm:load id=\"x\"/> -->", "<?pi data?>", "<!-- &amp; < > ' \" -->", "<?iidm network?>"});
            c.label("comments");
            if (s.chance(30)) r += blank(false);
        }
        return r;
    }

    // characters as references
    std::string characters(const std::string& t) {
        if (references == 0) return t;
        std::string r;
        for (size_t i = 0; i < t.size();) {
            const unsigned char b = static_cast<unsigned char>(t[i]);
            if (t[i] == '&') {
                const size_t e = t.find(';', i);
                if (e == std::string::npos) { r += t[i++]; continue; }
                const std::string name = t.substr(i + 1, e - i - 1);
                static const std::map<std::string, std::string> known{{"amp", "&#38;"}, {"lt", "&#x3c;"}, {"gt", "&#62;"}, {"quot", "&#x22;"}, {"apos", "&#39;"}};
                const auto k = known.find(name);
                r += k != known.end() && s.chance(references) ? k->second : t.substr(i, e - i + 1);
                i = e + 1;
                continue;
            }
            size_t length = b < 0x80 ? 1 : b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : 2;
            if (i + length > t.size()) length = 1;
            // (white space as a reference is not normalized, as it is it would be: left alone)
            if (b <= 0x20 || !s.chance(references)) { r += t.substr(i, length); i += length; continue; }
            unsigned long code = length == 1 ? b : length == 2 ? b & 0x1F : length == 3 ? b & 0x0F : b & 0x07;
            for (size_t k = 1; k < length; ++k) code = (code << 6) | (static_cast<unsigned char>(t[i + k]) & 0x3F);
            std::ostringstream o;
            if (s.chance(50)) o << "&#" << code << ";"; else o << "&#x" << std::hex << code << ";";
            r += o.str();
            c.label("references");
            i += length;
        }
        return r;
    }

    // another way of writing the same number
    std::string number(const std::string& v) {
        if (v.empty() || v.find_first_not_of("+-.0123456789eE") != std::string::npos) return v;
        c.label("numbers");
        const bool exponent = v.find_first_of("eE") != std::string::npos;
        const bool point = v.find('.') != std::string::npos;
        switch (s.draw(6)) {
            case 0: return exponent ? v : v + (s.chance(50) ? "e0" : "E+00");
            case 1: return exponent ? v : v + (point ? "000" : ".0");
            case 2: return v[0] == '-' || v[0] == '+' ? v : "+" + v;
            case 3: return v[0] == '-' ? "-00" + v.substr(1) : v[0] == '+' ? v : "0" + v;
            case 4: return v + " ";
            default: return " " + v;
        }
    }

    // a text made of several nodes: CDATA sections, comments and processing instructions between the parts
    std::string split(const std::string& t) {
        std::string r;
        for (size_t i = 0; i < t.size();) {
            std::string part, raw;  // as it is written, and decoded
            bool section = s.chance(40);
            for (size_t n = 1 + s.draw(6); n > 0 && i < t.size(); --n) {
                size_t e = i + 1;
                std::string decoded = t.substr(i, 1);
                if (t[i] == '&') {
                    e = t.find(';', i);
                    if (e == std::string::npos) return t;
                    ++e;
                    static const std::map<std::string, std::string> known{{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}};
                    const auto k = known.find(t.substr(i, e - i));
                    if (k == known.end()) section = false; else decoded = k->second;
                } else {
                    while (e < t.size() && (static_cast<unsigned char>(t[e]) & 0xC0) == 0x80) ++e;  // a whole character
                    decoded = t.substr(i, e - i);
                }
                part += t.substr(i, e - i);
                raw += decoded;
                i = e;
            }
            if (section && raw.find("]") == std::string::npos && raw.find("\r") == std::string::npos) { r += "<![CDATA[" + raw + "]]>"; c.label("CDATA"); } else r += characters(part);
            if (s.chance(30)) { r += s.pickOf<std::string>({"<!-- in the text -->", "<!---->", "<?pi in the text?>"}); c.label("text in parts"); }
        }
        return r;
    }

    void write(const Node& x, std::string& out) {
        if (x.name.empty()) { out += characters(x.text); return; }
        bool elements = true;  // without text
        for (const auto& y : x.children) if (y->name.empty()) elements = false;
        if (x.name != "#") {
            out += "<" + x.name;
            for (const auto& a : x.attributes) {
                out += blanks > 0 && s.chance(blanks) ? blank(true) : " ";
                std::string v = numbers > 0 && isReal(a.first) && s.chance(numbers) ? number(a.second) : a.second;
                if (a.first.compare(0, 5, "xmlns") != 0 || s.chance(50)) v = characters(v);
                out += a.first + (blanks > 0 && s.chance(blanks) ? blank(false) + "=" + blank(false) : "=");
                if (quotes > 0 && v.find('\'') == std::string::npos && s.chance(quotes)) { out += "'" + v + "'"; c.label("quotes"); } else out += "\"" + v + "\"";
            }
            if (blanks > 0 && s.chance(blanks)) out += blank(false);
            if (x.children.empty()) {
                if (empties > 0 && s.chance(empties + 20)) {
                    c.label("opened and closed");
                    out += ">" + (local(x.name) == "alias" ? "" : between()) + "</" + x.name + ">";
                } else {
                    out += "/>";
                }
                return;
            }
            out += ">";
        }
        for (const auto& y : x.children) {
            if (elements && x.name != "#") out += between();
            if (texts > 0 && y->name.empty() && x.name != "#" && x.children.size() == 1 && s.chance(texts + 20)) out += split(y->text); else write(*y, out);
        }
        if (elements && x.name != "#") out += between();
        if (x.name != "#") out += "</" + x.name + (blanks > 0 && s.chance(blanks) ? blank(false) : "") + ">";
    }

    void strip(Node& x) {
        if (x.name.compare(0, 5, "iidm:") == 0) x.name.erase(0, 5);
        for (auto& y : x.children) strip(*y);
    }

    std::string rewrite(const std::string& xml) {
        std::unique_ptr<Node> root = parse(xml, true);
        // texts around the root
        root->children.erase(std::remove_if(root->children.begin(), root->children.end(), [](const std::unique_ptr<Node>& x) { return x->name.empty(); }), root->children.end());
        if (root->children.size() != 1) return xml;
        shuffle(*root);
        Node& top = *root->children[0];
        if (top.name == "iidm:network" && s.chance(20)) {
            for (auto& a : top.attributes) {
                if (a.first != "xmlns:iidm") continue;
                a.first = "xmlns";
                strip(top);
                c.label("default namespace");
                break;
            }
        }
        if (s.chance(20)) {
            top.attributes.emplace_back("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance");
            top.attributes.emplace_back("xsi:schemaLocation", "http://www.powsybl.org/schema/iidm/1_5 iidm_V1_5.xsd");
            top.attributes.emplace_back("xmlns:other", "http://example.org/other");
            c.label("schema location");
        }
        std::string out = s.pickOf<std::string>({"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone=\"yes\"?>", "", "<?xml version=\"1.0\"?>\r\n", "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\"?>"});
        if (comments > 0 && s.chance(40)) out += "<!-- before -->" + blank(false);
        if (comments > 0 && s.chance(20)) out += "<!-- and again -->" + blank(false);
        write(*root, out);
        if (s.chance(30)) out += "\n\n";
        if (comments > 0 && s.chance(20)) out += "<!-- after -->";
        return out;
    }
};

struct Outcome {
    std::string error;
    Dump dump;
};

Outcome readDocument(const std::string& xml) {
    Outcome r;
    try {
        iidm::Network n = model::fromXml(xml);
        r.dump = model::xmlView(model::dump(n));
    } catch (const std::exception& e) {
        r.error = e.what();
        if (r.error.empty()) r.error = "error";
    }
    return r;
}

// derived values of buses that depend on the order of the equipment or of the switches: sums of powers (rounding), the
// state of a merged bus (of its first bus that has one), the nearest bus of a disconnected terminal
Dump withoutOrder(Dump d) {
    auto ends = [](const std::string& k, const std::string& e) { return k.size() >= e.size() && k.compare(k.size() - e.size(), e.size(), e) == 0; };
    for (auto it = d.begin(); it != d.end();) {
        const std::string& k = it->first;
        const bool bus = k.compare(0, 4, "bus:") == 0, view = ends(k, "].p") || ends(k, "].q") || ends(k, "].v") || ends(k, "].angle");
        const bool drop = (bus && (ends(k, ".p") || ends(k, ".q"))) || (view && (k.find(".bv[") != std::string::npos || ends(k, "].p") || ends(k, "].q"))) || ends(k, "Connectable");
        if (drop) it = d.erase(it); else ++it;
    }
    return d;
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C25";
    cfg.rule = "documents written from random networks (all versions, topology levels and extensions) and the library's own test documents are rewritten in an equivalent form: attributes and independent elements in another order, other white space, comments and processing instructions between elements, other quotes, "
               "character references, texts in several parts (CDATA sections, comments inside), other spellings of numbers, empty elements opened and closed, default namespace, schema location, byte order mark, other or no XML declaration; both documents must be refused, or read as networks with equal dumps. Non-trivial: a document of a network was accepted and differs from the original.";
    cfg.quick = 16000;
    cfg.thorough = 300000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"elements exchanged", "attributes exchanged", "blanks", "comments", "references", "quotes", "numbers", "opened and closed", "CDATA", "text in parts", "default namespace", "schema location", "test document", "generated", "older version"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        std::string xml;
        if (c.s.chance(15) && !resources().empty()) {
            xml = c.s.pick(resources());
            if (xml.find("<![CDATA[") != std::string::npos || xml.find("<!DOCTYPE") != std::string::npos) throw pbt::Discard{"another kind of document"};
            c.label("test document");
        } else {
            Options o;
            o.maxSubstations = 3;
            o.maxLevels = 4;
            o.maxEquipment = 10;
            o.nasty = c.s.chance(40);
            o.specialIds = o.nasty && c.s.chance(50);
            o.extreme = c.s.chance(40);
            o.serializableOnly = true;
            Network n("n", "test");
            World w(c, n, o);
            w.build();
            for (unsigned k = static_cast<unsigned>(c.s.draw(6)); k > 0; --k) {
                if (c.s.chance(50)) w.property(); else w.alias();
            }
            for (unsigned k = static_cast<unsigned>(c.s.draw(6)); k > 0; --k) w.extension();
            w.randomState(static_cast<unsigned>(c.s.draw(8)));
            iidm::converter::ExportOptions e;
            e.setIndent(false);
            if (c.s.chance(30)) {
                e.setVersion("1." + std::to_string(c.s.draw(6))).setIidmVersionIncompatibilityBehavior(iidm::converter::ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
                c.label("older version");
            }
            if (c.s.chance(30)) e.setTopologyLevel(c.s.chance(50) ? iidm::TopologyLevel::BUS_BREAKER : iidm::TopologyLevel::BUS_BRANCH);
            try {
                xml = model::toXml(n, e);
            } catch (const std::exception&) {
                throw pbt::Discard{"not exported"};
            }
            c.label("generated");
        }
        Rewriter w(c);
        const std::string other = w.rewrite(xml);
        const Outcome a = readDocument(xml), b = readDocument(other);
        if (a.error.empty() != b.error.empty() || model::diff(a.dump, b.dump) != "") { c.note(xml); c.note("----"); c.note(other); }
        c.check(a.error.empty() == b.error.empty(), "one-is-refused", "document: " + a.error + " / equivalent document: " + b.error);
        const std::string d = model::diff(withoutOrder(a.dump), withoutOrder(b.dump));
        c.check(d.empty(), "read-differently", "document -> equivalent document:\n" + d);
        c.nontrivial(a.error.empty() && other != xml);
    });
}
