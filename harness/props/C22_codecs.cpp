// C22: XML streams, numbers, dates, enumerations, option maps and anonymization tables are lossless codecs.
#include "../model/common.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <sstream>

#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/FakeAnonymizer.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
#include <powsybl/iidm/converter/xml/IidmXmlVersion.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/stdcxx/DateTime.hpp>
#include <powsybl/iidm/util/Identifiables.hpp>
#include <powsybl/stdcxx/Properties.hpp>
#include <powsybl/stdcxx/demangle.hpp>
#include <powsybl/stdcxx/exception.hpp>
#include <powsybl/stdcxx/flattened.hpp>
#include <powsybl/stdcxx/format.hpp>
#include <powsybl/stdcxx/math.hpp>
#include <powsybl/stdcxx/set.hpp>
#include <powsybl/stdcxx/exception.hpp>
#include <powsybl/xml/XmlStreamException.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>

using namespace powsybl::iidm;
using pbt::Case;
using powsybl::xml::XmlStreamReader;
using powsybl::xml::XmlStreamWriter;

namespace {

std::string utf8(uint32_t cp) {
    std::string r;
    if (cp < 0x80) r += static_cast<char>(cp);
    else if (cp < 0x800) { r += static_cast<char>(0xC0 | (cp >> 6)); r += static_cast<char>(0x80 | (cp & 0x3F)); }
    else if (cp < 0x10000) { r += static_cast<char>(0xE0 | (cp >> 12)); r += static_cast<char>(0x80 | ((cp >> 6) & 0x3F)); r += static_cast<char>(0x80 | (cp & 0x3F)); }
    else { r += static_cast<char>(0xF0 | (cp >> 18)); r += static_cast<char>(0x80 | ((cp >> 12) & 0x3F)); r += static_cast<char>(0x80 | ((cp >> 6) & 0x3F)); r += static_cast<char>(0x80 | (cp & 0x3F)); }
    return r;
}

// the characters that XML 1.0 can represent
std::string character(pbt::Src& s) {
    switch (s.weighted({40, 20, 15, 10, 8, 4, 3})) {
        case 0: return std::string(1, static_cast<char>('a' + s.draw(26)));
        case 1: return s.pickOf<std::string>({"<", ">", "&", "\"", "'", "&amp;", "]]>", "<!--", "-->", "<![CDATA[", "&#10;", "%", "\\", ";", ":", ",", "=", "{", "}", "/"});
        case 2: return s.pickOf<std::string>({" ", "\n", "\t", "\r", "\r\n", "  "});
        case 3: return std::string(1, static_cast<char>(0x20 + s.draw(0x5F)));
        case 4: return utf8(0x80 + static_cast<uint32_t>(s.draw(0x780)));
        case 5: {
            const auto cp = 0x800 + static_cast<uint32_t>(s.draw(0xF7FE));
            return utf8(cp >= 0xD800 && cp <= 0xDFFF ? 0x20AC : cp);
        }
        default: return utf8(0x10000 + static_cast<uint32_t>(s.draw(0x100000)));
    }
}

std::string text(pbt::Src& s, unsigned mean = 8) {
    std::string r;
    while (s.more(mean)) r += character(s);
    // parsers work by chunks
    if (s.chance(3)) {
        const std::string unit = r.empty() ? "x" : r;
        const unsigned n = 20 + static_cast<unsigned>(s.draw(400));
        for (unsigned k = 0; k < n; ++k) r += unit;
    }
    return r;
}

double number(pbt::Src& s) {
    switch (s.weighted({20, 20, 15, 15, 20, 10})) {
        case 0: return static_cast<double>(s.range(-1000, 1000));
        case 1: return static_cast<double>(s.range(-1000000, 1000000)) / 1000.0;
        case 2: return s.pickOf({0.0, -0.0, 0.1, 1.0 / 3.0, 1e22, 1e23, 5e-324, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 4.9e-320, 2.2250738585072011e-308, 9007199254740993.0, 0.30000000000000004, 1e-7, 123456789012345680.0});
        case 3: return s.pickOf({std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
        case 4: {
            const uint64_t bits = (s.draw(1ULL << 32) << 32) | s.draw(1ULL << 32);
            double d;
            std::memcpy(&d, &bits, sizeof(d));
            return d;
        }
        default: return std::ldexp(static_cast<double>(s.draw(1ULL << 53)), static_cast<int>(s.range(-1100, 900)));
    }
}

bool same(double a, double b) {
    return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
}

enum Kind { STRING, CHARS, BOOL, INT, LONG, ULONG, DOUBLE, OPT_STRING, OPT_BOOL, OPT_INT, OPT_ULONG, OPT_DOUBLE, BAD_NUMBER, MISSING };
struct Attribute {
    std::string name;
    Kind kind = STRING;
    std::string text, absentText;
    bool b = false, absentB = false;
    int i = 0, absentI = 0;
    long l = 0;
    unsigned long u = 0, absentU = 0;
    double d = 0, absentD = 0;
};
struct Element {
    std::string prefix, name;
    std::vector<std::pair<std::string, std::string>> declared;
    std::vector<Attribute> attributes;
    bool hasText = false, viaEmpty = false, viaCharacters = false;
    std::string content;
    std::vector<Element> children;
};

class Xml {
public:
    explicit Xml(Case& c) : c(c), s(c.s) {}
    Case& c;
    pbt::Src& s;
    unsigned count = 0;
    bool asciiNames = false;

    std::string name() {
        static const std::vector<std::string> NAMES{"a", "b", "iidm", "network", "busOrBusbarSectionRef", "_x", "x-1", "x.y", "\xC3\xA9l\xC3\xA9ment", "a1"};
        const std::string& n = s.pick(NAMES);
        return asciiNames && (n[0] & 0x80) != 0 ? "e" : n;
    }

    std::string badNumber() {
        return s.pickOf<std::string>({"", "abc", "12abc", "1,5", "--1", "+-2", "1.5.2", " ", "12 13", "one", "NULL", "true", "0x", "1e5x", "99999999999999999999999x", "$5", "5%", "\xC3\xA9", "1_000", "-"});
    }

    Element make(unsigned depth, const std::vector<std::string>& prefixes) {
        Element e;
        ++count;
        e.name = name();
        std::vector<std::string> known = prefixes;
        if (s.chance(depth == 0 ? 60 : 10)) {
            const std::string p = s.pickOf<std::string>({"iidm", "ext", "p"}) + (s.chance(50) ? std::to_string(depth) : "");
            std::string uri = "http://www.x.y/" + (s.chance(80) ? std::to_string(s.draw(4)) : "a%20b?c=d");
            e.declared.emplace_back(p, uri);
            known.push_back(p);
        }
        if (!known.empty() && s.chance(60)) e.prefix = s.pick(known);
        while (s.more(3)) {
            Attribute a;
            a.name = name() + (s.chance(40) ? std::to_string(s.draw(5)) : "");
            bool used = false;
            for (const auto& x : e.attributes) used = used || x.name == a.name;
            if (used) continue;
            a.kind = static_cast<Kind>(s.weighted({20, 5, 6, 8, 8, 8, 20, 6, 4, 4, 4, 10, 5, 2}));
            switch (a.kind) {
                case STRING: case CHARS: a.text = text(s); break;
                case OPT_STRING: a.text = text(s, 2); a.absentText = s.chance(50) ? a.text : text(s, 2); break;
                case BOOL: case OPT_BOOL: a.b = s.chance(50); a.absentB = s.chance(50); break;
                case INT: case OPT_INT:
                    a.i = s.chance(50) ? static_cast<int>(s.range(-100, 100)) : s.pickOf({std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 0, 2147483646});
                    a.absentI = s.chance(50) ? a.i : static_cast<int>(s.range(-2, 2));
                    break;
                case LONG: a.l = s.chance(50) ? s.range(-100, 100) : s.pickOf({std::numeric_limits<long>::max(), std::numeric_limits<long>::min(), 0L, 4294967296L}); break;
                case ULONG: case OPT_ULONG:
                    a.u = s.chance(50) ? s.draw(100) : s.pickOf({std::numeric_limits<unsigned long>::max(), 0UL, 4294967296UL, 9223372036854775808UL});
                    a.absentU = s.chance(50) ? a.u : s.draw(3);
                    break;
                case DOUBLE: a.d = number(s); break;
                case OPT_DOUBLE:
                    a.d = number(s);
                    a.absentD = s.chance(40) ? a.d : number(s);
                    // 0 and -0 compare equal: an absent value does not tell which one it was
                    if (a.d == 0 && a.absentD == 0) a.absentD = a.d;
                    break;
                case BAD_NUMBER: a.text = badNumber(); break;
                default: break;
            }
            e.attributes.push_back(std::move(a));
        }
        const unsigned childCount = depth > 4 || count > 40 ? 0 : s.chance(depth == 0 ? 90 : 45) ? 1 + static_cast<unsigned>(s.draw(4)) : 0;
        for (unsigned k = 0; k < childCount; ++k) e.children.push_back(make(depth + 1, known));
        if (childCount == 0) {
            e.hasText = s.chance(60);
            if (e.hasText) e.content = text(s);
            e.viaEmpty = !e.hasText && e.attributes.empty() && e.declared.empty() && s.chance(40);
            e.viaCharacters = e.hasText && !e.content.empty() && s.chance(50);
        }
        return e;
    }

    static void write(XmlStreamWriter& w, const Element& e) {
        if (e.viaEmpty) {
            w.writeEmptyElement(e.prefix, e.name);
            return;
        }
        w.writeStartElement(e.prefix, e.name);
        for (const auto& p : e.declared) w.setPrefix(p.first, p.second);
        for (const auto& a : e.attributes) {
            switch (a.kind) {
                case STRING: case BAD_NUMBER: w.writeAttribute(a.name, a.text); break;
                case CHARS: w.writeAttribute(a.name, a.text.c_str()); break;
                case BOOL: w.writeAttribute(a.name, a.b); break;
                case INT: w.writeAttribute(a.name, a.i); break;
                case LONG: w.writeAttribute(a.name, a.l); break;
                case ULONG: w.writeAttribute(a.name, a.u); break;
                case DOUBLE: w.writeAttribute(a.name, a.d); break;
                case OPT_STRING:
                    if (a.b) w.writeOptionalAttribute(a.name, a.text.c_str(), a.absentText.c_str());
                    else w.writeOptionalAttribute(a.name, a.text, a.absentText);
                    break;
                case OPT_BOOL: w.writeOptionalAttribute(a.name, a.b, a.absentB); break;
                case OPT_INT: w.writeOptionalAttribute(a.name, a.i, a.absentI); break;
                case OPT_ULONG: w.writeOptionalAttribute(a.name, a.u, a.absentU); break;
                case OPT_DOUBLE: w.writeOptionalAttribute(a.name, a.d, a.absentD); break;
                case MISSING: break;
            }
        }
        if (e.hasText) w.writeCharacters(e.content);
        for (const auto& x : e.children) write(w, x);
        w.writeEndElement();
    }

    template <typename F> void refused(const std::string& what, const F& f) {
        bool ok = true;
        try { f(); }
        catch (const std::exception&) { ok = false; }
        c.check(!ok, "malformed-accepted", what);
        c.label("malformed value refused");
    }

    void readAttributes(const XmlStreamReader& r, const Element& e) {
        for (const auto& a : e.attributes) {
            const std::string where = "attribute " + a.name + " of <" + e.name + ">";
            switch (a.kind) {
                case STRING: case CHARS:
                    c.check(r.getAttributeValue(a.name) == a.text, "attribute", where + " " + pbt::quote(a.text) + " is read as " + pbt::quote(r.getAttributeValue(a.name)));
                    c.check(r.getOptionalAttributeValue(a.name, std::string("?")) == a.text, "attribute", where + " (optional)");
                    c.check(r.getOptionalAttributeValue(a.name, "?") == a.text, "attribute", where + " (optional characters)");
                    c.check(r.getOptionalAttributeValue<std::string>(a.name).value_or("??") == a.text, "attribute", where + " (optional type)");
                    break;
                case BOOL:
                    c.checkEq(r.getAttributeValue<bool>(a.name), a.b, "boolean", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, !a.b), a.b, "boolean", where);
                    break;
                case INT:
                    c.checkEq(r.getAttributeValue<int>(a.name), a.i, "integer", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, a.i == 5 ? 6 : 5), a.i, "integer", where);
                    c.checkEq(r.getAttributeValue<long>(a.name), static_cast<long>(a.i), "integer", where);
                    if (a.i < 0) refused(where + ": " + std::to_string(a.i) + " is read as an unsigned long", [&] { (void) r.getAttributeValue<unsigned long>(a.name); });
                    break;
                case LONG:
                    c.checkEq(r.getAttributeValue<long>(a.name), a.l, "integer", where);
                    if (a.l != static_cast<int>(a.l)) refused(where + ": " + std::to_string(a.l) + " is read as an int", [&] { (void) r.getAttributeValue<int>(a.name); });
                    break;
                case ULONG:
                    c.checkEq(r.getAttributeValue<unsigned long>(a.name), a.u, "integer", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, a.u + 1), a.u, "integer", where);
                    if (a.u > static_cast<unsigned long>(std::numeric_limits<long>::max())) refused(where + ": " + std::to_string(a.u) + " is read as a long", [&] { (void) r.getAttributeValue<long>(a.name); });
                    break;
                case DOUBLE:
                    if (std::isnan(a.d)) {
                        c.check(!r.getOptionalAttributeValue<double>(a.name), "number", where + " is undefined");
                        c.check(std::isnan(r.getOptionalAttributeValue(a.name, std::nan(""))), "number", where + " is undefined");
                        c.check(r.getOptionalAttributeValue(a.name, 7.0) == 7.0, "number", where + " is undefined");
                        refused(where + ": an absent number is read", [&] { (void) r.getAttributeValue<double>(a.name); });
                        c.label("undefined number");
                    } else {
                        const double d = r.getAttributeValue<double>(a.name);
                        c.check(same(d, a.d), "number", where + ": " + pbt::show(a.d) + " is read as " + pbt::show(d));
                        c.check(same(r.getOptionalAttributeValue(a.name, 0.5), a.d), "number", where + " (optional)");
                        if (std::fpclassify(a.d) == FP_SUBNORMAL) c.label("subnormal number");
                        if (std::isinf(a.d)) c.label("infinite number");
                    }
                    break;
                case OPT_STRING: {
                    const auto v = r.getOptionalAttributeValue<std::string>(a.name);
                    c.check(static_cast<bool>(v) == (a.text != a.absentText), "optional", where + " " + pbt::quote(a.text) + " default " + pbt::quote(a.absentText));
                    c.check(r.getOptionalAttributeValue(a.name, a.absentText) == a.text, "optional", where);
                    if (!v) c.label("default value omitted");
                    break;
                }
                case OPT_BOOL:
                    c.checkEq(static_cast<bool>(r.getOptionalAttributeValue<bool>(a.name)), a.b != a.absentB, "optional", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, a.absentB), a.b, "optional", where);
                    break;
                case OPT_INT:
                    c.checkEq(static_cast<bool>(r.getOptionalAttributeValue<int>(a.name)), a.i != a.absentI, "optional", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, a.absentI), a.i, "optional", where);
                    break;
                case OPT_ULONG:
                    c.checkEq(static_cast<bool>(r.getOptionalAttributeValue<unsigned long>(a.name)), a.u != a.absentU, "optional", where);
                    c.checkEq(r.getOptionalAttributeValue(a.name, a.absentU), a.u, "optional", where);
                    break;
                case OPT_DOUBLE:
                    // an undefined number is always omitted
                    if (std::isnan(a.d)) c.check(!r.getOptionalAttributeValue<double>(a.name), "optional", where + " is undefined");
                    else c.check(same(r.getOptionalAttributeValue(a.name, a.absentD), a.d), "optional", where + ": " + pbt::show(a.d) + " default " + pbt::show(a.absentD) + " is read as " + pbt::show(r.getOptionalAttributeValue(a.name, a.absentD)));
                    break;
                case BAD_NUMBER:
                    refused("'" + a.text + "' is read as a double", [&] { (void) r.getAttributeValue<double>(a.name); });
                    refused("'" + a.text + "' is read as an int", [&] { (void) r.getAttributeValue<int>(a.name); });
                    refused("'" + a.text + "' is read as a long", [&] { (void) r.getAttributeValue<long>(a.name); });
                    refused("'" + a.text + "' is read as an unsigned long", [&] { (void) r.getAttributeValue<unsigned long>(a.name); });
                    refused("'" + a.text + "' is read as an optional double", [&] { (void) r.getOptionalAttributeValue(a.name, 1.0); });
                    refused("'" + a.text + "' is read as an optional int", [&] { (void) r.getOptionalAttributeValue(a.name, 1); });
                    refused("'" + a.text + "' is read as an optional unsigned long", [&] { (void) r.getOptionalAttributeValue(a.name, 1UL); });
                    break;
                case MISSING:
                    refused(where + " does not exist", [&] { (void) r.getAttributeValue(a.name); });
                    c.check(!r.getOptionalAttributeValue<std::string>(a.name) && !r.getOptionalAttributeValue<bool>(a.name) && !r.getOptionalAttributeValue<int>(a.name), "attribute", where + " does not exist");
                    break;
            }
        }
    }

    void read(const XmlStreamReader& r, const Element& e, std::map<std::string, std::string> prefixes) {
        for (const auto& p : e.declared) prefixes[p.first] = p.second;
        c.checkEq(r.getLocalName(), e.name, "element", "element name");
        c.checkEq(r.getPrefix(), e.prefix, "element", "prefix of <" + e.name + ">");
        for (const auto& p : prefixes) {
            c.checkEq(r.getNamespace(p.first), p.second, "namespace", "prefix " + p.first);
            c.checkEq(r.getNamespace(p.first, "?"), p.second, "namespace", "prefix " + p.first);
            c.checkEq(r.getNamespaceOrDefault(p.first), p.second, "namespace", "prefix " + p.first);
        }
        c.checkEq(r.getNamespace("unknown", "?"), std::string("?"), "namespace", "unknown prefix");
        readAttributes(r, e);
        size_t next = 0;
        const auto child = [&] {
            c.check(next < e.children.size(), "element", "unexpected child <" + r.getLocalName() + "> of <" + e.name + ">");
            read(r, e.children[next++], prefixes);
        };
        if (e.viaCharacters) {
            const std::string got = r.readCharacters();
            c.check(got == e.content, "text", pbt::quote(e.content.substr(0, 300)) + " is read as " + pbt::quote(got.substr(0, 300)));
            r.readUntilEndElement(e.name);
        } else {
            const std::string full = e.prefix.empty() ? e.name : e.name;
            const std::string got = e.children.empty() ? r.readUntilEndElement(full) : r.readUntilEndElement(full, child);
            // blank text is layout for this function
            const bool blank = e.content.find_first_not_of(" \t\r\n") == std::string::npos;
            if (e.children.empty() && !(blank && !e.content.empty())) c.check(got == e.content, "text", pbt::quote(e.content.substr(0, 300)) + " is read as " + pbt::quote(got.substr(0, 300)) + " until the end of <" + e.name + ">");
        }
        c.checkEq(next, e.children.size(), "element", "children of <" + e.name + ">");
    }

    void run() {
        const bool indent = s.chance(50);
        const std::string encoding = s.chance(80) ? "UTF-8" : s.pickOf<std::string>({"ISO-8859-1", "UTF-16LE", "ASCII", "UTF-8"});
        // a name cannot be written with character references
        asciiNames = encoding == "ASCII";
        Element root = make(0, {});
        std::ostringstream out;
        {
            XmlStreamWriter w(out, indent);
            w.writeStartDocument(encoding, "1.0");
            write(w, root);
            w.writeEndDocument();
        }
        const std::string document = out.str();
        c.note("document (" + encoding + (indent ? ", indented" : "") + ") " + pbt::quote(document.substr(0, 4000)));
        if (count > 3) c.nontrivial();
        c.label("xml");
        if (encoding != "UTF-8") c.label("other encoding");
        if (document.size() > 4096) c.label("document of several blocks");
        std::istringstream in(document);
        if (encoding == "UTF-8" && s.chance(50)) {
            XmlStreamReader r(in);
            read(r, root, {});
        } else {
            XmlStreamReader r(in, encoding);
            read(r, root, {});
        }
    }
};

// ---------------------------------------------------------------- dates
struct Date {
    long us = 0;  // since 1970 in UTC
    std::string canonical, input;
};
long days(long y, long m, long d) {
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
std::string two(long v, int width = 2) {
    std::string r = std::to_string(v);
    while (static_cast<int>(r.size()) < width) r = "0" + r;
    return r;
}
Date date(pbt::Src& s) {
    Date r;
    const long y = s.chance(60) ? s.range(1960, 2040) : s.chance(20) ? s.pickOf({1401L, 9998L, 1900L, 2000L, 1600L, 1969L, 1970L}) : s.range(1401, 9998);
    const long m = s.range(1, 12);
    const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    const long length = m == 2 ? (leap ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
    const long d = s.chance(20) ? length : s.range(1, length);
    const long h = s.chance(20) ? s.pickOf({0L, 23L}) : s.range(0, 23), mi = s.chance(20) ? 59 : s.range(0, 59), sec = s.chance(20) ? 59 : s.range(0, 59);
    const int digits = static_cast<int>(s.weighted({40, 5, 5, 25, 5, 5, 15}));
    long scale = 1;
    for (int k = 0; k < digits; ++k) scale *= 10;
    const long fraction = digits == 0 ? 0 : s.chance(15) ? 0 : static_cast<long>(s.draw(static_cast<uint64_t>(scale)));
    const long us = fraction * (1000000 / scale);
    const bool z = s.chance(15);
    const long offset = z ? 0 : s.chance(50) ? 60 * s.range(-12, 14) : s.pickOf({330L, 345L, -210L, -570L, 765L, -30L, 30L, 1L, -1L, -59L, 0L});
    const std::string local = two(y, 4) + "-" + two(m) + "-" + two(d) + "T" + two(h) + ":" + two(mi) + ":" + two(sec);
    const long o = std::labs(offset);
    const std::string zone = std::string(offset < 0 ? "-" : "+") + two(o / 60) + ":" + two(o % 60);
    r.canonical = local + (us != 0 ? "." + two(us, 6) : "") + zone;
    r.input = local + (digits != 0 ? "." + two(fraction, digits) : "") + (z ? "Z" : offset == 0 && s.chance(30) ? "-00:00" : zone);
    r.us = (((days(y, m, d) * 24 + h) * 60 + mi - offset) * 60 + sec) * 1000000 + us;
    return r;
}

void dates(Case& c) {
    c.label("date");
    c.nontrivial();
    const Date a = date(c.s);
    c.note("date " + a.input);
    const auto x = stdcxx::DateTime::parse(a.input);
    c.checkEq(x.toString(), a.canonical, "date", "text of " + a.input);
    std::ostringstream o;
    o << x;
    c.checkEq(o.str(), a.canonical, "date", "streamed " + a.input);
    c.checkEq(stdcxx::DateTime::parse(x.toString()).toString(), a.canonical, "date", "text of the text of " + a.input);
    Date b = date(c.s);
    if (c.s.chance(40)) {
        // the same instant, or nearly, in another time zone
        const long shift = c.s.chance(60) ? 0 : c.s.pickOf({1L, -1L, 60000000L, 3600000000L, 1000000L});
        const long zone = 15 * c.s.range(-48, 56);
        const long t = a.us + shift + zone * 60000000L;
        const long seconds = t >= 0 ? t / 1000000 : -((-t + 999999) / 1000000);
        const long us = t - seconds * 1000000;
        long day = seconds >= 0 ? seconds / 86400 : -((-seconds + 86399) / 86400);
        const long rest = seconds - day * 86400;
        day += 719468;
        const long era = (day >= 0 ? day : day - 146096) / 146097, doe = day - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        const long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, mm = mp + (mp < 10 ? 3 : -9), yy = yoe + era * 400 + (mm <= 2 ? 1 : 0);
        const long z = std::labs(zone);
        b.input = two(yy, 4) + "-" + two(mm) + "-" + two(dd) + "T" + two(rest / 3600) + ":" + two(rest / 60 % 60) + ":" + two(rest % 60) + "." + two(us, 6) + (zone < 0 ? "-" : "+") + two(z / 60) + ":" + two(z % 60);
        b.us = a.us + shift;
        if (shift == 0) c.label("same instant in another zone");
    }
    const auto y = stdcxx::DateTime::parse(b.input);
    c.note("and " + b.input);
    c.checkEq(x == y, a.us == b.us, "date-equality", a.input + " == " + b.input);
    c.checkEq(x != y, a.us != b.us, "date-equality", a.input + " != " + b.input);
    const auto now = stdcxx::DateTime();
    c.check(stdcxx::DateTime::parse(now.toString()) == now, "date", "the current date " + now.toString());
    // not dates
    static const std::vector<std::string> BAD{"", "x", "INVALID", "2013-02-29T00:00:00Z", "2013-13-01T00:00:00Z", "2013-00-15T18:45:00Z", "2013-01-32T18:45:00Z", "2013-04-31T00:00:00+01:00", "0000-01-15T18:45:00Z", "T18:45:00+01:00", "January 15 2013", "aaaa-bb-ccTdd:ee:ffZ"};
    std::string bad = c.s.chance(50) ? c.s.pick(BAD) : a.canonical + c.s.pickOf<std::string>({"x", "abc", ":00x", "+01:00x"});
    bool ok = true;
    try { (void) stdcxx::DateTime::parse(bad); }
    catch (const powsybl::PowsyblException&) { ok = false; }
    c.check(!ok, "malformed-accepted", "'" + bad + "' is parsed as a date");
}

// ---------------------------------------------------------------- enumerations
template <typename E> void enumeration(Case& c, const std::string& what, const std::vector<std::pair<std::string, E>>& all) {
    const auto& x = c.s.pick(all);
    c.note(what + " " + x.first);
    c.checkEq(Enum::toString(x.second), x.first, "enum", "text of " + what + "::" + x.first);
    c.check(Enum::fromString<E>(x.first) == x.second, "enum", what + " from " + x.first);
    std::ostringstream o;
    o << x.second;
    c.checkEq(o.str(), x.first, "enum", what + "::" + x.first + " written to a stream");
    const auto& names = Enum::getNames<E>();
    c.check(names.size() >= all.size(), "enum", what + ": number of names");
    c.check(std::set<std::string>(names.begin(), names.end()).size() == names.size(), "enum", what + ": duplicate names");
    std::string bad = c.s.chance(50) ? text(c.s, 3) : x.first + c.s.pickOf<std::string>({" ", "x", "_", "\n"});
    if (c.s.chance(20)) { bad = x.first; std::transform(bad.begin(), bad.end(), bad.begin(), [](unsigned char k) { return std::tolower(k); }); }
    if (std::find(names.begin(), names.end(), bad) == names.end()) {
        bool ok = true;
        try { (void) Enum::fromString<E>(bad); }
        catch (const std::exception&) { ok = false; }
        c.check(!ok, "malformed-accepted", pbt::quote(bad) + " is accepted as a " + what);
    }
    bool ok = true;
    try { (void) Enum::toString(static_cast<E>(names.size() + c.s.draw(3))); }
    catch (const std::exception&) { ok = false; }
    c.check(!ok, "malformed-accepted", what + ": the text of a value out of range");
}

#define V(T, x) {#x, T::x}
#define CC(x) {#x, Country::x}
#define GC(x) {#x, extensions::entsoe::EntsoeGeographicalCode::x}

void enums(Case& c) {
    c.label("enumeration");
    c.nontrivial();
    using EO = powsybl::iidm::converter::ExportOptions::IidmVersionIncompatibilityBehavior;
    using PM = PhaseTapChanger::RegulationMode;
    using SM = StaticVarCompensator::RegulationMode;
    using MT = extensions::iidm::Measurement::Type;
    using MS = extensions::iidm::Measurement::Side;
    using DT = extensions::iidm::DiscreteMeasurement::Type;
    using DC = extensions::iidm::DiscreteMeasurement::TapChanger;
    using DV = extensions::iidm::DiscreteMeasurement::ValueType;
    using CD = extensions::sld::ConnectablePosition::Direction;
    using BS = extensions::sld::BranchStatus::Status;
    switch (c.s.draw(26)) {
        case 0: enumeration<EO>(c, "IidmVersionIncompatibilityBehavior", {V(EO, THROW_EXCEPTION), V(EO, LOG_ERROR)}); break;
        case 1: enumeration<ShuntCompensatorModelType>(c, "ShuntCompensatorModelType", {V(ShuntCompensatorModelType, LINEAR), V(ShuntCompensatorModelType, NON_LINEAR)}); break;
        case 2: enumeration<HvdcConverterStation::HvdcType>(c, "HvdcType", {V(HvdcConverterStation::HvdcType, VSC), V(HvdcConverterStation::HvdcType, LCC)}); break;
        case 3: enumeration<TopologyKind>(c, "TopologyKind", {V(TopologyKind, NODE_BREAKER), V(TopologyKind, BUS_BREAKER)}); break;
        case 4: enumeration<PM>(c, "phase regulation mode", {V(PM, CURRENT_LIMITER), V(PM, ACTIVE_POWER_CONTROL), V(PM, FIXED_TAP)}); break;
        case 5: enumeration<TopologyLevel>(c, "TopologyLevel", {V(TopologyLevel, NODE_BREAKER), V(TopologyLevel, BUS_BREAKER), V(TopologyLevel, BUS_BRANCH)}); break;
        case 6: enumeration<SwitchKind>(c, "SwitchKind", {V(SwitchKind, BREAKER), V(SwitchKind, DISCONNECTOR), V(SwitchKind, LOAD_BREAK_SWITCH)}); break;
        case 7: enumeration<LoadType>(c, "LoadType", {V(LoadType, UNDEFINED), V(LoadType, AUXILIARY), V(LoadType, FICTITIOUS)}); break;
        case 8: enumeration<LimitType>(c, "LimitType", {V(LimitType, ACTIVE_POWER), V(LimitType, APPARENT_POWER), V(LimitType, CURRENT), V(LimitType, VOLTAGE)}); break;
        case 9: enumeration<SM>(c, "static var regulation mode", {V(SM, VOLTAGE), V(SM, REACTIVE_POWER), V(SM, OFF)}); break;
        case 10: {
            using T = ConnectableType;
            enumeration<T>(c, "ConnectableType", {V(T, BUSBAR_SECTION), V(T, LINE), V(T, TWO_WINDINGS_TRANSFORMER), V(T, THREE_WINDINGS_TRANSFORMER), V(T, GENERATOR), V(T, BATTERY), V(T, LOAD), V(T, SHUNT_COMPENSATOR), V(T, DANGLING_LINE), V(T, STATIC_VAR_COMPENSATOR), V(T, HVDC_CONVERTER_STATION)});
            break;
        }
        case 11: enumeration<ThreeWindingsTransformer::Side>(c, "three windings side", {V(ThreeWindingsTransformer::Side, ONE), V(ThreeWindingsTransformer::Side, TWO), V(ThreeWindingsTransformer::Side, THREE)}); break;
        case 12: enumeration<HvdcLine::ConvertersMode>(c, "ConvertersMode", {V(HvdcLine::ConvertersMode, SIDE_1_RECTIFIER_SIDE_2_INVERTER), V(HvdcLine::ConvertersMode, SIDE_1_INVERTER_SIDE_2_RECTIFIER)}); break;
        case 13: enumeration<EnergySource>(c, "EnergySource", {V(EnergySource, HYDRO), V(EnergySource, NUCLEAR), V(EnergySource, WIND), V(EnergySource, THERMAL), V(EnergySource, SOLAR), V(EnergySource, OTHER)}); break;
        case 14: enumeration<Branch::Side>(c, "branch side", {V(Branch::Side, ONE), V(Branch::Side, TWO)}); break;
        case 15: enumeration<CD>(c, "position direction", {V(CD, TOP), V(CD, BOTTOM), V(CD, UNDEFINED)}); break;
        case 16: enumeration<BS>(c, "branch status", {V(BS, IN_OPERATION), V(BS, PLANNED_OUTAGE), V(BS, FORCED_OUTAGE)}); break;
        case 17: enumeration<MS>(c, "measurement side", {V(MS, ONE), V(MS, TWO), V(MS, THREE)}); break;
        case 18: enumeration<MT>(c, "measurement type", {V(MT, ANGLE), V(MT, ACTIVE_POWER), V(MT, APPARENT_POWER), V(MT, REACTIVE_POWER), V(MT, CURRENT), V(MT, VOLTAGE), V(MT, FREQUENCY), V(MT, OTHER)}); break;
        case 19: enumeration<DT>(c, "discrete measurement type", {V(DT, TAP_POSITION), V(DT, SWITCH_POSITION), V(DT, SHUNT_COMPENSATOR_SECTION), V(DT, OTHER)}); break;
        case 20: enumeration<DC>(c, "measured tap changer", {V(DC, RATIO_TAP_CHANGER), V(DC, PHASE_TAP_CHANGER), V(DC, RATIO_TAP_CHANGER_1), V(DC, PHASE_TAP_CHANGER_1), V(DC, RATIO_TAP_CHANGER_2), V(DC, PHASE_TAP_CHANGER_2), V(DC, RATIO_TAP_CHANGER_3), V(DC, PHASE_TAP_CHANGER_3)}); break;
        case 21: enumeration<DV>(c, "discrete value type", {V(DV, BOOLEAN), V(DV, INT), V(DV, STRING)}); break;
        case 22: case 23:
            enumeration<extensions::entsoe::EntsoeGeographicalCode>(c, "geographical code", {GC(AL), GC(AT), GC(BA), GC(BE), GC(BG), GC(BY), GC(CH), GC(CZ), GC(DE), GC(D1), GC(D2), GC(D4), GC(D7), GC(D8), GC(DK), GC(ES), GC(FR), GC(GB), GC(GR), GC(HR), GC(HU), GC(IT), GC(KS), GC(LU), GC(LT), GC(MA), GC(MD), GC(ME), GC(MK), GC(NL), GC(NO), GC(PL), GC(PT), GC(RO), GC(RS), GC(RU), GC(SE), GC(SK), GC(SI), GC(TR), GC(UA), GC(UC), GC(UX)});
            break;
        default:
            enumeration<Country>(c, "country", {CC(AF), CC(AX), CC(AL), CC(DZ), CC(AS), CC(AD), CC(AO), CC(AI), CC(AQ), CC(AG), CC(AR), CC(AM), CC(AW), CC(AU), CC(AT), CC(AZ), CC(BS), CC(BH), CC(BD), CC(BB), CC(BY), CC(BE), CC(BZ), CC(BJ), CC(BM), CC(BT), CC(BO), CC(BQ), CC(BA), CC(BW), CC(BV), CC(BR), CC(IO), CC(BN), CC(BG), CC(BF), CC(BI), CC(KH), CC(CM), CC(CA), CC(CV), CC(KY), CC(CF), CC(TD), CC(CL), CC(CN), CC(CX), CC(CC), CC(CO), CC(KM), CC(CG), CC(CD), CC(CK), CC(CR), CC(CI), CC(HR), CC(CU), CC(CW), CC(CY), CC(CZ), CC(DK), CC(DJ), CC(DM), CC(DO), CC(EC), CC(EG), CC(SV), CC(GQ), CC(ER), CC(EE), CC(ET), CC(FK), CC(FO), CC(FJ), CC(FI), CC(FR), CC(GF), CC(PF), CC(TF), CC(GA), CC(GM), CC(GE), CC(DE), CC(GH), CC(GI), CC(GR), CC(GL), CC(GD), CC(GP), CC(GU), CC(GT), CC(GG), CC(GN), CC(GW), CC(GY), CC(HT), CC(HM), CC(VA), CC(HN), CC(HK), CC(HU), CC(IS), CC(IN), CC(ID), CC(IR), CC(IQ), CC(IE), CC(IM), CC(IL), CC(IT), CC(JM), CC(JP), CC(JE), CC(JO), CC(KZ), CC(KE), CC(KI), CC(KP), CC(KR), CC(XK), CC(KW), CC(KG), CC(LA), CC(LV), CC(LB), CC(LS), CC(LR), CC(LY), CC(LI), CC(LT), CC(LU), CC(MO), CC(MK), CC(MG), CC(MW), CC(MY), CC(MV), CC(ML), CC(MT), CC(MH), CC(MQ), CC(MR), CC(MU), CC(YT), CC(MX), CC(FM), CC(MD), CC(MC), CC(MN), CC(ME), CC(MS), CC(MA), CC(MZ), CC(MM), CC(NA), CC(NR), CC(NP), CC(NL), CC(NC), CC(NZ), CC(NI), CC(NE), CC(NG), CC(NU), CC(NF), CC(MP), CC(NO), CC(OM), CC(PK), CC(PW), CC(PS), CC(PA), CC(PG), CC(PY), CC(PE), CC(PH), CC(PN), CC(PL), CC(PT), CC(PR), CC(QA), CC(RE), CC(RO), CC(RU), CC(RW), CC(BL), CC(SH), CC(KN), CC(LC), CC(MF), CC(PM), CC(VC), CC(WS), CC(SM), CC(ST), CC(SA), CC(SN), CC(RS), CC(SC), CC(SL), CC(SG), CC(SX), CC(SK), CC(SI), CC(SB), CC(SO), CC(ZA), CC(GS), CC(SS), CC(ES), CC(LK), CC(SD), CC(SR), CC(SJ), CC(SZ), CC(SE), CC(CH), CC(SY), CC(TW), CC(TJ), CC(TZ), CC(TH), CC(TL), CC(TG), CC(TK), CC(TO), CC(TT), CC(TN), CC(TR), CC(TM), CC(TC), CC(TV), CC(UG), CC(UA), CC(AE), CC(GB), CC(US), CC(UM), CC(UY), CC(UZ), CC(VU), CC(VE), CC(VN), CC(VG), CC(VI), CC(WF), CC(EH), CC(YE), CC(ZM), CC(ZW)});
            break;
    }
}

// ---------------------------------------------------------------- option maps
bool iequals(std::string a, const char* b) {
    for (auto& k : a) k = static_cast<char>(std::tolower(static_cast<unsigned char>(k)));
    return a == b;
}

void options(Case& c) {
    using EO = powsybl::iidm::converter::ExportOptions;
    using IO = powsybl::iidm::converter::ImportOptions;
    using powsybl::iidm::converter::xml::IidmXmlVersion;
    pbt::Src& s = c.s;
    c.label("options");
    c.nontrivial();
    stdcxx::Properties p;
    std::map<std::string, std::string> m;
    const std::vector<std::string> keys{EO::ANONYMISED, EO::EXTENSIONS_LIST, EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, EO::INDENT, EO::ONLY_MAIN_CC, EO::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "throwExceptionIfExtensionNotFound", EO::TOPOLOGY_LEVEL, EO::VERSION, EO::WITH_BRANCH_STATE_VARIABLES, IO::EXTENSIONS_LIST, IO::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "other"};
    while (s.more(8)) {
        const std::string& k = s.pick(keys);
        if (s.chance(15)) {
            c.note("remove " + k);
            p.remove(k);
            m.erase(k);
            continue;
        }
        std::string v;
        if (k == EO::EXTENSIONS_LIST || k == IO::EXTENSIONS_LIST) {
            v = s.pickOf<std::string>({"e1", "e2", "e1,e2", "e2:e3", "e1,e2:e3", "e3,e3", "activePowerControl,e1"});
        } else if (k == EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR) v = s.pickOf<std::string>({"THROW_EXCEPTION", "LOG_ERROR", "LOG", "throw_exception"});
        else if (k == EO::TOPOLOGY_LEVEL) v = s.pickOf<std::string>({"NODE_BREAKER", "BUS_BREAKER", "BUS_BRANCH", "BUS", ""});
        else if (k == EO::VERSION) v = s.pickOf<std::string>({"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"});
        else if (k == "other") v = text(s);
        else v = s.pickOf<std::string>({"true", "false", "TRUE", "True", "FALSE", "1", "yes", ""});
        c.note("set " + k + " = " + pbt::quote(v));
        const auto old = p.set(k, v);
        c.check(static_cast<bool>(old) == (m.count(k) != 0) && (!old || *old == m[k]), "properties", "previous value of " + k);
        m[k] = v;
    }
    c.checkEq(p.size(), static_cast<unsigned long>(m.size()), "properties", "size");
    c.checkEq(p.isEmpty(), m.empty(), "properties", "isEmpty");
    std::set<std::string> got;
    for (const auto& k : p.getKeys()) got.insert(k);
    for (const auto& k : keys) {
        c.checkEq(p.contains(k), m.count(k) != 0, "properties", "contains " + k);
        c.checkEq(got.count(k) != 0, m.count(k) != 0, "properties", "key " + k);
        c.check(p.get(k, "?") == (m.count(k) != 0 ? m[k] : "?"), "properties", "value of " + k);
        if (m.count(k) != 0) c.check(p.get(k) == m[k], "properties", "value of " + k);
        else {
            bool ok = true;
            try { (void) p.get(k); }
            catch (const stdcxx::PropertyNotFoundException&) { ok = false; }
            c.check(!ok, "properties", "value of the absent " + k);
        }
    }
    std::map<std::string, std::string> iterated;
    for (const auto& x : p) iterated.insert(x);
    c.check(iterated == m, "properties", "iteration");
    const auto flag = [&](std::initializer_list<std::string> names, bool byDefault) {
        for (const auto& k : names) {
            if (m.count(k) != 0) return iequals(m[k], "true");
        }
        return byDefault;
    };
    const auto list = [&](const std::string& k) {
        std::set<std::string> r;
        std::string item;
        if (m.count(k) == 0) return r;
        for (char x : m[k] + ",") {
            if (x == ',' || x == ':') { r.insert(item); item.clear(); }
            else item += x;
        }
        return r;
    };
    const auto check = [&](const std::string& what, bool actual, bool expected) { c.checkEq(actual, expected, "options", what); };
    const IO in(p);
    check("import: throw", in.isThrowExceptionIfExtensionNotFound(), flag({IO::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "throwExceptionIfExtensionNotFound"}, false));
    const auto wanted = list(IO::EXTENSIONS_LIST);
    for (const std::string e : {"e1", "e2", "e3", "e4", "activePowerControl"}) check("import: with extension " + e, in.withExtension(e), wanted.empty() || wanted.count(e) != 0);
    const bool badLevel = m.count(EO::TOPOLOGY_LEVEL) != 0 && (m[EO::TOPOLOGY_LEVEL] == "BUS" || m[EO::TOPOLOGY_LEVEL].empty());
    const bool badBehaviour = m.count(EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR) != 0 && m[EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR] != "LOG_ERROR" && m[EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR] != "THROW_EXCEPTION";
    bool ok = true;
    try {
        const EO out(p);
        check("export: anonymized", out.isAnonymized(), flag({EO::ANONYMISED}, false));
        check("export: indent", out.isIndent(), flag({EO::INDENT}, true));
        check("export: only main component", out.isOnlyMainCc(), flag({EO::ONLY_MAIN_CC}, false));
        check("export: throw", out.isThrowExceptionIfExtensionNotFound(), flag({EO::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, "throwExceptionIfExtensionNotFound"}, false));
        check("export: branch values", out.isWithBranchSV(), flag({EO::WITH_BRANCH_STATE_VARIABLES}, true));
        c.checkEq(Enum::toString(out.getTopologyLevel()), p.get(EO::TOPOLOGY_LEVEL, "NODE_BREAKER"), "options", "export: topology level");
        c.checkEq(Enum::toString(out.getIidmVersionIncompatibilityBehavior()), p.get(EO::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, "THROW_EXCEPTION"), "options", "export: behaviour");
        const auto exported = list(EO::EXTENSIONS_LIST);
        for (const std::string e : {"e1", "e2", "e3", "e4", "activePowerControl"}) check("export: with extension " + e, out.withExtension(e), exported.empty() || exported.count(e) != 0);
        c.checkEq(IidmXmlVersion::of(out.getVersion(), ".").toString("."), p.get(EO::VERSION, "1.5"), "options", "export: version");
    }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { ok = false; c.note(e.what()); }
    c.check(ok == !(badLevel || badBehaviour), ok ? "malformed-accepted" : "options-refused", "export options");
    if (!ok) c.label("options refused");
    // schema versions
    const long minor = s.range(0, 5);
    const std::string version = "1." + std::to_string(minor), uri = std::string(minor == 0 ? "http://www.itesla_project.eu" : "http://www.powsybl.org") + "/schema/iidm/1_" + std::to_string(minor);
    const auto& v = IidmXmlVersion::of(version, ".");
    c.checkEq(v.toString("."), version, "version", "text");
    c.checkEq(v.getNamespaceUri(), uri, "version", "namespace of " + version);
    c.check(&IidmXmlVersion::fromNamespaceURI(uri) == &v, "version", "version of " + uri);
    const long other = s.range(0, 5);
    const auto& w = IidmXmlVersion::of("1." + std::to_string(other), ".");
    c.checkEq(v < w, minor < other, "version", "order");
    c.checkEq(v <= w, minor <= other, "version", "order");
    c.checkEq(v > w, minor > other, "version", "order");
    c.checkEq(v >= w, minor >= other, "version", "order");
    const std::string bad = s.pickOf<std::string>({"1.6", "", "1", "1.5.0", "2.0", "01.5", "1_5", "x"});
    bool accepted = true;
    try { (void) IidmXmlVersion::of(bad, "."); }
    catch (const powsybl::PowsyblException&) { accepted = false; }
    c.check(!accepted, "malformed-accepted", "version '" + bad + "'");
    const std::string badUri = s.pickOf<std::string>({"", "1_5", uri + "/", uri + "x", "http://www.other.org/schema/iidm/1_" + std::to_string(minor), "http://www.powsybl.org/schema/iidm/1_0", "http://www.powsybl.org/schema/iidm/1_9"});
    accepted = true;
    try { (void) IidmXmlVersion::fromNamespaceURI(badUri); }
    catch (const powsybl::PowsyblException&) { accepted = false; }
    c.check(!accepted, "malformed-accepted", "namespace '" + badUri + "'");
}

// ---------------------------------------------------------------- anonymizer
void anonymizer(Case& c) {
    using powsybl::iidm::converter::SimpleAnonymizer;
    pbt::Src& s = c.s;
    c.label("anonymizer");
    SimpleAnonymizer a;
    std::map<std::string, std::string> codes;  // original -> code
    std::map<std::string, std::string> originals;
    std::vector<std::string> seen;
    const bool lineBreaks = s.chance(8);
    bool broken = false;
    const unsigned steps = s.chance(4) ? 720 + static_cast<unsigned>(s.draw(60)) : 3 + static_cast<unsigned>(s.draw(30));
    const bool many = steps > 100;
    if (many) c.label("more than 702 strings");
    for (unsigned k = 0; k < steps; ++k) {
        switch (many ? (s.chance(97) ? 0 : s.weighted({2, 3, 3, 1})) : s.weighted({60, 15, 15, 10})) {
            case 0: {
                std::string x = !seen.empty() && s.chance(15) ? s.pick(seen) : many ? "ID" + std::to_string(k) : s.chance(20) ? s.pickOf<std::string>({"A", "B", "C", "AA", "Z", "a;b", ";", ";;A", "x;A", "A;B", "a b", "\"", "'", ",", "\t", " "}) : text(s, 4);
                if (!lineBreaks) x.erase(std::remove_if(x.begin(), x.end(), [](char y) { return y == '\n'; }), x.end());
                if (x.find('\n') != std::string::npos) broken = true;
                const std::string code = a.anonymizeString(x);
                if (!many) c.note("anonymize " + pbt::quote(x) + " -> " + code);
                if (x.empty()) {
                    c.check(code.empty(), "anonymizer-empty", "the empty string becomes " + code);
                } else if (codes.count(x) != 0) {
                    c.checkEq(code, codes[x], "anonymizer-stable", "code of " + pbt::quote(x));
                    c.label("known string");
                } else {
                    c.check(!code.empty(), "anonymizer-distinct", "empty code for " + pbt::quote(x));
                    c.check(originals.count(code) == 0, "anonymizer-distinct", "code " + code + " of " + pbt::quote(x) + " is the code of " + pbt::quote(originals.count(code) != 0 ? originals[code] : ""));
                    codes[x] = code;
                    originals[code] = x;
                    seen.push_back(x);
                }
                if (!x.empty()) c.check(a.deanonymizeString(code) == x, "anonymizer-inverse", pbt::quote(x) + " -> " + code + " -> " + pbt::quote(a.deanonymizeString(code)));
                break;
            }
            case 1: {
                if (!seen.empty() && s.chance(80)) {
                    const auto& x = s.pick(seen);
                    c.check(a.deanonymizeString(codes[x]) == x, "anonymizer-inverse", codes[x] + " is not " + pbt::quote(x));
                } else {
                    const std::string x = s.pickOf<std::string>({"FAKE", "a", "ZZZZ", "1", " ", "AAAAA"});
                    bool ok = true;
                    try { (void) a.deanonymizeString(x); }
                    catch (const powsybl::PowsyblException&) { ok = false; }
                    c.check(ok == (originals.count(x) != 0), "malformed-accepted", "unknown code " + x);
                }
                c.checkEq(a.deanonymizeString(""), std::string(), "anonymizer-empty", "empty code");
                break;
            }
            case 2: {
                std::stringstream file;
                a.write(file);
                c.note("save and load " + pbt::quote(file.str().substr(0, 500)));
                c.label("saved and loaded");
                if (!codes.empty()) c.nontrivial();
                SimpleAnonymizer b;
                const std::string tag = broken ? "-line-break" : "";
                try {
                    b.read(file);
                } catch (const powsybl::PowsyblException& e) {
                    c.fail("anonymizer-load" + tag, std::string("a saved table is refused: ") + e.what());
                }
                c.checkEq(b.getStringCount(), static_cast<unsigned long>(codes.size()), "anonymizer-load" + tag, "number of strings");
                for (const auto& x : codes) {
                    std::string back;
                    try { back = b.deanonymizeString(x.second); }
                    catch (const powsybl::PowsyblException& e) { c.fail("anonymizer-load" + tag, e.what()); }
                    c.check(back == x.first, "anonymizer-load" + tag, pbt::quote(x.first) + " after loading");
                    c.check(b.anonymizeString(x.first) == x.second, "anonymizer-load" + tag, "code of " + pbt::quote(x.first) + " after loading");
                }
                // the history goes on with the loaded one
                if (s.chance(60)) a = std::move(b);
                break;
            }
            default: {
                std::stringstream file(s.pickOf<std::string>({"a\n", "a;A\nb\n", "abc", "\n", "a,A\n"}));
                SimpleAnonymizer b;
                bool ok = true;
                try { b.read(file); }
                catch (const powsybl::PowsyblException&) { ok = false; }
                c.check(!ok, "malformed-accepted", "table " + pbt::quote(file.str()));
                break;
            }
        }
        c.checkEq(a.getStringCount(), static_cast<unsigned long>(codes.size()), "anonymizer-count", "number of strings");
    }
    for (const auto country : {Country::FR, Country::BE, Country::ZW}) {
        c.check(a.deanonymizeCountry(a.anonymizeCountry(country)) == country, "anonymizer-country", "country");
    }
    powsybl::iidm::converter::FakeAnonymizer fake;
    const std::string x = text(s, 4);
    c.check(fake.anonymizeString(x) == x && fake.deanonymizeString(x) == x, "anonymizer-fake", pbt::quote(x));
}

// ---------------------------------------------------------------- texts, maps and lists
template <typename T> std::string joined(const T& v, const std::string& open, const std::string& close) {
    std::ostringstream o;
    o << open;
    bool first = true;
    for (const auto& x : v) { o << (first ? "" : ", ") << x; first = false; }
    o << close;
    return o.str();
}

void utilities(Case& c) {
    auto& s = c.s;
    c.label("texts, maps and lists");
    switch (s.draw(6)) {
        case 0: {  // messages
            const std::string a = text(s, 3), b = text(s, 3);
            const long i = s.range(-1000, 1000);
            c.checkEq(stdcxx::format("%1%", a), a, "format", "one argument");
            c.checkEq(stdcxx::format("<%2%|%1%|%3%|%1%>", a, b, i), "<" + b + "|" + a + "|" + std::to_string(i) + "|" + a + ">", "format", "three arguments");
            c.nontrivial(!a.empty() && a != b);
            break;
        }
        case 1: {  // lists
            std::vector<std::string> v;
            while (s.more(4)) v.push_back(text(s, 2));
            const std::set<std::string> u(v.begin(), v.end());
            c.checkEq(stdcxx::toString(v), joined(v, "{", "}"), "list-text", "vector");
            c.checkEq(stdcxx::toString(u), joined(u, "{", "}"), "list-text", "set");
            std::vector<std::string> copy = v;
            c.check(stdcxx::toSet(std::move(copy)) == u, "list-set");
            const std::initializer_list<long> l = {1, -2, 3};
            c.checkEq(stdcxx::toString(l), std::string("[1, -2, 3]"), "list-text", "initializer list");
            c.nontrivial(v.size() > 1);
            break;
        }
        case 2: {  // a list of lists, some of them empty
            std::vector<std::vector<int>> v;
            std::vector<int> all;
            while (s.more(6)) {
                v.emplace_back();
                while (s.more(1)) { v.back().push_back(static_cast<int>(all.size())); all.push_back(static_cast<int>(all.size())); }
            }
            std::vector<int> seen, again;
            auto r = v | stdcxx::flattened;
            for (int x : r) seen.push_back(x);
            for (int x : r) again.push_back(x);
            c.check(seen == all, "flattened", stdcxx::toString(seen) + " instead of " + stdcxx::toString(all));
            c.check(again == all, "flattened", "gone through again");
            c.nontrivial(v.size() > 2 && !all.empty());
            break;
        }
        case 3: {  // properties, as a map
            stdcxx::Properties p;
            std::map<std::string, std::string> m;
            const unsigned steps = 1 + static_cast<unsigned>(s.draw(15));
            for (unsigned k = 0; k < steps; ++k) {
                const std::string key = s.chance(80) ? std::string(1, static_cast<char>('a' + s.draw(4))) : text(s, 1), value = text(s, 2);
                switch (s.weighted({6, 3, 1, 2})) {
                    case 0: {
                        const auto old = p.set(key, value);
                        c.checkEq(static_cast<bool>(old), m.count(key) == 1, "properties", "previous value of " + key);
                        if (old) c.checkEq(*old, m[key], "properties", "previous value of " + key);
                        m[key] = value;
                        break;
                    }
                    case 1: p.remove(key); m.erase(key); break;
                    case 2: if (s.chance(30)) { p.clear(); m.clear(); } break;
                    default: { stdcxx::Properties q(p); stdcxx::Properties r(std::move(q)); p.clear(); p = r; break; }
                }
                c.checkEq(p.size(), static_cast<unsigned long>(m.size()), "properties", "size");
                c.checkEq(p.isEmpty(), m.empty(), "properties", "empty");
                c.checkEq(p.contains(key), m.count(key) == 1, "properties", "contains");
                c.checkEq(p.get(key, "none"), m.count(key) ? m[key] : std::string("none"), "properties", "value or default");
                std::string got = "missing";
                try { got = p.get(key); } catch (const stdcxx::PropertyNotFoundException&) {}
                c.checkEq(got, m.count(key) ? m[key] : std::string("missing"), "properties", "value");
                std::map<std::string, std::string> seen;
                for (const auto& e : p) seen.insert(e);
                c.check(seen == m, "properties", "entries");
                c.check((std::map<std::string, std::string>(p.cbegin(), p.cend())) == m, "properties", "entries");
                const stdcxx::Properties& cp = p;
                c.check((std::map<std::string, std::string>(cp.begin(), cp.end())) == m, "properties", "entries");
                std::set<std::string> keys;
                for (const auto& x : p.getKeys()) keys.insert(x);
                c.checkEq(keys.size(), m.size(), "properties", "keys");
                for (const auto& x : m) c.check(keys.count(x.first) == 1, "properties", "key " + x.first);
            }
            c.nontrivial(steps > 3);
            break;
        }
        case 4: {  // an identifier that is not taken
            std::set<std::string> taken;
            const std::string base = s.chance(20) ? "" : s.chance(50) ? "id" : text(s, 2);
            const std::string stem = base.empty() ? "autoId" : base;
            const unsigned k = static_cast<unsigned>(s.draw(6));
            if (s.chance(80)) taken.insert(base);
            for (unsigned i = 0; i < k; ++i) if (s.chance(80)) taken.insert(stem + "#" + std::to_string(i));
            const std::string id = Identifiables::getUniqueId(base, [&taken](const std::string& x) { return taken.count(x) > 0; });
            c.check(taken.count(id) == 0 && !id.empty(), "unique-id", id + " is taken");
            std::string expected = base;
            if (base.empty() || taken.count(base)) {
                unsigned i = 0;
                while (taken.count(stem + "#" + std::to_string(i))) ++i;
                expected = stem + "#" + std::to_string(i);
            }
            c.checkEq(id, expected, "unique-id", "for " + pbt::quote(base));
            c.nontrivial(taken.size() > 1);
            break;
        }
        default: {  // numbers: a text of a number reads back as the same number; equality of possibly undefined numbers
            const double a = number(s), b = s.chance(50) ? a : number(s);
            if (std::isfinite(a)) c.check(std::strtod(stdcxx::to_string(a).c_str(), nullptr) == a, "number-text", stdcxx::to_string(a) + " for " + pbt::hex(a));
            c.checkEq(stdcxx::isEqual(a, b), (std::isnan(a) && std::isnan(b)) || a == b, "number-equality", pbt::hex(a) + " and " + pbt::hex(b));
            // names of types
            c.checkEq(stdcxx::simpleClassName<TwoWindingsTransformer>(), std::string("TwoWindingsTransformer"), "class-name");
            c.checkEq(stdcxx::demangle<TwoWindingsTransformer>(), std::string("powsybl::iidm::TwoWindingsTransformer"), "class-name");
            // references
            int x = 1, y = 2;
            stdcxx::Reference<int> r, q(x);
            c.check(!r && !static_cast<bool>(r) && q && static_cast<bool>(q), "reference");
            bool threw = false;
            try { (void) r.get(); } catch (const std::runtime_error&) { threw = true; }
            c.check(threw, "reference", "an empty one is used");
            r = q;
            c.check(r == q && &r.get() == &x && r == x && r != y && !(r != q), "reference");
            r.reset();
            c.check(!r && r != q, "reference");
            r = y;
            c.check(r == y && r != q && &static_cast<int&>(r) == &y, "reference");
            const stdcxx::Reference<int> kept = q;
            c.check(stdcxx::cref(kept).get() == 1 && !stdcxx::cref<int>() && !stdcxx::ref<int>(), "reference");
            c.nontrivial();
            break;
        }
    }
}

void run(Case& c) {
    switch (c.s.weighted({50, 15, 8, 10, 17, 12})) {
        case 5: utilities(c); break;
        case 0: Xml(c).run(); break;
        case 1: dates(c); break;
        case 2: enums(c); break;
        case 3: options(c); break;
        default: anonymizer(c); break;
    }
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config config;
    config.id = "C22";
    config.rule = "A case is one of: an XML tree (namespaces, typed and optional attributes, text of any Unicode characters that XML can hold, nested elements, several encodings) written and read back through the stream classes; two dates in any zone, printed, parsed and compared with own calendar arithmetic; one value of an enumeration against a table of names; a map of export/import options; a history of anonymize, deanonymize, save and load calls; the texts of lists and messages, properties against a map, lists of lists, unique identifiers, references. Non-trivial: a tree of more than 3 elements, any date, enumeration or option case, an anonymizer whose non-empty table is saved and loaded.";
    config.quick = 60000;
    config.thorough = 4000000;
    config.quickSeconds = 100;
    config.thoroughSeconds = 1500;
    config.requiredLabels = {"texts, maps and lists", "xml", "date", "enumeration", "options", "anonymizer", "saved and loaded", "more than 702 strings", "same instant in another zone", "malformed value refused", "undefined number", "subnormal number", "infinite number", "default value omitted", "other encoding", "document of several blocks", "known string", "options refused"};
    config.assumptions = {"dates between 1401 and 9998 with offsets from -12:00 to +14:00 and at most microseconds", "characters that XML 1.0 cannot hold are not written", "readUntilEndElement may drop a text made of white space only"};
    return pbt::runMain(argc, argv, config, run);
}
