#include "xml.hpp"

#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>

#include <fstream>
#include <unistd.h>

#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>

// the plugins of the three extension libraries, linked in
extern "C" {
extern const void* createSerializers_Sld;
extern const void* createSerializers_Iidm;
extern const void* createSerializers_Entsoe;
}

namespace model {

namespace {
std::vector<std::string>& names() {
    static std::vector<std::string> v;
    return v;
}

// an unwritable name: nothing may be found next to it
const char* const NAME = "/nonexistent/case.xiidm";
}  // namespace

void registerSerializers() {
    static bool done = false;
    if (done) return;
    done = true;
    using Serializer = iidm::converter::xml::ExtensionXmlSerializer;
    auto& providers = iidm::ExtensionProviders<Serializer>::getInstance();
    for (const void* p : {createSerializers_Sld, createSerializers_Iidm, createSerializers_Entsoe}) {
        auto create = reinterpret_cast<std::vector<std::unique_ptr<iidm::ExtensionProvider>> (*)()>(const_cast<void*>(p));
        for (auto& e : create()) {
            auto* x = dynamic_cast<Serializer*>(e.get());
            if (x == nullptr) continue;
            e.release();
            providers.registerExtension(std::unique_ptr<Serializer>(x));
        }
    }
    for (const auto& p : static_cast<const iidm::ExtensionProviders<Serializer>&>(providers).getProviders()) names().push_back(p.getExtensionName());
    std::sort(names().begin(), names().end());
}

const std::vector<std::string>& serializableExtensions() {
    registerSerializers();
    return names();
}

std::string toXml(const Network& n, const iidm::converter::ExportOptions& o) {
    registerSerializers();
    std::ostringstream out;
    Network::writeXml(NAME, out, n, o);
    return out.str();
}

Network fromXml(const std::string& xml, const iidm::converter::ImportOptions& o) {
    registerSerializers();
    std::istringstream in(xml);
    return Network::readXml(NAME, in, o);
}

namespace {
struct Scratch {
    boost::filesystem::path dir;
    Scratch() {
        std::string t = (boost::filesystem::temp_directory_path() / "verif-XXXXXX").string();
        if (mkdtemp(&t[0]) == nullptr) throw std::runtime_error("no scratch directory");
        dir = t;
    }
    ~Scratch() {
        boost::system::error_code ec;
        for (const char* f : {"case.xiidm", "case-mapping.csv", "case.xiidm.csv", "case.csv"}) boost::filesystem::remove(dir / f, ec);
        boost::filesystem::remove(dir, ec);
    }
};
}  // namespace

std::string toXmlAnonymized(const Network& n, const iidm::converter::ExportOptions& o, std::string& table) {
    registerSerializers();
    Scratch scratch;
    std::ostringstream out;
    Network::writeXml((scratch.dir / "case.xiidm").string(), out, n, o);
    table.clear();
    for (boost::filesystem::directory_iterator it(scratch.dir), end; it != end; ++it) {
        boost::filesystem::ifstream f(it->path());
        std::ostringstream t;
        t << f.rdbuf();
        table += t.str();
    }
    return out.str();
}

Network fromXmlAnonymized(const std::string& xml, const iidm::converter::ImportOptions& o, const std::string& table) {
    registerSerializers();
    Scratch scratch;
    // the library looks for the table next to the document
    { boost::filesystem::ofstream f(scratch.dir / "case.csv"); f << table; }
    std::istringstream in(xml);
    return Network::readXml((scratch.dir / "case.xiidm").string(), in, o);
}

static bool endsWith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

Dump xmlView(Dump d) {
    std::vector<std::pair<std::string, std::string>> gone;  // object, extension
    for (auto it = d.begin(); it != d.end();) {
        const std::string& k = it->first;
        if (k.find(".components") != std::string::npos || endsWith(k, ".cc") || endsWith(k, ".sc") || endsWith(k, ".main") ||
            k == "network.fictitious" || endsWith(k, ".ext[mergedXnode].line1") || endsWith(k, ".ext[mergedXnode].line2")) { it = d.erase(it); continue; }
        for (const char* e : {"measurements", "discreteMeasurements", "slackTerminal"}) {
            const bool slack = e[0] == 's';
            const std::string suffix = std::string(".ext[") + e + (slack ? "].terminal" : "].measurements");
            if (endsWith(k, suffix) && it->second.v == (slack ? "none" : "[]")) gone.emplace_back(k.substr(0, k.size() - suffix.size()), e);
        }
        ++it;
    }
    for (const auto& g : gone) {
        for (auto it = d.lower_bound(g.first + ".ext"); it != d.end() && it->first.compare(0, g.first.size() + 4, g.first + ".ext") == 0;) {
            const std::string rest = it->first.substr(g.first.size());
            if (rest.compare(0, 6 + g.second.size(), ".ext[" + g.second + "]") == 0 || rest == ".extByName[" + g.second + "]") { it = d.erase(it); continue; }
            if (rest == ".extensions") {
                std::string inside = it->second.v.substr(1, it->second.v.size() - 2), item, out;
                std::istringstream in(inside);
                while (std::getline(in, item, ',')) {
                    while (!item.empty() && item[0] == ' ') item.erase(0, 1);
                    if (item == g.second) continue;
                    out += (out.empty() ? "" : ",") + item;
                }
                it->second.v = "[" + out + "]";
            }
            ++it;
        }
    }
    for (auto& e : d) {
        if (e.second.v == "perm=nan") e.second.v = "none";  // limits without content
        size_t at = 0;
        while ((at = e.second.v.find("-0x0p+0", at)) != std::string::npos) e.second.v.erase(at, 1);
        if (endsWith(e.first, ".extensions")) {
            std::string& v = e.second.v;
            v.erase(std::remove(v.begin(), v.end(), ' '), v.end());
        }
    }
    return d;
}

std::string firstDifference(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i > 200 ? i - 200 : 0;
    return "at " + std::to_string(i) + ":\n" + a.substr(from, 400) + "\n-----\n" + b.substr(from, 400);
}

}  // namespace model
