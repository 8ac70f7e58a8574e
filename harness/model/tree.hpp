// A small XML tree whose texts are kept as they are written (C03, C25).
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <boost/filesystem.hpp>

namespace {

// ------------------------------------------------------------ a small tree, texts are kept as they are written
struct Node {
    std::string name;  // "" for a text
    std::string text;
    std::vector<std::pair<std::string, std::string>> attributes;
    std::vector<std::unique_ptr<Node>> children;
    std::unique_ptr<Node> clone() const {
        std::unique_ptr<Node> r(new Node);
        r->name = name;
        r->text = text;
        r->attributes = attributes;
        for (const auto& x : children) r->children.push_back(x->clone());
        return r;
    }
};

// only meant for the documents the library writes and for its own test documents; a null pointer is never returned
inline std::unique_ptr<Node> parse(const std::string& xml, bool keepBlanks = false) {
    std::unique_ptr<Node> root(new Node);
    root->name = "#";
    std::vector<Node*> open{root.get()};
    size_t i = 0;
    while (i < xml.size()) {
        if (xml[i] != '<') {
            const size_t j = std::min(xml.find('<', i), xml.size());
            const std::string t = xml.substr(i, j - i);
            if (keepBlanks || t.find_first_not_of(" \t\r\n") != std::string::npos) {
                std::unique_ptr<Node> x(new Node);
                x->text = t;
                open.back()->children.push_back(std::move(x));
            }
            i = j;
        } else if (xml.compare(i, 4, "<!--") == 0) {
            const size_t j = xml.find("-->", i);
            i = j == std::string::npos ? xml.size() : j + 3;
        } else if (xml[i + 1] == '?' || xml[i + 1] == '!') {
            i = std::min(xml.find('>', i), xml.size() - 1) + 1;
        } else if (xml[i + 1] == '/') {
            if (open.size() > 1) open.pop_back();
            i = std::min(xml.find('>', i), xml.size() - 1) + 1;
        } else {
            std::unique_ptr<Node> x(new Node);
            size_t j = xml.find_first_of(" \t\r\n/>", i);
            if (j == std::string::npos) break;
            x->name = xml.substr(i + 1, j - i - 1);
            bool empty = false;
            while (j < xml.size() && xml[j] != '>') {
                if (xml[j] == '/') { empty = true; ++j; continue; }
                if (std::isspace(static_cast<unsigned char>(xml[j])) != 0) { ++j; continue; }
                const size_t e = xml.find('=', j);
                if (e == std::string::npos) return root;
                const size_t q = xml.find_first_of("\"'", e);
                if (q == std::string::npos) return root;
                const size_t f = xml.find(xml[q], q + 1);
                if (f == std::string::npos) return root;
                std::string value = xml.substr(q + 1, f - q - 1);
                if (xml[q] == '\'') {
                    size_t at;
                    while ((at = value.find('"')) != std::string::npos) value.replace(at, 1, "&quot;");
                }
                x->attributes.emplace_back(xml.substr(j, xml.find_first_of(" \t\r\n=", j) - j), value);
                j = f + 1;
            }
            Node* raw = x.get();
            open.back()->children.push_back(std::move(x));
            if (!empty) open.push_back(raw);
            i = j + 1;
        }
    }
    return root;
}

inline void print(const Node& x, std::string& out) {
    if (x.name.empty()) { out += x.text; return; }
    if (x.name != "#") {
        out += "<" + x.name;
        for (const auto& a : x.attributes) out += " " + a.first + "=\"" + a.second + "\"";
        if (x.children.empty()) { out += "/>"; return; }
        out += ">";
    }
    for (const auto& y : x.children) print(*y, out);
    if (x.name != "#") out += "</" + x.name + ">";
}

inline std::string document(const Node& root) {
    std::string out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    print(root, out);
    return out;
}

// the test documents of the library, all versions of the schema
inline const std::vector<std::string>& resources() {
    static std::vector<std::string> all;
    static bool done = false;
    if (done) return all;
    done = true;
    const char* env = std::getenv("VERIF_REPO");
    const std::string repo = env != nullptr ? env : "/repo";
    std::vector<std::string> paths;
    for (const char* dir : {"/test/resources", "/extensions/iidm/resources", "/extensions/sld/resources", "/extensions/entsoe/resources"}) {
        boost::system::error_code ec;
        for (boost::filesystem::recursive_directory_iterator it(repo + dir, ec), end; !ec && it != end; it.increment(ec)) {
            const std::string e = it->path().extension().string();
            if (e == ".xml" || e == ".xiidm" || e == ".iidm") paths.push_back(it->path().string());
        }
    }
    std::sort(paths.begin(), paths.end());
    for (const auto& p : paths) {
        std::ifstream f(p, std::ios::binary);
        std::ostringstream o;
        o << f.rdbuf();
        if (o.str().size() < 40000) all.push_back(o.str());
    }
    return all;
}

}  // namespace
