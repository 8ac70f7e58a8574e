// C26: a log tells what happened and changes nothing else.
#include "../model/asker.hpp"

#include <chrono>
#include <cstdio>
#include <ctime>
#include <fstream>
#include <iostream>
#include <regex>
#include <sys/stat.h>
#include <unistd.h>

#include <powsybl/logging/ConsoleLogger.hpp>
#include <powsybl/logging/ContainerLogger.hpp>
#include <powsybl/logging/LogMessage.hpp>
#include <powsybl/logging/LoggerFactory.hpp>
#include <powsybl/logging/NoopLogger.hpp>

namespace {

using namespace powsybl::logging;

const std::vector<Level> LEVELS = {Level::TRACE, Level::DEBUG, Level::INFO, Level::WARN, Level::ERROR};
const char* const LEVEL_NAMES[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"};

struct Line {
    Level level;
    std::string text;
};

// keeps the messages outside of the logger, whatever its level
struct Keeper : Logger {
    Keeper(std::vector<Line>& to, unsigned enabled) : m_to(to), m_enabled(enabled) {}
    bool on(Level l) const { return (m_enabled >> static_cast<unsigned>(l)) & 1U; }
    bool isDebugEnabled() const override { return on(Level::DEBUG); }
    bool isErrorEnabled() const override { return on(Level::ERROR); }
    bool isInfoEnabled() const override { return on(Level::INFO); }
    bool isTraceEnabled() const override { return on(Level::TRACE); }
    bool isWarnEnabled() const override { return on(Level::WARN); }
    void log(const Level& level, const std::string& message) override { m_to.push_back({level, message}); }
    std::vector<Line>& m_to;
    unsigned m_enabled;
};

// what std::clog receives meanwhile
struct Clog {
    Clog() : m_old(std::clog.rdbuf(m_text.rdbuf())) {}
    ~Clog() { std::clog.rdbuf(m_old); }
    std::ostringstream m_text;
    std::streambuf* m_old;
};

struct Names {
    std::vector<std::string> v;
    void add(const std::string& name, std::unique_ptr<Logger>&& l) {
        LoggerFactory::getInstance().addLogger(name, std::move(l));
        v.push_back(name);
    }
    ~Names() { for (const auto& x : v) LoggerFactory::getInstance().removeLogger(x); }
};

// a scratch directory of this process, emptied at the end
struct Scratch {
    std::string dir;
    std::vector<std::string> files;
    Scratch() {
        char t[] = "/tmp/c26.XXXXXX";
        const char* d = mkdtemp(t);
        if (d == nullptr) throw pbt::Discard{"no scratch directory"};
        dir = d;
    }
    std::string file(const std::string& name) {
        files.push_back(dir + "/" + name);
        return files.back();
    }
    ~Scratch() {
        for (const auto& f : files) std::remove(f.c_str());
        rmdir(dir.c_str());
    }
};

std::string content(const std::string& path) {
    std::ifstream i(path, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return i ? o.str() : "unreadable";
}

// all that a history shows to the caller
std::vector<std::string> history(Case& c, const Options& o, const std::string& dir) {
    std::vector<std::string> r;
    Network n(c.s.chance(20) ? "net%1%" : "net", "test");
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-01T00:00:00.000Z"));
    World w(c, n, o);
    w.build();
    const unsigned steps = 1 + static_cast<unsigned>(c.s.draw(14));
    for (unsigned i = 0; i < steps && !w.levels().empty(); ++i) {
        w.last = {};
        switch (w.s.weighted({12, 16, 10, 8, 3, 12, 10, 4, 4, 6, 8, 4, 14, 6, 5, 5})) {
            case 0: w.set(false); break;
            case 1: w.addAny(); break;
            case 2: w.switchOp(); break;
            case 3: w.connectOp(); break;
            case 4: w.setConnectableBus(); break;
            case 5: w.variantOp(); break;
            case 6: w.extension(); break;
            case 7: w.property(); break;
            case 8: w.alias(); break;
            case 9: w.removeOp(true); break;
            case 10: w.set(true); break;
            case 11: w.addInternalConnection(*w.pickOne(w.levels())); break;
            case 12: {
                Asker q{c, n, w, c.s};
                q.answers = &r;
                q.ask();
                break;
            }
            case 13: {
                auto& m = n.getVariantManager();
                const std::string name = c.s.pickOf<std::string>({"%1%", "50%", "a%sb", "v"});
                r.push_back("variant " + guarded([&]() { m.cloneVariant(VariantManager::getInitialVariantId(), name, c.s.chance(30)); m.setWorkingVariant(name); return std::string("cloned"); }));
                if (c.s.chance(50)) r.push_back("variant removed " + guarded([&]() { m.removeVariant(name); m.setWorkingVariant(VariantManager::getInitialVariantId()); return std::string("removed"); }));
                break;
            }
            case 14: {  // a file
                const std::string path = dir + "/" + c.s.pickOf<std::string>({"a.xiidm", "100%.xiidm", "%1%.xiidm"});
                r.push_back("file " + guarded([&]() {
                    Network::writeXml(boost::filesystem::path(path), n);
                    const std::string d = content(path);
                    { const std::string x = model::toXml(n); c.check(d == x, "file", d == x ? "" : "the file written is not the document of the network: " + model::firstDifference(d, x)); }
                    Network m = Network::readXml(boost::filesystem::path(path));
                    return d + model::toXml(m);
                }));
                std::remove(path.c_str());
                r.push_back("no file " + guarded([&]() { return Network::readXml(boost::filesystem::path(path)).getId(); }));
                r.push_back("no directory " + guarded([&]() { Network::writeXml(boost::filesystem::path(dir + "/none/x.xiidm"), n); return std::string("written"); }));
                c.label("file");
                break;
            }
            default: {  // documents with unknown extensions and a tie line that does not fit
                r.push_back("document " + guarded([&]() {
                    std::string d = model::toXml(n);
                    const size_t p = d.rfind("</iidm:network>");
                    if (p != std::string::npos && c.s.chance(60)) {
                        auto v = w.identifiables();
                        d.insert(p, "<iidm:extension id=\"" + std::string("net") + "\"><x:unknown xmlns:x=\"http://x/%1%\"/></iidm:extension>");
                    }
                    size_t q = d.find(" xnodeP_1=\"");
                    if (q != std::string::npos) d.insert(q + 11, "9");
                    return model::toXml(model::fromXml(d));
                }));
                break;
            }
        }
        r.push_back(w.last.skipped ? "" : w.last.what + (w.last.accepted ? " ok" : " refused: " + w.last.error));
    }
    r.push_back(guarded([&]() { return model::toXml(n); }));
    for (const auto& v : dumpVariants(n, model::ALL)) {
        r.push_back(v.first);
        for (const auto& e : v.second) r.push_back(e.first + "=" + e.second.v);
    }
    return r;
}

void differential(Case& c) {
    Options o;
    o.maxSubstations = 2;
    o.maxLevels = 3;
    o.maxEquipment = 6;
    o.variants = true;
    o.extensions = true;
    o.nasty = true;
    o.specialIds = c.s.chance(70);
    o.wild = c.s.chance(50);
    o.wildPct = 5;
    const unsigned kind = static_cast<unsigned>(c.s.draw(4));
    const Level level = c.s.pick(LEVELS);
    Scratch scratch;
    scratch.file("a.xiidm");
    scratch.file("100%.xiidm");
    scratch.file("%1%.xiidm");
    std::vector<uint64_t> choices;
    c.s.record(&choices);
    const std::vector<std::string> quiet = history(c, o, scratch.dir);
    c.s.record(nullptr);

    pbt::Src again(choices, nullptr, 0);
    Case twin(again, false, c.size());
    std::vector<Line> lines;
    std::vector<std::string> loud;
    std::string clog;
    {
        Names names;
        Clog out;
        const std::string root = c.s.pickOf<std::string>({"powsybl", "powsybl::iidm"});
        ContainerLogger* container = nullptr;
        if (kind == 0) {
            names.add(root, stdcxx::make_unique<ConsoleLogger>(level));
        } else if (kind == 1) {
            auto l = stdcxx::make_unique<ContainerLogger>();
            container = l.get();
            names.add(root, std::move(l));
        } else {
            names.add(root, stdcxx::make_unique<Keeper>(lines, kind == 2 ? 31U : static_cast<unsigned>(c.s.draw(32))));
        }
        names.add("Identifiables", stdcxx::make_unique<Keeper>(lines, 31U));
        loud = history(twin, o, scratch.dir);
        clog = out.m_text.str();
        if (container != nullptr) for (auto i = container->cbegin(); i != container->cend(); ++i) lines.push_back({i->getLevel(), i->getMessage()});
    }
    for (size_t i = 0; i < std::max(quiet.size(), loud.size()); ++i) {
        const std::string a = i < quiet.size() ? quiet[i] : "nothing", b = i < loud.size() ? loud[i] : "nothing";
        c.check(a == b, "log-changes-outcome", a == b ? "" : "without a log: " + a.substr(0, 800) + "\nwith a log: " + b.substr(0, 800) + (a.size() > 800 ? "\n" + model::firstDifference(a, b) : ""));
    }
    bool logged = !clog.empty();
    for (const auto& l : lines) {
        logged = true;
        c.check(!l.text.empty(), "empty-message", LEVEL_NAMES[static_cast<unsigned>(l.level)]);
        if (l.text.find('%') != std::string::npos) c.label("percent in a message");
        c.label(std::string("level ") + LEVEL_NAMES[static_cast<unsigned>(l.level)]);
    }
    if (!clog.empty()) {
        c.label("console");
        // no line has a lower level than the one of the logger
        std::istringstream i(clog);
        static const std::regex pattern("^[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2} - (TRACE|DEBUG|INFO|WARN|ERROR) - .*");
        std::string l;
        while (std::getline(i, l)) {
            std::smatch m;
            if (!std::regex_match(l, m, pattern)) continue;  // an id with a line break
            size_t k = 0;
            while (m[1] != LEVEL_NAMES[k]) ++k;
            c.check(k >= static_cast<size_t>(level), "console-level", "a logger of level " + std::string(LEVEL_NAMES[static_cast<unsigned>(level)]) + " wrote: " + l);
        }
    }
    c.nontrivial(logged && quiet.size() > 10);
    c.label("differential");
}

// The loggers themselves, against a model: a name has the logger of its longest registered prefix.
struct Spec {
    unsigned enabled;
    std::vector<Line> got;       // through the library
    std::vector<Line> expected;
    ContainerLogger* container = nullptr;
    bool console = false;
};

void facility(Case& c) {
    auto& s = c.s;
    std::map<std::string, std::unique_ptr<Spec>> registered;
    std::string expectedClog;
    Clog out;
    struct Cleaner {
        std::map<std::string, std::unique_ptr<Spec>>& m;
        ~Cleaner() { for (const auto& x : m) LoggerFactory::getInstance().removeLogger(x.first); }
    } cleaner{registered};
    const std::vector<std::string> parts = {"a", "b", "c26", "::", ":", "a::b", "Foo<x::y>", "", "%1%"};
    auto name = [&]() {
        std::string n = s.pick(parts);
        while (n.size() < 60 && s.chance(60)) n += "::" + s.pick(parts);
        return n;
    };
    std::vector<std::string> used;
    auto pickName = [&]() {
        if (!used.empty() && s.chance(60)) {
            std::string n = s.pick(used);
            if (s.chance(40)) n += "::" + s.pick(parts);
            else if (s.chance(20)) n += "x";
            return n;
        }
        used.push_back(name());
        return used.back();
    };
    auto check = [&](const std::string& n, Spec& e) {
        if (e.container != nullptr) {
            c.checkEq(e.container->size(), static_cast<unsigned long>(e.expected.size()), "lost-message", "messages kept by " + n);
            e.got.clear();
            for (auto i = e.container->cbegin(); i != e.container->cend(); ++i) e.got.push_back({i->getLevel(), i->getMessage()});
            for (unsigned long i = 0; i < e.container->size(); ++i) c.checkEq(e.container->getLogMessage(i).getMessage(), e.got[i].text, "message-index", n);
        }
        c.checkEq(e.got.size(), e.expected.size(), "lost-message", "messages received by " + n);
        for (size_t i = 0; i < e.got.size(); ++i) {
            c.checkEq(e.got[i].text, e.expected[i].text, "message", n);
            c.check(e.got[i].level == e.expected[i].level, "message-level", n + ": " + e.got[i].text);
        }
    };
    const unsigned steps = 2 + static_cast<unsigned>(s.draw(30));
    unsigned logged = 0, inherited = 0;
    for (unsigned i = 0; i < steps; ++i) {
        switch (s.weighted({8, 3, 20})) {
            case 0: {
                const std::string n = pickName();
                if (registered.count(n)) break;
                auto spec = stdcxx::make_unique<Spec>();
                const unsigned kind = static_cast<unsigned>(s.draw(4));
                if (kind == 0) {
                    auto l = stdcxx::make_unique<ContainerLogger>();
                    spec->container = l.get();
                    spec->enabled = 31;
                    LoggerFactory::getInstance().addLogger(n, std::move(l));
                } else if (kind == 1) {
                    spec->console = true;
                    const bool byDefault = s.chance(20);
                    const unsigned min = byDefault ? 2 : static_cast<unsigned>(s.draw(5));
                    spec->enabled = (31U << min) & 31U;
                    if (byDefault) LoggerFactory::getInstance().addLogger(n, stdcxx::make_unique<ConsoleLogger>());
                    else LoggerFactory::getInstance().addLogger(n, stdcxx::make_unique<ConsoleLogger>(LEVELS[min]));
                } else if (kind == 2) {
                    spec->enabled = 0;
                    LoggerFactory::getInstance().addLogger(n, stdcxx::make_unique<NoopLogger>());
                } else {
                    spec->enabled = static_cast<unsigned>(s.draw(32));
                    LoggerFactory::getInstance().addLogger(n, stdcxx::make_unique<Keeper>(spec->got, spec->enabled));
                }
                c.note("add logger " + n + " kind " + std::to_string(kind) + " levels " + std::to_string(spec->enabled));
                registered[n] = std::move(spec);
                break;
            }
            case 1: {
                const std::string n = pickName();
                auto it = registered.find(n);
                if (it != registered.end()) {
                    check(n, *it->second);
                    registered.erase(it);
                }
                c.note("remove logger " + n);
                LoggerFactory::getInstance().removeLogger(n);
                c.label("logger removed");
                break;
            }
            default: {
                const std::string n = pickName();
                // the model: cut the last :: until a logger is found
                std::string k = n;
                Spec* e = nullptr;
                while (true) {
                    auto it = registered.find(k);
                    if (it != registered.end()) { e = it->second.get(); break; }
                    const size_t p = k.rfind("::");
                    if (p == std::string::npos) break;
                    k = k.substr(0, p);
                }
                if (e != nullptr && k != n) ++inherited;
                Logger& l = LoggerFactory::getLogger(n);
                const unsigned enabled = e == nullptr ? 0 : e->enabled;
                const bool flags[] = {l.isTraceEnabled(), l.isDebugEnabled(), l.isInfoEnabled(), l.isWarnEnabled(), l.isErrorEnabled()};
                for (unsigned j = 0; j < 5; ++j) c.check(flags[j] == (((enabled >> j) & 1U) != 0), "enabled", n + " found " + (e == nullptr ? "none" : k) + " level " + LEVEL_NAMES[j]);
                const unsigned level = static_cast<unsigned>(s.draw(5));
                const std::string text = s.pick(textPool());
                const long number = static_cast<long>(s.draw(1000));
                std::string expected;
                auto send = [&](const std::string& m, bool args) {
                    switch (level) {
                        case 0: if (args) l.trace(m, text, number); else l.trace(m); break;
                        case 1: if (args) l.debug(m, text, number); else l.debug(m); break;
                        case 2: if (args) l.info(m, text, number); else l.info(m); break;
                        case 3: if (args) l.warn(m, text, number); else l.warn(m); break;
                        default: if (args) l.error(m, text, number); else l.error(m); break;
                    }
                };
                if (s.chance(50)) {
                    expected = "<" + text + "> has " + std::to_string(number) + " " + text;
                    send("<%1%> has %2% %1%", true);
                } else {
                    expected = text + s.pickOf<std::string>({"", "%", "%1%", "100 %", "%s"});
                    if (expected.find('%') != std::string::npos) c.label("percent in a message");
                    send(expected, false);
                }
                c.note("log " + n + " " + LEVEL_NAMES[level] + " " + expected);
                if ((enabled >> level) & 1U) {
                    ++logged;
                    if (e->console) expectedClog += std::string(" - ") + LEVEL_NAMES[level] + " - " + expected + "\n";
                    else e->expected.push_back({LEVELS[level], expected});
                }
                break;
            }
        }
    }
    for (const auto& x : registered) check(x.first, *x.second);
    // the console: the lines without their times
    const std::string clog = out.m_text.str();
    std::string seen;
    size_t p = 0;
    static const std::regex date("^[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}");
    size_t q = 0;
    while (p < clog.size()) {
        const std::string at = clog.substr(p, 19);
        c.check(std::regex_match(at, date), "console-date", pbt::quote(clog.substr(p, 60)));
        p += 19;
        // the message may have line breaks: the expected text tells where it ends
        const size_t end = expectedClog.find('\n', q);
        size_t len = end == std::string::npos ? 0 : end + 1 - q;
        while (len != 0 && q + len < expectedClog.size() && expectedClog.compare(q + len, 3, " - ") != 0) len = expectedClog.find('\n', q + len) + 1 - q;
        c.checkEq(pbt::quote(clog.substr(p, len)), pbt::quote(expectedClog.substr(q, len)), "console-line");
        c.check(len != 0, "console-line", "unexpected: " + pbt::quote(clog.substr(p - 19)));
        p += len;
        q += len;
    }
    c.checkEq(q, expectedClog.size(), "console-lost", "characters written to the console");
    // a message alone
    const std::time_t before = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    const unsigned k = static_cast<unsigned>(s.draw(5));
    const std::string text = s.pick(textPool());
    const LogMessage m(LEVELS[k], text);
    const std::time_t after = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    c.check(m.getInstant() >= before && m.getInstant() <= after, "instant");
    c.checkEq(m.getMessage(), text, "message");
    c.check(m.getLevel() == LEVELS[k], "message-level");
    c.checkEq(getLevelName(m.getLevel()), std::string(LEVEL_NAMES[k]), "level-name");
    std::tm tm{};
    const std::time_t t = m.getInstant();
    localtime_r(&t, &tm);
    char buffer[64];
    std::strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", &tm);
    std::ostringstream o;
    o << m;
    c.checkEq(o.str(), std::string(buffer) + " - " + LEVEL_NAMES[k] + " - " + text, "message-text");
    c.checkEq(m.toString(), o.str(), "message-text");
    c.nontrivial(logged >= 1 && inherited >= 1);
    if (inherited) c.label("inherited logger");
    if (!expectedClog.empty()) c.label("console");
    c.label("facility");
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C26";
    cfg.rule = "either a random history (creations with unusual ids, changes, switching, variants, extensions, removals, questions, documents, files) made once without any logger and once with a console, container or recording logger of random levels: outcomes, errors, answers, files and the final state must be equal; "
               "or random registrations, removals and uses of loggers compared with a model of the hierarchy, levels, order and text. Non-trivial: at least one message was logged in a history of ten results, or through an inherited logger.";
    cfg.quick = 30000;
    cfg.thorough = 1000000;
    cfg.quickSeconds = 60;
    cfg.requiredLabels = {"differential", "facility", "console", "percent in a message", "inherited logger", "logger removed", "file", "level TRACE", "level DEBUG", "level INFO", "level WARN", "level ERROR"};
    model::registerSerializers();
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        if (c.s.chance(60)) facility(c); else differential(c);
    });
}
