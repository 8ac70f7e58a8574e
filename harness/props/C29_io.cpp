// C29: a read or a write that fails is reported and changes nothing.
#include "../model/gen.hpp"
#include "../model/xml.hpp"

#include <fstream>
#include <istream>
#include <ostream>
#include <streambuf>
#include <unistd.h>

#include <boost/filesystem.hpp>

#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>

using namespace gen;
using model::Dump;

namespace {

struct Fault : public std::runtime_error {
    Fault() : std::runtime_error("input/output fault") {}
};

// takes a number of bytes, then fails
class Sink : public std::streambuf {
public:
    Sink(size_t limit, bool throws, size_t buffer) : m_limit(limit), m_buffer(buffer), m_throws(throws) {}
    std::string taken;
    bool failed = false;

protected:
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        m_pending.append(p, static_cast<size_t>(n));
        if (m_pending.size() <= m_buffer) return n;
        return drain() ? n : 0;
    }
    int overflow(int ch) override {
        if (ch == traits_type::eof()) return 0;
        const char x = static_cast<char>(ch);
        return xsputn(&x, 1) == 1 ? ch : traits_type::eof();
    }
    int sync() override { return drain() ? 0 : -1; }

private:
    bool drain() {
        const size_t room = m_limit - std::min(m_limit, taken.size());
        const bool all = m_pending.size() <= room;
        taken.append(m_pending, 0, room);
        m_pending.clear();
        if (all) return true;
        failed = true;
        if (m_throws) throw Fault();
        return false;
    }
    std::string m_pending;
    size_t m_limit, m_buffer;
    bool m_throws;
};

// gives a number of bytes, some at a time, then ends or fails
class Source : public std::streambuf {
public:
    Source(std::string data, size_t chunk, bool throws) : m_data(std::move(data)), m_chunk(chunk), m_throws(throws) {}

protected:
    int underflow() override {
        if (m_at >= m_data.size()) {
            if (m_throws) throw Fault();
            return traits_type::eof();
        }
        const size_t n = std::min(m_chunk, m_data.size() - m_at);
        char* p = &m_data[m_at];
        setg(p, p, p + n);
        m_at += n;
        return traits_type::to_int_type(*p);
    }

private:
    std::string m_data;
    size_t m_at = 0, m_chunk;
    bool m_throws;
};

struct Scratch {
    boost::filesystem::path dir;
    Scratch() {
        char t[] = "/tmp/c29.XXXXXX";
        const char* d = mkdtemp(t);
        if (d == nullptr) throw pbt::Discard{"no scratch directory"};
        dir = d;
    }
    ~Scratch() {
        boost::system::error_code ec;
        for (boost::filesystem::directory_iterator it(dir, ec), end; !ec && it != end; it.increment(ec)) boost::filesystem::remove(it->path(), ec);
        boost::filesystem::remove(dir, ec);
    }
};

// "" or why it failed
template <typename F>
std::string failure(F f) {
    try {
        f();
        return "";
    } catch (const std::exception& e) {
        return std::string("failed: ") + e.what();
    }
}

std::string content(const boost::filesystem::path& p) {
    std::ifstream f(p.string(), std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C29";
    cfg.rule = "random networks are written to streams and files that fail at a generated place (a buffer that takes a number of bytes and then refuses or throws, at once or when it is flushed, streams with and without exceptions enabled, streams that had failed before, a full device, no directory, a mapping file that cannot be written or is cut) and documents are read from streams that end, fail or throw at a generated place and give a few bytes at a time. "
               "An operation whose bytes did not all go through must end with an exception, one whose bytes all went through must succeed; what was written is a beginning of the document; the network and its next document are unchanged. Non-trivial: a fault in the middle of a document.";
    cfg.quick = 16000;
    cfg.thorough = 400000;
    cfg.quickSeconds = 45;
    cfg.requiredLabels = {"write fault", "write complete", "read fault", "read complete", "exceptions enabled", "at the flush", "throwing buffer", "already failed", "device full", "no directory", "mapping lost", "mapping cut", "file", "file and mapping"};
    return pbt::runMain(argc, argv, cfg, [](pbt::Case& c) {
        Src& s = c.s;
        Options o;
        o.maxSubstations = 2;
        o.maxLevels = 3;
        o.maxEquipment = 1 + static_cast<unsigned>(s.draw(12));
        o.nasty = s.chance(20);
        o.serializableOnly = true;
        Network n("n", "test");
        World w(c, n, o);
        w.build();
        for (unsigned k = static_cast<unsigned>(s.draw(4)); k > 0; --k) w.property();
        for (unsigned k = static_cast<unsigned>(s.draw(4)); k > 0; --k) w.extension();
        iidm::converter::ExportOptions e;
        e.setIndent(s.chance(50));
        std::string xml;
        Dump before;
        try {
            xml = model::toXml(n, e);
            before = model::xmlView(model::dump(model::fromXml(xml)));
        } catch (const std::exception&) {
            throw pbt::Discard{"not exported or not imported"};
        }
        const std::string root = "</iidm:network>";
        const size_t end = xml.rfind(root) == std::string::npos ? xml.size() : xml.rfind(root) + root.size();
        const Dump whole = model::dump(n);
        bool middle = false;
        const auto place = [&]() {
            switch (s.draw(6)) {
                case 0: return static_cast<size_t>(s.draw(8));
                case 1: return xml.size() - std::min(xml.size(), static_cast<size_t>(s.draw(40)));
                case 2: return xml.size() + static_cast<size_t>(s.draw(10));
                default: return static_cast<size_t>(s.draw(xml.size()));
            }
        };
        static const std::vector<std::ios::iostate> masks{std::ios::goodbit, std::ios::badbit, std::ios::failbit | std::ios::badbit, std::ios::failbit | std::ios::badbit | std::ios::eofbit};
        for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0; --k) {
            const std::ios::iostate mask = s.chance(50) ? std::ios::goodbit : s.pick(masks);
            if (mask != std::ios::goodbit) c.label("exceptions enabled");
            switch (s.weighted({40, 40, 20})) {
                case 0: {
                    const size_t limit = place(), buffer = s.chance(60) ? 0 : s.chance(50) ? 1 + static_cast<size_t>(s.draw(10000)) : std::string::npos / 2;
                    const bool throws = s.chance(30);
                    Sink sink(limit, throws, buffer);
                    std::ostream out(&sink);
                    const bool late = s.chance(5);
                    if (late) { out.setstate(std::ios::failbit); c.label("already failed"); }
                    else out.exceptions(mask);
                    const std::string r = failure([&]() { Network::writeXml("/nonexistent/n.xiidm", out, n, e); });
                    const std::string at = std::to_string(limit) + " of " + std::to_string(xml.size()) + " bytes, buffer of " + std::to_string(buffer) + (throws ? ", throws" : "") + ", exceptions " + std::to_string(mask);
                    c.check(xml.compare(0, sink.taken.size(), sink.taken) == 0, "not-a-beginning", at);
                    if (limit < xml.size() || late) {
                        c.check(!r.empty(), "lost-write", "the write was not reported as failed: " + at + (late ? " of a failed stream" : ""));
                        c.label("write fault");
                        if (buffer >= xml.size()) c.label("at the flush");
                        if (throws) c.label("throwing buffer");
                        middle = true;
                    } else {
                        c.check(r.empty(), "write-refused", r + " " + at);
                        out.exceptions(std::ios::goodbit);
                        out.flush();
                        c.check(sink.taken == xml, "not-complete", at);
                        c.label("write complete");
                    }
                    break;
                }
                case 1: {
                    const size_t limit = place(), chunk = s.chance(50) ? 1 + static_cast<size_t>(s.draw(20)) : 1 + static_cast<size_t>(s.draw(10000));
                    const bool throws = s.chance(40);
                    Source source(xml.substr(0, limit), chunk, throws);
                    std::istream in(&source);
                    in.exceptions(mask);
                    Dump d;
                    const std::string r = failure([&]() { d = model::xmlView(model::dump(Network::readXml("/nonexistent/n.xiidm", in))); });
                    const std::string at = std::to_string(limit) + " of " + std::to_string(xml.size()) + " bytes, " + std::to_string(chunk) + " at a time" + (throws ? ", throws" : "") + ", exceptions " + std::to_string(mask);
                    if (limit < end) {
                        c.check(!r.empty(), "incomplete-read", "the read was not reported as failed: " + at);
                        c.label("read fault");
                        if (throws) c.label("throwing buffer");
                        middle = true;
                    } else {
                        if (!throws) c.check(r.empty(), "read-refused", r + " " + at);
                        if (r.empty()) c.check(model::diff(before, d) == "", "read-differently", at + "\n" + model::diff(before, d));
                        c.label("read complete");
                    }
                    break;
                }
                default: {
                    Scratch scratch;
                    const boost::filesystem::path file = scratch.dir / "a.xiidm", mapping = scratch.dir / "a.csv";
                    iidm::converter::ExportOptions x;
                    x.setIndent(e.isIndent());
                    switch (s.draw(5)) {
                        case 0: {
                            const std::string r = failure([&]() { Network::writeXml(boost::filesystem::path("/dev/full"), n, x); });
                            c.check(!r.empty(), "lost-write", "to a full device, " + std::to_string(xml.size()) + " bytes");
                            c.label("device full");
                            break;
                        }
                        case 1: {
                            for (const auto& p : {scratch.dir / "none" / "a.xiidm", scratch.dir}) {
                                c.check(!failure([&]() { Network::writeXml(p, n, x); }).empty(), "lost-write", p.string());
                                c.check(!failure([&]() { Network::readXml(p); }).empty(), "incomplete-read", p.string());
                            }
                            c.check(!failure([&]() { Network::readXml(file); }).empty(), "incomplete-read", "no file");
                            c.label("no directory");
                            break;
                        }
                        case 2: {
                            x.setAnonymized(true);
                            boost::filesystem::create_symlink("/dev/full", mapping);
                            const std::string r = failure([&]() { Network::writeXml(file, n, x); });
                            c.check(!r.empty(), "lost-mapping", "of a full device");
                            boost::filesystem::remove(mapping);
                            c.label("mapping lost");
                            break;
                        }
                        case 3: {
                            x.setAnonymized(true);
                            const std::string r = failure([&]() { Network::writeXml(file, n, x); });
                            c.check(r.empty(), "write-refused", r);
                            const std::string a = content(file), b = content(mapping);
                            Dump d;
                            const std::string q = failure([&]() { d = model::xmlView(model::dump(Network::readXml(file))); });
                            c.check(q.empty() || o.nasty, "read-refused", q);
                            c.check(content(file) == a && content(mapping) == b, "file-changed", "by a read");
                            if (q.empty()) c.check(model::diff(before, d) == "", "read-differently", model::diff(before, d));
                            // every line of the mapping is needed
                            if (q.empty() && !b.empty()) {
                                const size_t cut = static_cast<size_t>(s.draw(b.size() - 1));
                                { std::ofstream f(mapping.string(), std::ios::binary | std::ios::trunc); f << b.substr(0, cut); }
                                const std::string u = failure([&]() { d = model::xmlView(model::dump(Network::readXml(file))); });
                                if (cut + 1 < b.size()) {
                                    c.check(!u.empty(), "incomplete-mapping-read", std::to_string(cut) + " of " + std::to_string(b.size()) + " bytes of the mapping");
                                    c.label("mapping cut");
                                    middle = true;
                                } else {
                                    c.check(u.empty() && model::diff(before, d) == "", "read-refused", u);
                                }
                            }
                            c.label("file and mapping");
                            break;
                        }
                        default: {
                            const std::string r = failure([&]() { Network::writeXml(file, n, x); });
                            c.check(r.empty(), "write-refused", r);
                            c.check(content(file) == xml, "not-complete", "file");
                            Dump d;
                            const std::string q = failure([&]() { d = model::xmlView(model::dump(Network::readXml(file))); });
                            c.check(q.empty(), "read-refused", q);
                            c.check(model::diff(before, d) == "", "read-differently", model::diff(before, d));
                            // over a longer file
                            { std::ofstream f(file.string(), std::ios::app); f << std::string(1000, 'x'); }
                            const std::string t = failure([&]() { Network::writeXml(file, n, x); });
                            c.check(t.empty() && content(file) == xml, "not-complete", "file that was longer " + t);
                            c.label("file");
                        }
                    }
                }
            }
        }
        c.check(model::diff(whole, model::dump(n)) == "", "network-changed", model::diff(whole, model::dump(n)));
        c.check(model::toXml(n, e) == xml, "next-document", "");
        c.nontrivial(middle);
    });
}
