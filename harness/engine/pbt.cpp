#include "pbt.hpp"

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {

static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Src::Src(uint64_t seed, uint64_t* shm, size_t cap) : m_shm(shm), m_cap(cap) {
    for (auto& v : m_state) v = splitmix(seed);
    if (m_shm) m_shm[0] = 0;
}
Src::Src(const std::vector<uint64_t>& replay, uint64_t* shm, size_t cap) : m_store(replay), m_shm(shm), m_cap(cap) {
    m_replay = &m_store;
    if (m_shm) m_shm[0] = 0;
}
uint64_t Src::next() {
    const uint64_t result = rotl(m_state[1] * 5, 7) * 9;
    const uint64_t t = m_state[1] << 17;
    m_state[2] ^= m_state[0];
    m_state[3] ^= m_state[1];
    m_state[1] ^= m_state[2];
    m_state[0] ^= m_state[3];
    m_state[2] ^= t;
    m_state[3] = rotl(m_state[3], 45);
    return result;
}
uint64_t Src::draw(uint64_t n) {
    if (n == 0) throw Discard{"draw(0)"};
    uint64_t v;
    if (m_replay) {
        v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
        if (v >= n) v %= n;
    } else {
        v = n == 1 ? 0 : next() % n;
    }
    if (m_pos + 1 < m_cap && m_shm) {
        m_shm[m_pos + 1] = v;
        m_shm[0] = m_pos + 1;
    }
    ++m_pos;
    if (m_record) m_record->push_back(v);
    m_hash = (m_hash ^ v) * 1099511628211ULL;
    m_hash = (m_hash ^ (v >> 32)) * 1099511628211ULL;
    if (m_pos > 200000) throw Discard{"too many choices"};
    return v;
}
bool Src::chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
size_t Src::weighted(const std::vector<unsigned>& weights) {
    unsigned total = 0;
    for (unsigned w : weights) total += w;
    uint64_t v = draw(total);
    for (size_t i = 0; i < weights.size(); ++i) {
        if (v < weights[i]) return i;
        v -= weights[i];
    }
    return 0;
}
size_t Src::weighted(std::initializer_list<unsigned> weights) { return weighted(std::vector<unsigned>(weights)); }

void Case::note(const std::string& line) {
    if (m_verbose) std::cout << "  " << line << std::endl;
    if (m_trace.size() < 6000) {
        m_trace += line;
        m_trace += '\n';
    }
}
void Case::fail(const std::string& key, const std::string& message) { throw Failure{key, message}; }

std::string hex(double d) {
    char b[64];
    if (std::isnan(d)) return "nan";
    snprintf(b, sizeof b, "%a", d);
    return b;
}
std::string show(double d) {
    char b[64];
    if (std::isnan(d)) return "nan";
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
std::string quote(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
// json string: bytes over 127 are escaped one by one (they may not be valid UTF-8)
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

namespace {

constexpr size_t CAP = 1 << 17;
constexpr size_t TEXT = 1 << 16;

struct Slot {
    volatile uint64_t index;     // current case index
    volatile uint64_t running;   // 1 while a case runs
    volatile uint64_t failed;    // 1 when a Failure was thrown
    volatile uint64_t done;      // worker finished its range
    volatile uint64_t size;
    volatile double since;       // when the case started
    char key[512];
    char message[TEXT];
    char trace[TEXT];
    uint64_t choices[CAP];
};

enum class Kind { OK, DISCARD, FAIL, CRASH };
struct Outcome {
    Kind kind = Kind::OK;
    std::string key;
    std::string message;
    std::string trace;
    std::vector<uint64_t> used;
};

struct Stats {
    unsigned long evaluations = 0, discards = 0, comparisons = 0, nontrivial = 0;
    std::map<std::string, unsigned long> labels;
    std::map<std::string, unsigned long> discardReasons;
    std::vector<std::string> samples;
};

std::string workDir;
const Config* cfg;
const std::function<void(Case&)>* prop;
uint64_t baseSeed;

double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void armCpu(unsigned seconds) {
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}
void onCpu(int) {
    static const char m[] = "\nPBT-HANG: the case took more time than allowed\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(97);
}

uint64_t caseSeed(uint64_t i) {
    uint64_t x = baseSeed * 0x9e3779b97f4a7c15ULL + 0x1234567;
    for (char c : cfg->id) x = (x ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    x ^= i * 0xd6e8feb86659fd93ULL;
    return splitmix(x);
}
unsigned caseSize(uint64_t i) { return 1 + static_cast<unsigned>((i * 37) % 100); }

void copyText(char* dst, size_t n, const std::string& s) {
    size_t l = std::min(n - 1, s.size());
    memcpy(dst, s.data(), l);
    dst[l] = 0;
}

// Runs one case in this process.
Outcome runCase(Src& src, Slot* slot, unsigned size, bool verbose, Stats* stats, std::vector<uint64_t>* hashes) {
    Outcome out;
    Case c(src, verbose, size);
    slot->failed = 0;
    slot->size = size;
    slot->since = now();
    slot->running = 1;
    armCpu(cfg->caseCpuSeconds);
    auto failWith = [&](const std::string& key, const std::string& message) {
        out.kind = Kind::FAIL;
        out.key = key;
        out.message = message;
        copyText(slot->key, sizeof slot->key, key);
        copyText(slot->message, sizeof slot->message, message);
        copyText(slot->trace, sizeof slot->trace, c.trace());
        slot->failed = 1;
    };
    try {
        (*prop)(c);
    } catch (const Failure& f) {
        failWith(f.key, f.message);
    } catch (const Discard& d) {
        out.kind = Kind::DISCARD;
        if (stats) { ++stats->discards; ++stats->discardReasons[d.why]; }
    } catch (const std::exception& e) {
        failWith(std::string("unexpected-exception"), std::string(typeid(e).name()) + ": " + e.what());
    }
    armCpu(0);
    slot->running = 0;
    if (stats && out.kind == Kind::OK) {
        ++stats->evaluations;
        stats->comparisons += c.comparisons();
        for (const auto& l : c.labels()) ++stats->labels[l];
        if (c.isNontrivial()) {
            ++stats->nontrivial;
            hashes->push_back(src.hash());
            if (stats->samples.size() < 2 && c.trace().size() > 40) stats->samples.push_back(c.trace().substr(0, 1500));
        }
    }
    return out;
}

void redirect(const std::string& path) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}
std::string readAll(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

std::string crashKey(const std::string& err, int status) {
    size_t p;
    if (err.find("PBT-HANG") != std::string::npos) return "crash:hang";
    if ((p = err.find("Assertion `")) != std::string::npos) {
        size_t e = err.find("' failed", p);
        return "crash:assert:" + err.substr(p + 11, e == std::string::npos ? 80 : e - p - 11);
    }
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        p += 25;
        size_t e = err.find_first_of(" \n", p);
        std::string k = err.substr(p, e - p);
        if (k == "ABRT" || k == "attempting") {
            if (err.find("terminate called") != std::string::npos) return "crash:terminate";
        }
        return "crash:asan:" + k;
    }
    if ((p = err.find("WARNING: ThreadSanitizer: ")) != std::string::npos) {
        p += 26;
        return "crash:tsan:" + err.substr(p, err.find_first_of("(\n", p) - p - 1);
    }
    if ((p = err.find("runtime error: ")) != std::string::npos) {
        size_t e = err.find('\n', p);
        std::string k = err.substr(p + 15, e - p - 15), o;
        for (char ch : k) if (!isdigit(static_cast<unsigned char>(ch)) && ch != '-' && ch != '.') o += ch;
        return "crash:ubsan:" + o.substr(0, 80);
    }
    if (err.find("terminate called") != std::string::npos) return "crash:terminate";
    if (WIFSIGNALED(status)) return "crash:signal" + std::to_string(WTERMSIG(status));
    return "crash:exit" + std::to_string(WEXITSTATUS(status));
}

Slot* newSlot() {
    void* m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Slot*>(m);
}

Outcome outcomeFromSlot(Slot* slot, int status, const std::string& errPath) {
    Outcome o;
    size_t n = std::min<size_t>(slot->choices[0], CAP - 1);
    o.used.assign(slot->choices + 1, slot->choices + 1 + n);
    if (slot->failed) {
        o.kind = Kind::FAIL;
        o.key = slot->key;
        o.message = slot->message;
        o.trace = slot->trace;
    } else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        o.kind = Kind::CRASH;
        std::string err = readAll(errPath);
        o.key = crashKey(err, status);
        o.message = err.substr(0, 6000);
    }
    return o;
}

// Waits for a child; ends those whose case makes no progress (a deadlock uses no CPU time).
pid_t await(pid_t pid, int* status, const std::vector<std::pair<pid_t, Slot*>>& children) {
    if (cfg->caseWallSeconds == 0) return waitpid(pid, status, 0);
    for (;;) {
        pid_t r = waitpid(pid, status, WNOHANG);
        if (r != 0) return r;
        for (const auto& c : children) {
            if (c.first > 0 && c.second->running && now() - c.second->since > cfg->caseWallSeconds && !c.second->failed) {
                copyText(c.second->key, sizeof c.second->key, "crash:hang");
                copyText(c.second->message, sizeof c.second->message, "the case makes no progress (deadlock)");
                c.second->trace[0] = 0;
                c.second->failed = 2;
                kill(c.first, SIGKILL);
            }
        }
        usleep(2000);
    }
}

std::vector<Slot*> shrinkSlots;
// Runs several candidates in parallel child processes.
std::vector<Outcome> tryAll(const std::vector<std::vector<uint64_t>>& cands, unsigned size) {
    std::vector<Outcome> res(cands.size());
    std::vector<pid_t> pids(cands.size());
    while (shrinkSlots.size() < cands.size()) shrinkSlots.push_back(newSlot());
    for (size_t i = 0; i < cands.size(); ++i) {
        Slot* slot = shrinkSlots[i];
        slot->failed = 0;
        slot->choices[0] = 0;
        slot->running = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            redirect(workDir + "/try" + std::to_string(i) + ".err");
            Src src(cands[i], slot->choices, CAP);
            runCase(src, slot, size, false, nullptr, nullptr);
            _exit(0);
        }
        pids[i] = pid;
    }
    for (size_t i = 0; i < cands.size(); ++i) {
        int status = 0;
        std::vector<std::pair<pid_t, Slot*>> children;
        for (size_t k = i; k < cands.size(); ++k) children.emplace_back(pids[k], shrinkSlots[k]);
        await(pids[i], &status, children);
        res[i] = outcomeFromSlot(shrinkSlots[i], status, workDir + "/try" + std::to_string(i) + ".err");
    }
    return res;
}

bool better(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

Outcome shrink(Outcome best, unsigned size, double seconds) {
    const double end = now() + seconds;
    auto trim = [](std::vector<uint64_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
    best.used = trim(best.used);
    std::set<std::vector<uint64_t>> seen;
    auto attempt = [&](std::vector<std::vector<uint64_t>> cands) {
        // evaluates in batches of 8, adopts the first success
        std::vector<std::vector<uint64_t>> batch;
        for (size_t i = 0; i <= cands.size(); ++i) {
            if (i < cands.size()) {
                auto c = trim(cands[i]);
                if (better(c, best.used) && seen.insert(c).second) batch.push_back(c);
            }
            if (batch.size() == 8 || (i == cands.size() && !batch.empty())) {
                auto rs = tryAll(batch, size);
                for (auto& r : rs) {
                    if ((r.kind == Kind::FAIL || r.kind == Kind::CRASH) && r.key == best.key) {
                        r.used = trim(r.used);
                        if (better(r.used, best.used)) { best = r; return true; }
                    }
                }
                batch.clear();
                if (now() > end) return false;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // delete blocks, large to small
        for (size_t len = std::max<size_t>(1, best.used.size() / 2); len >= 1 && now() < end; len = len > 8 ? len / 2 : len - 1) {
            bool again = true;
            while (again && now() < end) {
                again = false;
                std::vector<std::vector<uint64_t>> c;
                size_t step = std::max<size_t>(1, len / 2);
                for (size_t i = 0; i + len <= best.used.size(); i += step) {
                    auto v = best.used;
                    v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + len));
                    c.push_back(v);
                    // delete and decrement an earlier counter
                    if (len <= 12 && i > 0 && best.used.size() < 400) {
                        auto w = v;
                        for (size_t k = i; k-- > 0 && i - k <= 4;) if (w[k] > 0) { w[k]--; c.push_back(w); w[k]++; }
                    }
                }
                std::reverse(c.begin(), c.end());
                if (attempt(c)) { again = progress = true; }
            }
            if (len == 1) break;
        }
        // lower values: zero blocks, zero, halve, decrement
        for (size_t blk : {8, 4, 2, 1}) {
            for (size_t i = 0; i < best.used.size() && now() < end; i += blk) {
                std::vector<std::vector<uint64_t>> c;
                auto v = best.used;
                bool any = false;
                for (size_t k = i; k < std::min(i + blk, v.size()); ++k) { any = any || v[k]; v[k] = 0; }
                if (!any) continue;
                c.push_back(v);
                if (blk == 1) {
                    for (uint64_t d : {best.used[i] / 2, best.used[i] - best.used[i] / 4, best.used[i] - 1}) { v = best.used; v[i] = d; c.push_back(v); }
                }
                if (attempt(c)) progress = true;
            }
        }
    }
    return best;
}

std::string seqText(const std::vector<uint64_t>& v) {
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
    return o.str();
}

struct KnownFinding {
    std::string property, key, pattern, what;
};
// Lines: finding|<property>|<key>|<substring of the message>|<text>
std::vector<KnownFinding> loadKnown(const std::string& path) {
    std::vector<KnownFinding> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("finding|", 0) != 0) continue;
        std::vector<std::string> p;
        std::stringstream s(l);
        std::string x;
        while (std::getline(s, x, '|')) p.push_back(x);
        if (p.size() >= 5) r.push_back({p[1], p[2], p[3], p[4]});
    }
    return r;
}

}  // namespace

int runMain(int argc, char** argv, const Config& config, const std::function<void(Case&)>& property) {
    cfg = &config;
    prop = &property;
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    baseSeed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    std::string evidence, replayDir = ".", replayFile, known;
    bool all = false;
    unsigned workers = 8;
    unsigned long count = 0;
    long single = -1;
    double seconds = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val();
        else if (a == "--seed") baseSeed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay-dir") replayDir = val();
        else if (a == "--replay") replayFile = val();
        else if (a == "--known") known = val();
        else if (a == "--probe") return 0;
        else if (a == "--all") all = true;
        else if (a == "--workers") workers = static_cast<unsigned>(atoi(val().c_str()));
        else if (a == "--count") count = strtoul(val().c_str(), nullptr, 10);
        else if (a == "--seconds") seconds = atof(val().c_str());
        else if (a == "--case") single = atol(val().c_str());
        else { std::cerr << "unknown option " << a << std::endl; return 2; }
    }
    const bool thorough = tier == "thorough";
    if (!count) count = thorough ? config.thorough : config.quick;
    if (seconds <= 0) seconds = thorough ? config.thoroughSeconds : config.quickSeconds;
    signal(SIGPROF, onCpu);

    if (!replayFile.empty() || single >= 0) {
        Slot* slot = newSlot();
        std::vector<uint64_t> seq;
        unsigned size = 50;
        if (single < 0) {
            std::ifstream f(replayFile);
            std::string l;
            while (std::getline(f, l)) {
                if (l.rfind("size: ", 0) == 0) size = static_cast<unsigned>(atoi(l.c_str() + 6));
                if (l.rfind("choices: ", 0) == 0) {
                    std::stringstream s(l.substr(9));
                    uint64_t v;
                    while (s >> v) seq.push_back(v);
                }
            }
        } else size = caseSize(static_cast<uint64_t>(single));
        Src src = single >= 0 ? Src(caseSeed(static_cast<uint64_t>(single)), slot->choices, CAP) : Src(seq, slot->choices, CAP);
        Outcome o = runCase(src, slot, size, true, nullptr, nullptr);
        if (o.kind == Kind::FAIL) {
            std::cout << "FAILS key=" << o.key << "\n" << o.message << std::endl;
            return 1;
        }
        std::cout << (o.kind == Kind::DISCARD ? "DISCARDED" : "HOLDS") << std::endl;
        return 0;
    }

    char tmpl[] = "/tmp/pbtXXXXXX";
    workDir = mkdtemp(tmpl);
    const double start = now();
    auto knownFindings = loadKnown(known);
    std::map<std::string, unsigned long> knownHits;
    std::map<std::string, std::pair<unsigned long, std::string>> allKeys;

    std::vector<Slot*> slots(workers);
    std::vector<pid_t> pids(workers, 0);
    std::vector<unsigned> gen(workers, 0);
    std::vector<std::string> statFiles;
    auto spawn = [&](unsigned w, uint64_t from) {
        Slot* slot = slots[w];
        slot->running = slot->failed = slot->done = 0;
        std::string base = workDir + "/w" + std::to_string(w) + "." + std::to_string(gen[w]++);
        statFiles.push_back(base);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            redirect(workDir + "/w" + std::to_string(w) + ".err");
            Stats st;
            std::vector<uint64_t> hashes;
            auto flush = [&]() {
                std::ofstream f(base);
                f << st.evaluations << ' ' << st.discards << ' ' << st.comparisons << ' ' << st.nontrivial << '\n';
                f << st.labels.size() << '\n';
                for (const auto& l : st.labels) f << l.second << ' ' << l.first << '\n';
                f << st.discardReasons.size() << '\n';
                for (const auto& l : st.discardReasons) f << l.second << ' ' << l.first << '\n';
                f << st.samples.size() << '\n';
                for (const auto& x : st.samples) f << jstr(x) << '\n';
                f.close();
                std::ofstream h(base + ".h", std::ios::binary);
                h.write(reinterpret_cast<const char*>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
            };
            double lastFlush = now();
            for (uint64_t i = from; i < count; i += workers) {
                if (now() - start > seconds) break;
                slot->index = i;
                Src src(caseSeed(i), slot->choices, CAP);
                Outcome o = runCase(src, slot, caseSize(i), false, &st, &hashes);
                if (o.kind == Kind::FAIL) {
                    flush();
                    _exit(10);
                }
                if (now() - lastFlush > 1.0) { flush(); lastFlush = now(); }
            }
            slot->done = 1;
            flush();
            _exit(0);
        }
        pids[w] = pid;
    };
    for (unsigned w = 0; w < workers; ++w) {
        slots[w] = newSlot();
        spawn(w, w);
    }
    bool violated = false;
    Outcome bad;
    unsigned badSize = 50;
    uint64_t badIndex = 0;
    unsigned live = workers;
    unsigned long crashes = 0;
    while (live > 0) {
        int status = 0;
        std::vector<std::pair<pid_t, Slot*>> children;
        for (unsigned k = 0; k < workers; ++k) children.emplace_back(pids[k], slots[k]);
        pid_t pid = await(-1, &status, children);
        if (pid < 0) break;
        unsigned w = 0;
        while (w < workers && pids[w] != pid) ++w;
        if (w == workers) continue;
        --live;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && slots[w]->done) continue;
        Outcome o = outcomeFromSlot(slots[w], status, workDir + "/w" + std::to_string(w) + ".err");
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && slots[w]->failed != 2) {
            // ended from outside (memory): not an answer about the code
            std::cerr << "worker killed; no verdict for case " << slots[w]->index << std::endl;
            for (unsigned k = 0; k < workers; ++k) if (pids[k] != pid) kill(pids[k], SIGKILL);
            return 3;
        }
        bool isKnown = false;
        for (const auto& k : knownFindings) {
            if (k.property == config.id && k.key == o.key && o.message.find(k.pattern) != std::string::npos) {
                ++knownHits[k.what];
                isKnown = true;
                break;
            }
        }
        uint64_t idx = slots[w]->index;
        if (all && !isKnown) {
            auto& e = allKeys[o.key];
            if (e.first++ == 0) e.second = "case " + std::to_string(idx) + ": " + o.message.substr(0, 700);
            isKnown = true;
        }
        ++crashes;
        if (!isKnown) {
            violated = true;
            bad = o;
            badIndex = idx;
            badSize = static_cast<unsigned>(slots[w]->size);
            for (unsigned k = 0; k < workers; ++k) if (pids[k] != pid && pids[k] > 0) kill(pids[k], SIGKILL);
            while (waitpid(-1, &status, 0) > 0) {}
            break;
        }
        pids[w] = 0;
        if (now() - start <= seconds) { spawn(w, idx + workers); ++live; }
    }
    // collect
    Stats total;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    for (const auto& b : statFiles) {
        std::ifstream f(b);
        unsigned long e = 0, d = 0, c = 0, n = 0, k = 0;
        if (!(f >> e >> d >> c >> n)) continue;
        total.evaluations += e; total.discards += d; total.comparisons += c; total.nontrivial += n;
        for (auto* m : {&total.labels, &total.discardReasons}) {
            f >> k;
            while (k-- > 0) { unsigned long x; std::string l; f >> x; f.ignore(1); std::getline(f, l); (*m)[l] += x; }
        }
        f >> k;
        f.ignore(1);
        while (k-- > 0) { std::string l; std::getline(f, l); if (samples.size() < 4) samples.push_back(l); }
        std::ifstream h(b + ".h", std::ios::binary);
        uint64_t v;
        while (h.read(reinterpret_cast<char*>(&v), 8)) distinct.insert(v);
    }
    int rc = 0;
    std::string replayPath;
    if (violated) {
        std::cout << "case " << badIndex << " fails: key=" << bad.key << "\n" << bad.message.substr(0, 1500) << "\nshrinking..." << std::endl;
        Outcome first = bad;
        Outcome small = shrink(bad, badSize, thorough ? 180 : 60);
        // confirm: 3 replays of the final sequence must fail the same way
        auto confirm = [&](const Outcome& o) {
            unsigned k = 0;
            for (int i = 0; i < 3; ++i) { auto r = tryAll({o.used}, badSize); if (r[0].key == o.key) ++k; }
            return k;
        };
        unsigned k = confirm(small);
        if (k < 3) { small = first; k = confirm(first); }
        mkdir(replayDir.c_str(), 0755);
        uint64_t h = 1469598103934665603ULL;
        for (auto v : small.used) h = (h ^ v) * 1099511628211ULL;
        char name[64];
        snprintf(name, sizeof name, "/%s-%016" PRIx64 ".replay", config.id.c_str(), h);
        replayPath = replayDir + name;
        std::ofstream f(replayPath);
        f << "property: " << config.id << "\nsize: " << badSize << "\nkey: " << small.key << "\nseed: " << baseSeed << " case: " << badIndex << " confirmed: " << k << "/3\n";
        f << "choices: " << seqText(small.used) << "\n\nmessage:\n" << small.message << "\n\nhistory:\n" << small.trace << "\n";
        f.close();
        std::cout << "minimal reproduction (" << small.used.size() << " choices, confirmed " << k << "/3): key=" << small.key << "\n" << small.message.substr(0, 3000) << "\n" << small.trace.substr(0, 3000) << std::endl;
        if (k == 0 && small.kind == Kind::FAIL) {
            std::cout << "INCONCLUSIVE: the failure did not reproduce; no verdict" << std::endl;
            rc = 4;
        } else {
            std::cout << "VIOLATION property=" << config.id << " replay=" << replayPath << std::endl;
            rc = 1;
        }
    }
    for (const auto& k : knownHits) std::cout << "KNOWN-FINDING: property=" << config.id << " " << k.first << " (" << k.second << " cases)" << std::endl;
    for (const auto& k : allKeys) std::cout << "== " << k.first << "  x" << k.second.first << "\n   " << k.second.second << std::endl;
    const double wall = now() - start;
    std::cout << config.id << " " << tier << ": " << total.evaluations << " cases, " << distinct.size() << " distinct non-trivial, " << total.discards << " discarded, " << total.comparisons << " comparisons, " << wall << " s" << std::endl;
    for (const auto& l : total.labels) std::cout << "   " << l.first << ": " << l.second << "\n";
    for (const auto& l : total.discardReasons) std::cout << "   discard " << l.first << ": " << l.second << "\n";
    if (rc == 0 && !all) {
        for (const auto& l : config.requiredLabels) {
            if (!total.labels.count(l)) { std::cout << "generator health: no case reached '" << l << "'" << std::endl; }
        }
        if (total.evaluations == 0) { std::cout << "no case was evaluated" << std::endl; rc = 5; }
    }
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(config.id) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << baseSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << total.evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"discarded\": " << total.discards << ",\n  \"comparisons\": " << total.comparisons << ",\n";
        f << "  \"rule\": " << jstr(config.rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << samples[i];
        f << "],\n  \"labels\": {";
        bool firstLabel = true;
        for (const auto& l : total.labels) { f << (firstLabel ? "\n   " : ",\n   ") << jstr(l.first) << ": " << l.second; firstLabel = false; }
        f << "}\n },\n \"assumptions\": [";
        for (size_t i = 0; i < config.assumptions.size(); ++i) f << (i ? ", " : "") << jstr(config.assumptions[i]);
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
    }
    for (const auto& b : statFiles) { unlink(b.c_str()); unlink((b + ".h").c_str()); }
    for (unsigned i = 0; i < std::max(workers, 8u); ++i) {
        unlink((workDir + "/w" + std::to_string(i) + ".err").c_str());
        unlink((workDir + "/try" + std::to_string(i) + ".err").c_str());
    }
    rmdir(workDir.c_str());
    return rc;
}

}  // namespace pbt
