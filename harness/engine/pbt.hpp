// Property-based testing engine: every case is a pure function of a sequence of choices.
// The random driver records the choices, the shrinker edits them, the replay file stores them.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

// Thrown when a property does not hold. `key` names the violated clause (stable over shrinking).
struct Failure {
    std::string key;
    std::string message;
};

// Thrown when a case cannot be evaluated (precondition of the generator): counted as discarded.
struct Discard {
    std::string why;
};

class Src {
public:
    // random mode
    Src(uint64_t seed, uint64_t* shm, size_t cap);
    // replay mode
    Src(const std::vector<uint64_t>& replay, uint64_t* shm, size_t cap);

    // uniform in [0, n); 0 is the simplest value. n >= 1
    uint64_t draw(uint64_t n);
    // true with probability num/den (false is the simplest value)
    bool chance(unsigned num, unsigned den = 100);
    // integer in [lo, hi]
    long range(long lo, long hi) { return lo + static_cast<long>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v.at(draw(v.size())); }
    template <typename T> T pickOf(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
    // index drawn with the given weights
    size_t weighted(std::initializer_list<unsigned> weights);
    size_t weighted(const std::vector<unsigned>& weights);
    // should a loop continue? mean about `mean` iterations; 0 ends the loop
    bool more(unsigned mean) { return draw(mean + 1) != 0; }
    bool exhausted() const { return m_replay && m_pos >= m_replay->size(); }

    // copies every choice to `to` (nullptr stops), so that another Src can repeat them
    void record(std::vector<uint64_t>* to) { m_record = to; }
    size_t count() const { return m_pos; }
    uint64_t hash() const { return m_hash; }

private:
    uint64_t next();
    const std::vector<uint64_t>* m_replay = nullptr;
    std::vector<uint64_t>* m_record = nullptr;
    std::vector<uint64_t> m_store;
    uint64_t m_state[4] = {0, 0, 0, 0};
    uint64_t* m_shm = nullptr;  // [0] = count, then values
    size_t m_cap = 0;
    size_t m_pos = 0;
    uint64_t m_hash = 1469598103934665603ULL;
};

class Case {
public:
    explicit Case(Src& src, bool verbose, unsigned size) : s(src), m_verbose(verbose), m_size(size) {}
    Src& s;

    // size hint in [1, 100]
    unsigned size() const { return m_size; }
    bool verbose() const { return m_verbose; }
    // human readable history of the case
    void note(const std::string& line);
    const std::string& trace() const { return m_trace; }

    void nontrivial() { m_nontrivial = true; }
    void nontrivial(bool b) { m_nontrivial = m_nontrivial || b; }
    bool isNontrivial() const { return m_nontrivial; }
    void label(const std::string& l) { m_labels.insert(l); }
    const std::set<std::string>& labels() const { return m_labels; }
    // number of oracle comparisons made
    void compared(unsigned long n = 1) { m_compared += n; }
    unsigned long comparisons() const { return m_compared; }

    [[noreturn]] void fail(const std::string& key, const std::string& message);
    void check(bool cond, const std::string& key, const std::string& message = "") {
        ++m_compared;
        if (!cond) fail(key, message);
    }
    template <typename A, typename B> void checkEq(const A& actual, const B& expected, const std::string& key, const std::string& context = "") {
        ++m_compared;
        if (!(actual == expected)) {
            std::ostringstream o;
            o << context << " actual=" << actual << " expected=" << expected;
            fail(key, o.str());
        }
    }

private:
    bool m_verbose;
    unsigned m_size;
    bool m_nontrivial = false;
    unsigned long m_compared = 0;
    std::string m_trace;
    std::set<std::string> m_labels;
};

struct Config {
    std::string id;                      // property id
    std::string rule;                    // how cases are made and what non-trivial means
    unsigned long quick = 20000;         // cases in the quick tier
    unsigned long thorough = 2000000;    // cases in the thorough tier
    double quickSeconds = 120;           // safety cap
    double thoroughSeconds = 3000;
    unsigned caseCpuSeconds = 30;        // more CPU than this for one case is a hang
    unsigned caseWallSeconds = 0;        // the same for elapsed time (0: no limit)
    std::vector<std::string> assumptions;
    std::vector<std::string> requiredLabels;  // generator health: labels that must have been reached
};

int runMain(int argc, char** argv, const Config& config, const std::function<void(Case&)>& property);

std::string hex(double d);
std::string show(double d);
std::string quote(const std::string& s);

}  // namespace pbt
