// Complete public state of a network as sorted (key, value) pairs.
#pragma once
#include "common.hpp"

namespace model {

enum DumpFlags : unsigned {
    STRUCT = 1,    // identity, structure and attributes shared by all variants
    STATE = 2,     // per variant state, read in the working variant
    TOPO = 4,      // calculated buses and the equipment on them
    COMP = 8,      // components
    EXT = 16,      // extensions
    LISTS = 32,    // network / container level listings and counts
    DERIVED = 64,  // values calculated from others (currents, boundaries, sums)
    ALL = 127
};

struct Val {
    std::string v;
    bool state;
    unsigned flag;
    bool operator==(const Val& o) const { return v == o.v; }
};
using Dump = std::map<std::string, Val>;

Dump dump(const iidm::Network& network, unsigned flags = ALL);

Dump only(const Dump& d, unsigned flags);  // the part of these kinds

// Differences, one per line ("key: a -> b"); empty when equal. `ignore` filters keys.
std::string diff(const Dump& a, const Dump& b, size_t max = 25, const std::function<bool(const std::string&)>& ignore = nullptr);
// Same as map key -> (a, b); "<none>" for absent
std::map<std::string, std::pair<std::string, std::string>> diffMap(const Dump& a, const Dump& b);

std::string termRef(const iidm::Terminal& t);
std::string termRef(const stdcxx::CReference<iidm::Terminal>& t);
unsigned sideOf(const iidm::Terminal& t);

}  // namespace model
