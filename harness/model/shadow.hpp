// Plain reference model of the topology of a network: objects, connection points and per variant positions,
// kept beside the real network by random operations, and direct computations of every topology view from it.
#pragma once
#include "common.hpp"

namespace shadow {

using namespace powsybl;
using iidm::Network;
using pbt::Case;

struct SwState { bool open = false, retained = false; };
struct TermState {
    std::string bus;         // bus/breaker: connectable bus
    bool connected = false;  // bus/breaker only
    double v = NAN, angle = NAN;  // node/breaker only
};
struct BusState { double v = NAN, angle = NAN; };
struct VState {
    std::map<std::string, SwState> sw;
    std::map<std::string, TermState> term;
    std::map<std::string, BusState> bus;
};
struct Sw {
    std::string id, vl;
    unsigned long n1 = 0, n2 = 0;
    std::string b1, b2;
    iidm::SwitchKind kind;
    bool fictitious = false;
};
struct Term {
    std::string eq;
    unsigned side = 1;
    std::string vl;
    bool nb = true;
    unsigned long node = 0;
    std::string key() const { return eq + "#" + std::to_string(side); }
};
struct Eq {
    std::string id, type;
    std::vector<Term> terms;
    bool bbs() const { return type == "BBS"; }
    bool branch() const { return type == "LINE" || type == "TIE" || type == "T2" || type == "T3" || type == "LCC" || type == "VSC" || type == "DL"; }
    bool station() const { return type == "LCC" || type == "VSC"; }
};
struct Level {
    std::string id, name, sub;
    bool nb = true, fictitious = false;
    std::set<std::string> buses;
    std::vector<std::pair<unsigned long, unsigned long>> internals;
};
struct Hvdc { std::string id, s1, s2; };

// A set of nodes / configured buses joined together and what is connected to it.
struct Group {
    std::set<unsigned long> nodes;
    std::set<std::string> buses;
    std::set<std::string> terms;
    std::string id;      // node/breaker: expected id
    bool valid = true;   // is it a bus of the bus view?
};

struct Model {
    std::map<std::string, std::string> subs;  // id -> id
    std::map<std::string, Level> levels;
    std::map<std::string, Sw> sws;
    std::map<std::string, Eq> eqs;
    std::map<std::string, Hvdc> hvdcs;
    std::map<std::string, VState> variants;
    std::string working;

    VState& now() { return variants.at(working); }
    const VState& now() const { return variants.at(working); }
    std::vector<const Term*> termsOf(const std::string& vl) const;
    // nodes that exist: with equipment or at the end of a switch or internal connection
    std::set<unsigned long> nodes(const Level& l) const;
    // groups of the bus view (retainedToo = false) or of the bus/breaker view (true) of a node/breaker level
    std::vector<Group> nodeGroups(const Level& l, const VState& v, bool retainedToo) const;
    // merged buses of a bus/breaker level
    std::vector<Group> busGroups(const Level& l, const VState& v) const;
    bool validBus(const Level& l, const Group& g) const;
    // simple paths from a node to the first busbar section met, without open switches other than breakers
    // (switch ids in order, "" for an internal connection)
    std::vector<std::vector<std::string>> pathsToBusbars(const Level& l, const VState& v, unsigned long node) const;
    // is the node joined to a busbar section (other than the one on it) by closed switches?
    bool joinedToBusbar(const Level& l, const VState& v, unsigned long node) const;
};

struct Limits {
    int kind = 0;  // 0 both, 1 node/breaker levels only, 2 bus/breaker levels only
    unsigned substations = 2, levels = 3;
    bool removals = true, variants = true, branches = true, voltages = true;
    unsigned hvdc = 4;  // weight
    bool connects = true;  // uses Terminal::connect / disconnect on bus/breaker terminals
    unsigned busbars = 12; // weight of busbar sections
};

class Topo {
public:
    Topo(Case& c, Network& n, const Limits& l);
    Case& c;
    Network& n;
    Limits lim;
    Model m;
    unsigned counter = 0;
    unsigned m_verified = 0;

    void build(unsigned size);
    // one random operation; returns its description ("" when nothing was possible)
    std::string step();
    // compares every view of every level with the model in the working variant
    void verify(const std::string& context);
    void verifyComponents(const std::string& context);

    // operations
    std::string addSubstation();
    std::string addLevel();
    std::string addBus(Level& l);
    std::string addSwitch(Level& l);
    std::string addInternal(Level& l);
    std::string addEquipment(Level& l, const std::string& type);
    std::string addBranch(const std::string& type);
    std::string addHvdc();
    std::string removeEquipment();
    std::string removeSwitch();
    std::string removeAllSwitches();
    std::string removeInternals();
    std::string removeBus();
    std::string removeHvdc();
    std::string removeLevel();
    std::string operate();
    std::string retain();
    std::string moveTerminal();
    std::string connectBus();
    // connection request on a terminal of a node/breaker level, compared with the direct computation
    std::string requestNode(const Term& t, bool on, bool& result);
    // feeder bay: equipment - breaker - disconnector to each of some busbar sections
    std::string addBay(Level& l);
    std::string variantOp();
    std::string setVoltage();

    iidm::Terminal& terminal(const Term& t);
    Level* pickLevel(int kind = 0);
    const Term* pickTerm(int kind = 0);
    std::string id(const std::string& prefix) { return prefix + std::to_string(counter++); }

private:
    struct Spot { Level* l = nullptr; unsigned long node = 0; std::string bus; bool connected = true; };
    Spot spot(Level& l, const std::vector<Spot>& used = {});
    unsigned long anyNode(Level& l, bool mustBeFree, const std::vector<Spot>& used = {});
    void registerEq(const std::string& id, const std::string& type, const std::vector<Spot>& spots);
    void checkBusRef(const Term& t, iidm::TopologyLevel level, const std::string& want, const std::string& what);
    void verifyNodeLevel(const Level& l, const std::string& context);
    void verifyBusLevel(const Level& l, const std::string& context);
    void verifyBusContent(iidm::Bus& b, const Group& g, const Level& l, const std::string& what);
};

// bus of the bus view (as a group number) of every terminal, over the whole network
struct BusIndex {
    std::vector<Group> groups;
    std::vector<std::string> levelOf;
    std::map<std::string, int> ofTerm;  // -1: none
};
BusIndex busIndex(const Model& m);

// connected (or synchronous) components: component of every bus of the index
struct Components {
    std::map<int, unsigned> of;
    std::map<unsigned, std::set<int>> comps;
    size_t count = 0;
    bool acrossLevels = false;  // one component joins buses of two levels
};
Components components(const Model& m, bool synchronous);

}  // namespace shadow
