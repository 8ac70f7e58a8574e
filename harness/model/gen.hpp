// Random construction and modification of networks through the public API.
// Every operation predicts whether the library must accept it, and what must be readable afterwards.
#pragma once
#include "common.hpp"
#include "dump.hpp"

namespace gen {

using pbt::Case;
using pbt::Src;

enum K { FIN, FIN_N, POS, POS_N, NONNEG, NONNEG_N, PCT, UNIT };
bool kindOk(K k, double v);

// What one operation tried and what must hold after it.
struct Rec {
    std::string what;                           // description
    bool ok = true;                             // must be accepted
    std::string why;                            // first reason for refusal
    std::map<std::string, std::string> exp;     // dump key -> value after success
    std::set<std::string> also;                 // other dump keys that may change
    std::string id;                             // object concerned / created
    std::string prefix;                         // dump prefix of a created object
    bool skipped = true;                        // nothing was tried
    bool accepted = false;
    bool otherException = false;                // refused with something else than a library exception
    std::string error;
    bool unspecified = false;                   // acceptance not defined by the property
    bool state = false;                         // set: per variant attribute
    std::string extName;                        // extension concerned
    int extKind = -1;
    std::set<std::string> removed;              // ids of the objects removed
    std::string knownDefect;                    // key of the known finding this operation runs into
    std::string measurement;                    // text of a new measurement
    void bad(const std::string& reason) { if (ok) { ok = false; why = reason; } }
    void e(const std::string& attr, const std::string& v) { exp[prefix.empty() ? attr : prefix + "." + attr] = v; }
    void e(const std::string& attr, const char* v) { e(attr, std::string(v)); }
    void e(const std::string& attr, double v) { e(attr, pbt::hex(v)); }
    void e(const std::string& attr, bool v) { e(attr, std::string(v ? "true" : "false")); }
    void e(const std::string& attr, unsigned long v) { e(attr, std::to_string(v)); }
    void e(const std::string& attr, long v) { e(attr, std::to_string(v)); }
    void e(const std::string& attr, int v) { e(attr, std::to_string(v)); }
};

struct Options {
    bool wild = false;          // also invalid and conflicting data
    unsigned wildPct = 12;      // per field
    bool extreme = true;        // unusual finite numbers
    bool nasty = true;          // unusual text
    bool specialIds = false;    // ids with unusual text as well
    bool infinite = false;      // infinities
    bool regulation = true;
    bool remoteRegulation = true;
    unsigned maxSubstations = 3;
    unsigned maxLevels = 4;
    unsigned maxEquipment = 12;
    int kind = 0;               // 0 any, 1 node/breaker only, 2 bus/breaker only
    bool extensions = false;
    bool variants = false;
    bool busAttached = true;
    bool wrongOwners = false;   // (unused kinds of owners for extensions)
    bool serializableOnly = false;  // only extensions with an XML form
    bool knownDefects = false;  // also the operations concerned by known findings
    bool danglingRemovals = false;  // also removals of equipment whose terminal another object refers to
    bool selfLoops = false;     // switches and internal connections with both ends on one node
};

template <typename T> std::vector<T*> sortedById(std::vector<T*> v) {
    std::sort(v.begin(), v.end(), [](const T* a, const T* b) { return a->getId() < b->getId(); });
    return v;
}

class World {
public:
    World(Case& c, Network& n, const Options& o) : c(c), s(c.s), n(n), o(o) {}
    Case& c;
    Src& s;
    Network& n;
    Options o;
    Network* other = nullptr;  // a foreign network, for references that must be refused
    Rec last;
    unsigned counter = 0;
    unsigned long accepted = 0, refused = 0, mismatched = 0;

    // ---- values
    double num(K k);
    double num(Rec& r, K k, const std::string& what, const std::vector<double>& hints = {});
    std::string text();        // any text
    std::string word();        // non empty text
    std::string newId(const std::string& prefix);
    // set id / name / fictitious / unicity on an adder
    template <typename A> void ident(A& a, Rec& r, const std::string& type, const std::string& prefix);

    // ---- objects (sorted by id)
    std::vector<iidm::Substation*> substations();
    std::vector<iidm::VoltageLevel*> levels(int kind = 0);
    std::vector<iidm::Connectable*> connectables();
    std::vector<iidm::Terminal*> terminals();
    std::vector<iidm::Switch*> switches();
    std::vector<iidm::Bus*> configuredBuses();
    std::vector<iidm::HvdcLine*> hvdcLines();
    std::vector<iidm::Identifiable*> identifiables();
    iidm::Identifiable* pickVaried();  // every kind of object with the same probability
    template <typename T> std::vector<T*> all() {
        std::vector<T*> v;
        for (auto& x : n.getConnectables<T>()) v.push_back(&x);
        return sortedById(v);
    }
    template <typename T> T* pickOne(const std::vector<T*>& v) { return v.empty() ? nullptr : v[s.draw(v.size())]; }
    std::vector<unsigned long> nodesOf(iidm::VoltageLevel& vl);

    // ---- creation; each fills `last`
    void addSubstation();
    void addVoltageLevel(iidm::Substation& sub, int kind = 0);
    void addBus(iidm::VoltageLevel& vl);
    void addBusbarSection(iidm::VoltageLevel& vl);
    void addSwitch(iidm::VoltageLevel& vl);
    void addInternalConnection(iidm::VoltageLevel& vl);
    void addLoad(iidm::VoltageLevel& vl);
    void addGenerator(iidm::VoltageLevel& vl);
    void addBattery(iidm::VoltageLevel& vl);
    void addShunt(iidm::VoltageLevel& vl);
    void addSvc(iidm::VoltageLevel& vl);
    void addDanglingLine(iidm::VoltageLevel& vl);
    void addLcc(iidm::VoltageLevel& vl);
    void addVsc(iidm::VoltageLevel& vl);
    void addHvdcLine();
    void addLine();
    void addTieLine();
    void addT2();
    void addT3();
    void addRatioTapChanger();
    void addPhaseTapChanger();
    void addLimits();
    void addReactiveLimits();
    void addInjection(iidm::VoltageLevel& vl);   // random type
    void addAny();                               // anything

    // ---- changes; each fills `last`
    void set(bool stateOnly = false);                          // random attribute of a random object
    void setOn(iidm::Identifiable& i, bool stateOnly = false);
    void switchOp();
    void connectOp();                             // connect / disconnect a terminal
    void setConnectableBus();
    void property();
    void alias();
    void extension();                             // add / modify / remove an extension
    void extensionOn(iidm::Identifiable& i, int kind = -1);
    void variantOp();
    void removeOp(bool containers);
    // (holder, equipment) of the references of one object to the terminal of another
    std::set<std::pair<std::string, std::string>> terminalReferences();
    bool leavesDangling(const std::set<std::string>& removed);

    // ---- composed
    void build();
    void buildTopology(iidm::VoltageLevel& vl);
    void randomState(unsigned count);

    // runs fn, fills last.accepted
    void attempt(Rec& r, const std::function<void()>& fn);
    // fails the case when prediction and outcome differ (for properties about acceptance)
    void requirePrediction(const std::string& key);

    struct Place {
        iidm::VoltageLevel* vl = nullptr;
        stdcxx::optional<unsigned long> node;
        std::string bus, cbus;
    };
    Place place(Rec& r, iidm::VoltageLevel& vl, const std::vector<Place>& used = {});
    void expectPlace(Rec& r, const Place& p, unsigned side);
    bool wild() { return o.wild && s.chance(o.wildPct); }
    stdcxx::Reference<iidm::Terminal> regTerminal(Rec& r, bool* foreign = nullptr);
};

struct TapSite {
    iidm::Connectable* owner;
    std::string key;  // dump key
    iidm::RatioTapChangerHolder* ratio;
    iidm::PhaseTapChangerHolder* phase;
    unsigned side;
};
std::vector<TapSite> tapSites(World& w);
// is another tap changer of the same transformer regulating in the working variant?
bool otherRegulating(const TapSite& t, bool ratio);

// Attributes of an object that can be set.
struct SetOp {
    Rec r;
    std::function<void()> apply;
};
using SetGen = std::function<SetOp()>;
std::vector<SetGen> setters(World& w, iidm::Identifiable& i, bool stateOnly);

enum ExtKind { ADD, SET, REMOVE, STATE_SET };  // STATE_SET: as a filter, the SETs of data that depend on the variant
struct ExtGen {
    int kind;
    std::string name;
    std::function<SetOp()> make;
    bool state;
};
std::vector<ExtGen> extensionOps(World& w, iidm::Identifiable& i);

const std::vector<std::string>& textPool();
const std::vector<std::string>& idPool();

// dump prefix of an identifiable ("eq:", "sw:", ...)
std::string prefixOf(const iidm::Identifiable& i);

// dumps of every variant, keeping the working variant
std::map<std::string, model::Dump> dumpVariants(Network& n, unsigned flags);
std::string diffVariants(const std::map<std::string, model::Dump>& a, const std::map<std::string, model::Dump>& b, const std::function<bool(const std::string&)>& ignore = nullptr);

}  // namespace gen
