// C30: an adder creates what it was told, whatever the way it was told.
#include "../model/gen.hpp"
#include "../model/xml.hpp"

using namespace gen;
using model::Dump;

namespace {

using Sets = std::map<unsigned, unsigned>;  // field -> value

// a field of an adder: valid values first
template <typename A>
struct Field {
    std::string name;
    unsigned valid, count;
    std::function<void(A&, unsigned, Network&)> set;
};

template <typename A, typename D>
struct Fields {
    std::vector<Field<A>> fields;
    bool repeats = true;
    template <typename V, typename F>
    D& f(const std::string& name, std::vector<V> valid, std::vector<V> bad, F fn) {
        const unsigned v = static_cast<unsigned>(valid.size());
        valid.insert(valid.end(), bad.begin(), bad.end());
        const unsigned n = static_cast<unsigned>(valid.size());
        fields.push_back({name, v, n, [valid, fn](A& a, unsigned k, Network& net) { fn(a, valid.at(k), net); (void)net; }});
        return static_cast<D&>(*this);
    }
    std::pair<unsigned, unsigned> any(Src& s) const {
        const unsigned k = static_cast<unsigned>(s.draw(fields.size()));
        return {k, value(s, k)};
    }
    unsigned value(Src& s, unsigned k) const {
        return static_cast<unsigned>(s.chance(94) ? s.draw(fields[k].valid) : s.draw(fields[k].count));
    }
    // the fields in a random order, some several times
    std::vector<std::pair<unsigned, unsigned>> fill(Src& s) const {
        std::vector<std::pair<unsigned, unsigned>> r;
        std::vector<unsigned> order;
        for (unsigned k = 0; k < fields.size(); ++k) order.push_back(k);
        for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[s.draw(k)]);
        for (unsigned k : order) if (s.chance(90)) r.emplace_back(k, value(s, k));
        if (repeats && !fields.empty()) while (s.chance(30)) r.emplace_back(any(s));
        return r;
    }
};

// an adder inside an adder: a leg, a half line, a step, a point, a limit, a section, a model, a generation, a feeder
struct Step { bool end; unsigned field, value; };
template <typename A>
struct SubBase {
    std::string name;
    bool required = false;
    unsigned most = 1;      // usual number
    virtual ~SubBase() = default;
    virtual std::vector<Step> program(Src& s) const = 0;
    virtual void run(A& a, Network& n, const std::vector<Step>& p) const = 0;   // may throw at an end
    virtual std::string show(const std::vector<Step>& p) const = 0;
};
template <typename A, typename B>
struct Sub : SubBase<A>, Fields<B, Sub<A, B>> {
    std::function<B(A&)> begin;
    std::function<void(B&)> end;
    bool twice = true;
    std::vector<Step> program(Src& s) const override {
        std::vector<Step> p;
        for (const auto& x : this->fill(s)) p.push_back({false, x.first, x.second});
        p.push_back({true, 0, 0});
        while (twice && s.chance(15)) {
            while (s.chance(60)) { const auto x = this->any(s); p.push_back({false, x.first, x.second}); }
            p.push_back({true, 0, 0});
        }
        return p;
    }
    void run(A& a, Network& n, const std::vector<Step>& p) const override {
        B b = begin(a);
        for (const Step& x : p) {
            if (x.end) end(b);
            else this->fields[x.field].set(b, x.value, n);
        }
    }
    std::string show(const std::vector<Step>& p) const override {
        std::string r = this->name + ":";
        for (const Step& x : p) r += x.end ? " end" : " " + this->fields[x.field].name + "=#" + std::to_string(x.value);
        return r;
    }
};

struct Outcome {
    std::string error, result;
    bool operator==(const Outcome& o) const { return error == o.error && result == o.result; }
};
template <typename F>
Outcome attempt(F f) {
    Outcome r;
    try {
        r.result = f();
    } catch (const std::exception& e) {
        r.error = e.what();
        if (r.error.empty()) r.error = "?";
    }
    return r;
}

std::string toXmlOrError(const Network& n) {
    try {
        return model::toXml(n);
    } catch (const std::exception& e) {
        return e.what();
    }
}

template <typename A>
struct Kind : Fields<A, Kind<A>> {
    std::string name;
    std::function<A(Network&)> make;
    std::function<std::string(A&)> add;
    std::vector<std::unique_ptr<SubBase<A>>> subs;

    template <typename Begin, typename End>
    auto sub(const std::string& n, bool required, unsigned most, Begin begin, End end) -> Sub<A, decltype(begin(std::declval<A&>()))>& {
        using B = decltype(begin(std::declval<A&>()));
        auto p = std::make_unique<Sub<A, B>>();
        Sub<A, B>& r = *p;
        r.name = n; r.required = required; r.most = most; r.begin = begin; r.end = end;
        subs.push_back(std::move(p));
        return r;
    }

    struct Live {
        std::unique_ptr<A> a;
        unsigned number;
        Sets sets;
        std::vector<std::pair<unsigned, std::vector<Step>>> items;  // ended once each
    };

    template <typename T> static std::enable_if_t<std::is_copy_constructible<T>::value, std::unique_ptr<T>> copyOf(const T& a) { return std::make_unique<T>(a); }
    template <typename T> static std::enable_if_t<!std::is_copy_constructible<T>::value, std::unique_ptr<T>> copyOf(const T&) { return nullptr; }

    template <typename T> static std::enable_if_t<std::is_move_constructible<T>::value, std::unique_ptr<T>> moveOf(T& a) { return std::make_unique<T>(std::move(a)); }
    template <typename T> static std::enable_if_t<!std::is_move_constructible<T>::value, std::unique_ptr<T>> moveOf(T&) { return nullptr; }

    // in the second network: a new adder, the same values, in the order of the table
    std::unique_ptr<A> fresh(Network& n, const Live& l, bool itemsFirst) const {
        std::unique_ptr<A> a(new A(make(n)));
        const auto items = [&]() { for (const auto& i : l.items) subs[i.first]->run(*a, n, i.second); };
        if (itemsFirst) items();
        for (const auto& x : l.sets) this->fields[x.first].set(*a, x.second, n);
        if (!itemsFirst) items();
        return a;
    }

    void run(pbt::Case& c, Network& n1, Network& n2) const {
        Src& s = c.s;
        c.label(name);
        std::vector<Live> lives;
        unsigned number = 0, added = 0, refused = 0, copies = 0, again = 0, orphans = 0;
        std::set<unsigned> used;
        const auto set = [&](Live& l, unsigned k, unsigned v) {
            c.note("adder " + std::to_string(l.number) + ": " + this->fields[k].name + " = #" + std::to_string(v));
            this->fields[k].set(*l.a, v, n1);
            l.sets[k] = v;
        };
        const auto inner = [&](Live& l, unsigned k) {
            const std::vector<Step> p = subs[k]->program(s);
            c.note("adder " + std::to_string(l.number) + ": " + subs[k]->show(p));
            const Outcome o = attempt([&]() { subs[k]->run(*l.a, n1, p); return std::string(); });
            // the same, each end by a new inner adder
            const bool first = s.chance(50);
            Outcome t;
            std::vector<std::vector<Step>> done;
            const std::unique_ptr<A> twin = fresh(n2, l, first);
            Sets now;
            for (const Step& x : p) {
                if (!x.end) { now[x.field] = x.value; continue; }
                std::vector<Step> q;
                for (const auto& y : now) q.push_back({false, y.first, y.second});
                q.push_back({true, 0, 0});
                t = attempt([&]() { subs[k]->run(*twin, n2, q); return std::string(); });
                if (!t.error.empty()) break;
                done.push_back(q);
            }
            c.check(o == t, "inner-adder-differs", name + ", " + subs[k]->show(p) + ": '" + o.error + "' and with new adders '" + t.error + "'");
            for (auto& q : done) l.items.emplace_back(k, q);
        };
        const auto start = [&]() {
            lives.push_back({std::unique_ptr<A>(new A(make(n1))), number++, {}, {}});
            c.note("adder " + std::to_string(lives.back().number) + " of " + name);
            std::vector<unsigned> todo;
            for (unsigned k = 0; k < subs.size(); ++k) {
                unsigned t = subs[k]->required ? subs[k]->most == 1 ? 1 : 1 + static_cast<unsigned>(s.draw(subs[k]->most)) : s.chance(50) ? static_cast<unsigned>(s.draw(subs[k]->most + 1)) : 0;
                if (s.chance(4)) t = 0;
                for (; t > 0; --t) todo.push_back(k);
            }
            const auto f = this->fill(s);
            const size_t at = s.draw(f.size() + 1);
            for (size_t k = 0; k < f.size(); ++k) {
                if (k == at) for (unsigned x : todo) inner(lives.back(), x);
                set(lives.back(), f[k].first, f[k].second);
            }
            if (at == f.size()) for (unsigned x : todo) inner(lives.back(), x);
        };
        start();
        for (unsigned k = 3 + static_cast<unsigned>(s.draw(14)); k > 0; --k) {
            Live& l = lives[s.draw(lives.size())];
            switch (s.weighted({30, 12, 8, 4, 30, 4})) {
                case 0: if (!this->fields.empty()) { const auto x = this->any(s); set(l, x.first, x.second); } break;
                case 1: if (!subs.empty()) inner(l, static_cast<unsigned>(s.draw(subs.size()))); break;
                case 2: {
                    if (s.chance(25)) {
                        std::unique_ptr<A> q = moveOf(*l.a);
                        if (!q) break;
                        c.note("adder " + std::to_string(l.number) + " moves");
                        l.a = std::move(q);
                        c.label("moved");
                        break;
                    }
                    if (lives.size() > 5) break;
                    std::unique_ptr<A> p = copyOf(*l.a);
                    if (!p) break;
                    c.note("adder " + std::to_string(number) + " is a copy of adder " + std::to_string(l.number));
                    Live m{std::move(p), number++, l.sets, l.items};
                    lives.push_back(std::move(m));
                    ++copies;
                    break;
                }
                case 3: {
                    if (lives.size() < 2) break;
                    const size_t i = s.draw(lives.size());
                    c.note("end of adder " + std::to_string(lives[i].number));
                    lives.erase(lives.begin() + static_cast<long>(i));
                    ++orphans;
                    break;
                }
                case 4: {
                    c.note("adder " + std::to_string(l.number) + " adds");
                    const Outcome o = attempt([&]() { return add(*l.a); });
                    const bool first = s.chance(50);
                    const Outcome t = attempt([&]() { return add(*fresh(n2, l, first)); });
                    c.note(o.error.empty() ? "added " + o.result : "refused: " + o.error);
                    c.check(o == t, "adder-differs", name + ": " + (o.error.empty() ? "adds '" + o.result + "'" : "refuses: " + o.error) + ", a new adder given the same values " + (t.error.empty() ? "adds '" + t.result + "'" : "refuses: " + t.error));
                    if (o.error.empty()) {
                        ++added;
                        if (!used.insert(l.number).second) { ++again; c.label("added again"); }
                    } else {
                        ++refused;
                        c.label("refused");
                    }
                    break;
                }
                default: if (lives.size() < 4) start();
            }
        }
        if (copies > 0) c.label("copies");
        if (orphans > 0) c.label("copy or original ended");
        lives.clear();
        const std::string d = diffVariants(dumpVariants(n1, model::ALL), dumpVariants(n2, model::ALL));
        c.check(d.empty(), "created-differently", name + ":\n" + d);
        c.check(toXmlOrError(n1) == toXmlOrError(n2), "document-differs", name);
        c.nontrivial(added > 1 || (added == 1 && refused > 0));
    }
};

template <typename M>
auto kind(const std::string& name, M make) -> Kind<decltype(make(std::declval<Network&>()))> {
    Kind<decltype(make(std::declval<Network&>()))> k;
    k.name = name;
    k.make = make;
    return k;
}

}  // namespace

#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>

namespace {

using namespace powsybl::iidm;
namespace ex = powsybl::iidm::extensions;
using L = unsigned long;
using S = std::string;

// a field whose setter takes the value
#define V(type, setter, ...) template f<type>(#setter, __VA_ARGS__, [](auto& a, const type& v, Network&) { a.setter(v); })
// values in braces
#define LIST(...) {__VA_ARGS__}

const double NaN = std::numeric_limits<double>::quiet_NaN();

void base(Network& n) {
    n.setCaseDate(stdcxx::DateTime::parse("2020-01-01T00:00:00.000Z"));
    Substation& s1 = n.newSubstation().setId("S1").setCountry(Country::FR).add();
    Substation& s2 = n.newSubstation().setId("S2").setCountry(Country::BE).add();
    VoltageLevel& n1 = s1.newVoltageLevel().setId("N1").setTopologyKind(TopologyKind::NODE_BREAKER).setNominalV(100).add();
    VoltageLevel& b1 = s1.newVoltageLevel().setId("B1").setTopologyKind(TopologyKind::BUS_BREAKER).setNominalV(200).add();
    VoltageLevel& b2 = s2.newVoltageLevel().setId("B2").setTopologyKind(TopologyKind::BUS_BREAKER).setNominalV(200).add();
    for (const auto& id : {"b1", "b2"}) b1.getBusBreakerView().newBus().setId(id).add();
    for (const auto& id : {"c1", "c2"}) b2.getBusBreakerView().newBus().setId(id).add();
    n1.getNodeBreakerView().newBusbarSection().setId("bbs").setNode(0).add();
    for (L k = 1; k < 8; ++k) n1.getNodeBreakerView().newSwitch().setId("sw" + std::to_string(k)).setKind(SwitchKind::BREAKER).setNode1(0).setNode2(k).setOpen(k == 7).add();
    n1.newGenerator().setId("gen").setNode(1).setMinP(0).setMaxP(100).setTargetP(50).setTargetV(100).setTargetQ(10).setVoltageRegulatorOn(false).add();
    b1.newLoad().setId("load").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(2).add();
    b1.newBattery().setId("bat").setBus("b1").setConnectableBus("b1").setP0(1).setQ0(2).setMinP(-10).setMaxP(10).add();
    b2.newStaticVarCompensator().setId("svc").setBus("c1").setConnectableBus("c1").setBmin(-1).setBmax(1).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add();
    b1.newDanglingLine().setId("dl").setBus("b2").setConnectableBus("b2").setP0(1).setQ0(1).setR(1).setX(1).setG(0).setB(0).add();
    n.newLine().setId("line").setVoltageLevel1("B1").setBus1("b1").setConnectableBus1("b1").setVoltageLevel2("B2").setBus2("c1").setConnectableBus2("c1").setR(1).setX(2).setG1(0).setB1(0).setG2(0).setB2(0).add();
    s1.newTwoWindingsTransformer().setId("t2").setVoltageLevel1("N1").setNode1(2).setVoltageLevel2("B1").setBus2("b1").setConnectableBus2("b1").setR(1).setX(2).setG(0).setB(0).setRatedU1(100).setRatedU2(200).add();
    s1.newThreeWindingsTransformer().setId("t3")
        .newLeg1().setVoltageLevel("N1").setNode(3).setR(1).setX(1).setG(0).setB(0).setRatedU(100).add()
        .newLeg2().setVoltageLevel("B1").setBus("b1").setConnectableBus("b1").setR(1).setX(1).setG(0).setB(0).setRatedU(200).add()
        .newLeg3().setVoltageLevel("B1").setBus("b2").setConnectableBus("b2").setR(1).setX(1).setG(0).setB(0).setRatedU(200).add()
        .add();
    for (const auto& id : {"vsc1", "vsc2", "vsc3"}) b1.newVscConverterStation().setId(id).setBus("b1").setConnectableBus("b1").setLossFactor(1).setVoltageRegulatorOn(true).setVoltageSetpoint(100).add();
    for (const auto& id : {"vsc4", "vsc5", "vsc6"}) b2.newVscConverterStation().setId(id).setBus("c1").setConnectableBus("c1").setLossFactor(1).setVoltageRegulatorOn(true).setVoltageSetpoint(100).add();
    for (const auto& id : {"lcc1", "lcc2"}) b2.newLccConverterStation().setId(id).setBus("c1").setConnectableBus("c1").setLossFactor(1).setPowerFactor(0.5).add();
    n.newHvdcLine().setId("hvdc").setConverterStationId1("vsc1").setConverterStationId2("vsc4").setR(1).setNominalV(300).setMaxP(10).setActivePowerSetpoint(5).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).add();
    n.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "v");
}

// fields of every identified object
template <typename K> void ident(K& k) {
    k.V(S, setId, LIST("A", "B", "C", "D"), LIST("", "gen", "S1"))
     .V(S, setName, LIST("name", "other name", ""), {})
     .V(bool, setEnsureIdUnicity, LIST(false, true, true), {})
     .V(bool, setFictitious, LIST(true, false), {});
}
template <typename K> void place(K& k, bool node) {
    if (node) k.V(L, setNode, LIST(4, 5, 6, 7, 20, 21), LIST(0, 1));
    else k.V(S, setBus, LIST("b1", "b2", "b1", ""), LIST("none", "c1")).V(S, setConnectableBus, LIST("b1", "b2", "b2"), LIST("", "none"));
    if (node) k.V(S, setBus, LIST(""), LIST("b1"));
}
template <typename K> void sides(K& k) {
    k.V(S, setVoltageLevel1, LIST("B1", "B1", "N1"), LIST("none", ""))
     .V(S, setBus1, LIST("b1", "b2", ""), LIST("c1"))
     .V(S, setConnectableBus1, LIST("b1", "b2"), LIST("", "none"))
     .V(S, setBus2, LIST("c1", "c2", ""), LIST("none"))
     .V(S, setConnectableBus2, LIST("c1", "c2"), LIST("", "b1"))
     .V(S, setVoltageLevel2, LIST("B2"), LIST("B1"));
}
template <typename K> void identAdd(K& k) {
    k.add = [](auto& a) { return a.add().getId(); };
}
const std::vector<double> ANY{1, 0, -2.5, 1e-3};

stdcxx::Reference<Terminal> terminal(Network& n, const S& id) {
    if (id.empty()) return {};
    return id == "gen" ? stdcxx::ref(n.getGenerator(id).getTerminal()) : id == "load" ? stdcxx::ref(n.getLoad(id).getTerminal()) : stdcxx::ref(n.getLine(id).getTerminal1());
}
template <typename K> void regulating(K& k, const S& name) {
    k.template f<S>(name, {"gen", "load", "line", ""}, {}, [](auto& a, const S& v, Network& n) { a.setRegulatingTerminal(terminal(n, v)); });
}

template <typename M> void limits(pbt::Case& c, Network& n1, Network& n2, const S& name, M make) {
    auto k = kind(name, make);
    using A = decltype(make(n1));
    k.V(double, setPermanentLimit, LIST(100, 200, NaN), LIST(-1, 0));
    k.sub("temporary limit", false, 4, [](A& a) { return a.beginTemporaryLimit(); }, [](auto& b) { b.endTemporaryLimit(); })
        .V(S, setName, LIST("x", "y", "z", "u", "w"), LIST("")).V(double, setValue, LIST(150, 250, 350), LIST(NaN, -1)).V(L, setAcceptableDuration, LIST(60, 600, 1200, 0), {})
        .V(bool, setFictitious, LIST(true, false), {})
        .template f<bool>("ensureNameUnicity", {true}, {}, [](auto& b, bool, Network&) { b.ensureNameUnicity(); });
    k.add = [](A& a) { a.add(); return S(); };
    k.run(c, n1, n2);
}
template <typename M> void ratio(pbt::Case& c, Network& n1, Network& n2, const S& name, M make) {
    auto k = kind(name, make);
    using A = decltype(make(n1));
    k.V(long, setLowTapPosition, LIST(0, -1, 1), {}).V(long, setTapPosition, LIST(0, 1, 2), LIST(-5, 50)).V(bool, setLoadTapChangingCapabilities, LIST(true, false), {})
     .V(bool, setRegulating, LIST(false, true), {}).V(double, setTargetV, LIST(100, 110), LIST(NaN, -1)).V(double, setTargetDeadband, LIST(0, 1), LIST(-1, NaN))
     .template f<S>("setRegulationTerminal", {"load", "gen", "line"}, {""}, [](auto& a, const S& v, Network& n) { a.setRegulationTerminal(terminal(n, v)); });
    k.sub("step", true, 4, [](A& a) { return a.beginStep(); }, [](auto& b) { b.endStep(); })
        .V(double, setRho, LIST(1, 1.1, 0.9), LIST(NaN)).V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, {}).V(double, setG, ANY, {}).V(double, setB, ANY, {});
    k.add = [](A& a) { a.add(); return S(); };
    k.run(c, n1, n2);
}
template <typename M> void phase(pbt::Case& c, Network& n1, Network& n2, const S& name, M make) {
    auto k = kind(name, make);
    using A = decltype(make(n1));
    using R = PhaseTapChanger::RegulationMode;
    k.V(long, setLowTapPosition, LIST(0, -1, 1), {}).V(long, setTapPosition, LIST(0, 1, 2), LIST(-5, 50))
     .V(bool, setRegulating, LIST(false, true), {}).V(double, setRegulationValue, LIST(100, 110), LIST(NaN)).V(double, setTargetDeadband, LIST(0, 1), LIST(-1, NaN))
     .V(R, setRegulationMode, LIST(R::CURRENT_LIMITER, R::ACTIVE_POWER_CONTROL, R::FIXED_TAP), {})
     .template f<S>("setRegulationTerminal", {"load", "gen", "line"}, {""}, [](auto& a, const S& v, Network& n) { a.setRegulationTerminal(terminal(n, v)); });
    k.sub("step", true, 4, [](A& a) { return a.beginStep(); }, [](auto& b) { b.endStep(); })
        .V(double, setAlpha, LIST(-1, 0, 1), LIST(NaN)).V(double, setRho, LIST(1, 1.1, 0.9), LIST(NaN)).V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, {}).V(double, setG, ANY, {}).V(double, setB, ANY, {});
    k.add = [](A& a) { a.add(); return S(); };
    k.run(c, n1, n2);
}
template <typename M> void curve(pbt::Case& c, Network& n1, Network& n2, const S& name, M make) {
    auto k = kind(name, make);
    using A = decltype(make(n1));
    k.sub("point", true, 4, [](A& a) { return a.beginPoint(); }, [](auto& b) { b.endPoint(); })
        .V(double, setP, LIST(1, 2, 3, 4, 5, 6), LIST(NaN)).V(double, setMinQ, LIST(-1, -2, 0), LIST(NaN)).V(double, setMaxQ, LIST(1, 2, 0), LIST(NaN));
    k.add = [](A& a) { a.add(); return S(); };
    k.run(c, n1, n2);
}
template <typename M> void minmax(pbt::Case& c, Network& n1, Network& n2, const S& name, M make) {
    auto k = kind(name, make);
    k.V(double, setMinQ, LIST(-1, -2, 0), LIST(NaN)).V(double, setMaxQ, LIST(1, 2, 0), LIST(NaN, -10));
    k.add = [](auto& a) { a.add(); return S(); };
    k.run(c, n1, n2);
}

std::vector<std::function<void(pbt::Case&, Network&, Network&)>> kinds() {
    std::vector<std::function<void(pbt::Case&, Network&, Network&)>> r;
#define KIND r.push_back([](pbt::Case& c, Network& n1, Network& n2)
#define END k.run(c, n1, n2); });
    KIND {
        auto k = kind("substation", [](Network& n) { return n.newSubstation(); });
        ident(k); identAdd(k);
        k.V(Country, setCountry, LIST(Country::FR, Country::BE, Country::AF), {}).V(S, setTso, LIST("RTE", "", "other"), {})
         .f<S>("addGeographicalTag", {"a", "b"}, {}, [](auto& a, const S& v, Network&) { a.setGeographicalTags({v}); });
    END
    KIND {
        auto k = kind("voltage level", [](Network& n) { return n.getSubstation("S1").newVoltageLevel(); });
        ident(k); identAdd(k);
        k.V(TopologyKind, setTopologyKind, LIST(TopologyKind::NODE_BREAKER, TopologyKind::BUS_BREAKER), {}).V(double, setNominalV, LIST(100, 225), LIST(NaN, 0, -1))
         .V(double, setLowVoltageLimit, LIST(90, NaN), LIST(-1, 500)).V(double, setHighVoltageLimit, LIST(120, 300, NaN), LIST(-1));
    END
    KIND {
        auto k = kind("bus", [](Network& n) { return n.getVoltageLevel("B1").getBusBreakerView().newBus(); });
        ident(k); identAdd(k);
    END
    KIND {
        auto k = kind("busbar section", [](Network& n) { return n.getVoltageLevel("N1").getNodeBreakerView().newBusbarSection(); });
        ident(k); identAdd(k);
        // not the occupied nodes of a known finding
        k.V(L, setNode, LIST(10, 11, 12, 13, 14, 15, 16, 17, 18, 19), {});
    END
    KIND {
        auto k = kind("switch of a node/breaker level", [](Network& n) { return n.getVoltageLevel("N1").getNodeBreakerView().newSwitch(); });
        ident(k); identAdd(k);
        k.V(L, setNode1, LIST(0, 1, 2, 30), {}).V(L, setNode2, LIST(3, 4, 5, 31), {}).V(SwitchKind, setKind, LIST(SwitchKind::BREAKER, SwitchKind::DISCONNECTOR, SwitchKind::LOAD_BREAK_SWITCH), {}).V(bool, setRetained, LIST(true, false), {})
         .f<bool>("setOpen", {true, false}, {}, [](auto& a, bool v, Network&) { a.setOpen(v); });
    END
    KIND {
        auto k = kind("switch of a bus/breaker level", [](Network& n) { return n.getVoltageLevel("B1").getBusBreakerView().newSwitch(); });
        ident(k); identAdd(k);
        k.V(S, setBus1, LIST("b1"), LIST("", "b2", "none")).V(S, setBus2, LIST("b2"), LIST("", "b1", "none")).f<bool>("setOpen", {true, false}, {}, [](auto& a, bool v, Network&) { a.setOpen(v); });
    END
    KIND {
        auto k = kind("internal connection", [](Network& n) { return n.getVoltageLevel("N1").getNodeBreakerView().newInternalConnection(); });
        k.V(L, setNode1, LIST(0, 1, 2, 30), {}).V(L, setNode2, LIST(3, 4, 5, 31), {});
        k.add = [](auto& a) { a.add(); return S(); };
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("load", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newLoad(); });
        ident(k); identAdd(k); place(k, node);
        k.V(LoadType, setLoadType, LIST(LoadType::UNDEFINED, LoadType::AUXILIARY, LoadType::FICTITIOUS), {}).V(double, setP0, ANY, LIST(NaN)).V(double, setQ0, ANY, LIST(NaN));
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("generator", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newGenerator(); });
        ident(k); identAdd(k); place(k, node); regulating(k, "setRegulatingTerminal");
        k.V(EnergySource, setEnergySource, LIST(EnergySource::HYDRO, EnergySource::OTHER, EnergySource::SOLAR), {}).V(double, setMinP, LIST(0, -5), LIST(NaN, 1000)).V(double, setMaxP, LIST(10, 20), LIST(NaN))
         .V(double, setTargetP, ANY, LIST(NaN)).V(double, setTargetQ, ANY, LIST(NaN)).V(double, setTargetV, LIST(100, 110), LIST(NaN, -1)).V(double, setActivePowerSetpoint, ANY, {}).V(double, setRatedS, LIST(1, 2, NaN), LIST(-1))
         .V(bool, setVoltageRegulatorOn, LIST(true, false), {});
        // two names of the same value: the last one given counts, which the order of the table would not respect
        for (auto it = k.fields.begin(); it != k.fields.end();) { if (it->name == "setActivePowerSetpoint") it = k.fields.erase(it); else ++it; }
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("battery", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newBattery(); });
        ident(k); identAdd(k); place(k, node);
        k.V(double, setP0, ANY, LIST(NaN)).V(double, setQ0, ANY, LIST(NaN)).V(double, setMinP, LIST(0, -5), LIST(NaN, 1000)).V(double, setMaxP, LIST(10, 20), LIST(NaN));
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("shunt compensator", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newShuntCompensator(); });
        using A = ShuntCompensatorAdder;
        ident(k); identAdd(k); place(k, node); regulating(k, "setRegulatingTerminal");
        k.V(L, setSectionCount, LIST(0, 1, 2), LIST(50)).V(double, setTargetV, LIST(100, 110), LIST(NaN, -1)).V(double, setTargetDeadband, LIST(0, 1), LIST(-1, NaN)).V(bool, setVoltageRegulatorOn, LIST(false, true), {});
        auto& l = k.sub("linear model", true, 1, [](A& a) { return a.newLinearModel(); }, [](auto& b) { b.add(); });
        l.V(double, setBPerSection, LIST(1, 2, -1), LIST(NaN)).V(double, setGPerSection, ANY, LIST(NaN)).V(L, setMaximumSectionCount, LIST(3, 4, 5), LIST(0));
        auto& m = k.sub("non linear model", false, 1, [](A& a) { return a.newNonLinearModel(); }, [](auto& b) { b.add(); });
        m.f<int>("sections", {1, 2, 3}, {}, [](auto& a, int v, Network&) { for (int i = 1; i <= v; ++i) a.beginSection().setB(i * 0.5).setG(v).endSection(); });
        m.twice = m.repeats = false;  // sections are added to those there are
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("static var compensator", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newStaticVarCompensator(); });
        using R = StaticVarCompensator::RegulationMode;
        ident(k); identAdd(k); place(k, node); regulating(k, "setRegulatingTerminal");
        k.V(double, setBmin, ANY, LIST(NaN)).V(double, setBmax, ANY, LIST(NaN)).V(double, setVoltageSetpoint, LIST(100, 110), LIST(NaN)).V(double, setReactivePowerSetpoint, ANY, LIST(NaN)).V(R, setRegulationMode, LIST(R::OFF, R::VOLTAGE, R::REACTIVE_POWER), {});
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("dangling line", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newDanglingLine(); });
        ident(k); identAdd(k); place(k, node);
        k.V(double, setP0, ANY, LIST(NaN)).V(double, setQ0, ANY, LIST(NaN)).V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, LIST(NaN)).V(double, setG, ANY, LIST(NaN)).V(double, setB, ANY, LIST(NaN)).V(S, setUcteXnodeCode, LIST("x", "y", ""), {});
        k.sub("generation", false, 1, [](DanglingLineAdder& a) { return a.newGeneration(); }, [](auto& b) { b.add(); })
            .V(double, setMinP, LIST(0, -5, NaN), LIST(1000)).V(double, setMaxP, LIST(10, 20, NaN), {}).V(double, setTargetP, ANY, LIST(NaN)).V(double, setTargetQ, ANY, LIST(NaN)).V(double, setTargetV, LIST(100, 110), LIST(NaN, -1)).V(bool, setVoltageRegulationOn, LIST(true, false), {});
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("LCC converter station", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newLccConverterStation(); });
        ident(k); identAdd(k); place(k, node);
        k.V(double, setLossFactor, LIST(0, 1, 50), LIST(NaN, 200)).V(double, setPowerFactor, LIST(0.1, -0.1), LIST(NaN, 5));
    END
    KIND {
        const bool node = c.s.chance(50);
        auto k = kind("VSC converter station", [node](Network& n) { return n.getVoltageLevel(node ? "N1" : "B1").newVscConverterStation(); });
        ident(k); identAdd(k); place(k, node);
        k.V(double, setLossFactor, LIST(0, 1, 50), LIST(NaN, 200)).V(double, setVoltageSetpoint, LIST(100, 110), LIST(NaN, -1)).V(double, setReactivePowerSetpoint, ANY, LIST(NaN)).V(bool, setVoltageRegulatorOn, LIST(true, false), {});
    END
    KIND {
        auto k = kind("HVDC line", [](Network& n) { return n.newHvdcLine(); });
        using M = HvdcLine::ConvertersMode;
        ident(k); identAdd(k);
        k.V(S, setConverterStationId1, LIST("vsc2", "vsc3"), LIST("vsc1", "", "load")).V(S, setConverterStationId2, LIST("vsc5", "vsc6"), LIST("lcc1", "vsc4", "")).V(double, setR, LIST(0, 1), LIST(NaN)).V(double, setNominalV, LIST(100, 300), LIST(NaN, 0)).V(double, setMaxP, LIST(10, 20), LIST(NaN, -1))
         .V(double, setActivePowerSetpoint, LIST(0, 5), LIST(NaN, -1)).V(M, setConvertersMode, LIST(M::SIDE_1_INVERTER_SIDE_2_RECTIFIER, M::SIDE_1_RECTIFIER_SIDE_2_INVERTER), {});
    END
    KIND {
        auto k = kind("line", [](Network& n) { return n.newLine(); });
        ident(k); identAdd(k); sides(k);
        k.V(L, setNode1, LIST(4, 5, 6), {}).V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, LIST(NaN)).V(double, setG1, ANY, {}).V(double, setB1, ANY, {}).V(double, setG2, ANY, {}).V(double, setB2, ANY, LIST(NaN));
    END
    KIND {
        auto k = kind("tie line", [](Network& n) { return n.newTieLine(); });
        ident(k); identAdd(k); sides(k);
        k.V(L, setNode1, LIST(4, 5, 6), {}).V(S, setUcteXnodeCode, LIST("x", "y"), LIST(""));
        for (int i = 1; i < 3; ++i) {
            k.sub("half line " + std::to_string(i), true, 1, [i](TieLineAdder& a) { return i == 1 ? a.newHalfLine1() : a.newHalfLine2(); }, [](auto& b) { b.add(); })
                .V(S, setId, LIST("h", "i", "j"), LIST("")).V(S, setName, LIST("half", ""), {}).V(bool, setFictitious, LIST(true, false), {})
                .V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, LIST(NaN)).V(double, setG1, ANY, {}).V(double, setB1, ANY, {}).V(double, setG2, ANY, {}).V(double, setB2, ANY, LIST(NaN));
        }
    END
    KIND {
        auto k = kind("two windings transformer", [](Network& n) { return n.getSubstation("S1").newTwoWindingsTransformer(); });
        ident(k); identAdd(k);
        k.V(S, setVoltageLevel1, LIST("N1"), LIST("B1", "none")).V(L, setNode1, LIST(4, 5, 6), LIST(0)).V(S, setVoltageLevel2, LIST("B1"), LIST("B2", "")).V(S, setBus2, LIST("b1", "b2", ""), LIST("c1")).V(S, setConnectableBus2, LIST("b1", "b2"), LIST(""))
         .V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, LIST(NaN)).V(double, setG, ANY, {}).V(double, setB, ANY, LIST(NaN)).V(double, setRatedU1, LIST(100, 110), LIST(NaN, -1)).V(double, setRatedU2, LIST(200, 210, NaN), LIST(0)).V(double, setRatedS, LIST(1, 2, NaN), LIST(0));
    END
    KIND {
        auto k = kind("three windings transformer", [](Network& n) { return n.getSubstation("S1").newThreeWindingsTransformer(); });
        ident(k); identAdd(k);
        k.V(double, setRatedU0, LIST(100, 150, NaN), LIST(-1));
        for (int i = 1; i < 4; ++i) {
            auto& l = k.sub("leg " + std::to_string(i), true, 1, [i](ThreeWindingsTransformerAdder& a) { return i == 1 ? a.newLeg1() : i == 2 ? a.newLeg2() : a.newLeg3(); }, [](auto& b) { b.add(); });
            l.V(double, setR, ANY, LIST(NaN)).V(double, setX, ANY, LIST(NaN)).V(double, setG, ANY, {}).V(double, setB, ANY, {}).V(double, setRatedU, LIST(100, 110, 200), LIST(NaN, -1)).V(double, setRatedS, LIST(1, 2, NaN), LIST(0));
            if (i == 1) l.V(S, setVoltageLevel, LIST("N1"), LIST("B1")).V(L, setNode, LIST(4, 5, 6), LIST(0));
            else l.V(S, setVoltageLevel, LIST("B1"), LIST("B2", "none")).V(S, setBus, LIST("b1", "b2", ""), LIST("c1")).V(S, setConnectableBus, LIST("b1", "b2"), LIST(""));
        }
    END
    KIND {
        switch (c.s.draw(7)) {
            case 0: limits(c, n1, n2, "current limits", [](Network& n) { return n.getLine("line").newCurrentLimits1(); }); break;
            case 1: limits(c, n1, n2, "active power limits", [](Network& n) { return n.getLine("line").newActivePowerLimits2(); }); break;
            case 2: limits(c, n1, n2, "apparent power limits", [](Network& n) { return n.getTwoWindingsTransformer("t2").newApparentPowerLimits2(); }); break;
            case 3: limits(c, n1, n2, "current limits", [](Network& n) { return n.getDanglingLine("dl").newCurrentLimits(); }); break;
            case 4: limits(c, n1, n2, "current limits", [](Network& n) { return n.getThreeWindingsTransformer("t3").getLeg2().newCurrentLimits(); }); break;
            case 5: limits(c, n1, n2, "active power limits", [](Network& n) { return n.getThreeWindingsTransformer("t3").getLeg1().newActivePowerLimits(); }); break;
            default: limits(c, n1, n2, "apparent power limits", [](Network& n) { return n.getDanglingLine("dl").newApparentPowerLimits(); });
        }
    });
    KIND {
        switch (c.s.draw(4)) {
            case 0: ratio(c, n1, n2, "ratio tap changer", [](Network& n) { return n.getTwoWindingsTransformer("t2").newRatioTapChanger(); }); break;
            case 1: ratio(c, n1, n2, "ratio tap changer", [](Network& n) { return n.getThreeWindingsTransformer("t3").getLeg2().newRatioTapChanger(); }); break;
            case 2: phase(c, n1, n2, "phase tap changer", [](Network& n) { return n.getTwoWindingsTransformer("t2").newPhaseTapChanger(); }); break;
            default: phase(c, n1, n2, "phase tap changer", [](Network& n) { return n.getThreeWindingsTransformer("t3").getLeg1().newPhaseTapChanger(); });
        }
    });
    KIND {
        switch (c.s.draw(6)) {
            case 0: curve(c, n1, n2, "reactive capability curve", [](Network& n) { return n.getGenerator("gen").newReactiveCapabilityCurve(); }); break;
            case 1: curve(c, n1, n2, "reactive capability curve", [](Network& n) { return n.getBattery("bat").newReactiveCapabilityCurve(); }); break;
            case 2: curve(c, n1, n2, "reactive capability curve", [](Network& n) { return n.getVscConverterStation("vsc2").newReactiveCapabilityCurve(); }); break;
            case 3: minmax(c, n1, n2, "minimum and maximum reactive limits", [](Network& n) { return n.getGenerator("gen").newMinMaxReactiveLimits(); }); break;
            case 4: minmax(c, n1, n2, "minimum and maximum reactive limits", [](Network& n) { return n.getBattery("bat").newMinMaxReactiveLimits(); }); break;
            default: minmax(c, n1, n2, "minimum and maximum reactive limits", [](Network& n) { return n.getVscConverterStation("vsc2").newMinMaxReactiveLimits(); });
        }
    });
    // extensions
#define EXT(label, owner, type) KIND { auto k = kind(label, [](Network& n) { return n.owner.newExtension<type>(); }); k.add = [](auto& a) { a.add(); return S(); };
    EXT("ActivePowerControl", getGenerator("gen"), ex::iidm::ActivePowerControlAdder) k.V(bool, withParticipate, LIST(true, false), {}).V(double, withDroop, ANY, LIST(NaN)); END
    EXT("CoordinatedReactiveControl", getGenerator("gen"), ex::iidm::CoordinatedReactiveControlAdder) k.V(double, withQPercent, LIST(10, 20), LIST(NaN, 200)); END
    EXT("LoadDetail", getLoad("load"), ex::LoadDetailAdder) k.V(double, withFixedActivePower, ANY, {}).V(double, withFixedReactivePower, ANY, {}).V(double, withVariableActivePower, ANY, {}).V(double, withVariableReactivePower, ANY, {}); END
    EXT("HvdcAngleDroopActivePowerControl", getHvdcLine("hvdc"), ex::iidm::HvdcAngleDroopActivePowerControlAdder) k.V(double, withP0, ANY, {}).V(double, withDroop, ANY, {}).V(bool, withEnabled, LIST(true, false), {}); END
    EXT("HvdcOperatorActivePowerRange", getHvdcLine("hvdc"), ex::iidm::HvdcOperatorActivePowerRangeAdder) k.V(double, withOprFromCS1toCS2, LIST(1, 2), LIST(-1)).V(double, withOprFromCS2toCS1, LIST(1, 2), LIST(-1)); END
    EXT("VoltagePerReactivePowerControl", getStaticVarCompensator("svc"), ex::iidm::VoltagePerReactivePowerControlAdder) k.V(double, withSlope, LIST(1, 2), LIST(-1)); END
    EXT("RemoteReactivePowerControl", getGenerator("gen"), ex::iidm::RemoteReactivePowerControlAdder) k.V(double, withTargetQ, ANY, LIST(NaN)).V(bool, withEnabled, LIST(true, false), {}).f<S>("withRegulatingTerminal", {"gen", "load", "line"}, {}, [](auto& a, const S& v, Network& n) { a.withRegulatingTerminal(terminal(n, v).get()); }); END
    EXT("TwoWindingsTransformerPhaseAngleClock", getTwoWindingsTransformer("t2"), ex::iidm::TwoWindingsTransformerPhaseAngleClockAdder) k.V(L, withPhaseAngleClock, LIST(0, 1, 11), LIST(12)); END
    EXT("ThreeWindingsTransformerPhaseAngleClock", getThreeWindingsTransformer("t3"), ex::iidm::ThreeWindingsTransformerPhaseAngleClockAdder) k.V(L, withPhaseAngleClockLeg2, LIST(0, 1, 11), LIST(12)).V(L, withPhaseAngleClockLeg3, LIST(0, 1, 11), LIST(12)); END
    EXT("EntsoeArea", getSubstation("S1"), ex::entsoe::EntsoeAreaAdder) k.V(ex::entsoe::EntsoeGeographicalCode, withCode, LIST(ex::entsoe::EntsoeGeographicalCode::FR, ex::entsoe::EntsoeGeographicalCode::DE, ex::entsoe::EntsoeGeographicalCode::GB), {}); END
    EXT("Xnode", getDanglingLine("dl"), ex::entsoe::XnodeAdder) k.V(S, withCode, LIST("x", "y"), LIST("")); END
    EXT("MergedXnode", getLine("line"), ex::entsoe::MergedXnodeAdder) k.V(S, withCode, LIST("x", "y"), LIST("")).V(S, withLine1Name, LIST("l", "m"), LIST("")).V(S, withLine2Name, LIST("l", "m"), LIST("")).V(double, withRdp, LIST(0, 0.5), LIST(NaN, 2)).V(double, withXdp, LIST(0, 0.5), LIST(NaN, 2))
        .V(double, withXnodeP1, ANY, LIST(NaN)).V(double, withXnodeP2, ANY, {}).V(double, withXnodeQ1, ANY, {}).V(double, withXnodeQ2, ANY, {}); END
    EXT("BranchStatus", getLine("line"), ex::sld::BranchStatusAdder) using T = ex::sld::BranchStatus::Status; k.V(T, withStatus, LIST(T::IN_OPERATION, T::PLANNED_OUTAGE, T::FORCED_OUTAGE), {}); END
    EXT("BusbarSectionPosition", getBusbarSection("bbs"), ex::sld::BusbarSectionPositionAdder) k.V(L, withBusbarIndex, LIST(0, 1, 2), {}).V(L, withSectionIndex, LIST(0, 1, 2), {}); END
    EXT("SlackTerminal", getVoltageLevel("B1"), ex::SlackTerminalAdder) k.f<S>("withTerminal", {"load", "line"}, {"gen"}, [](auto& a, const S& v, Network& n) { a.withTerminal(terminal(n, v)); }); END
    EXT("ConnectablePosition", getLine("line"), ex::sld::ConnectablePositionAdder)
        using T = ex::sld::ConnectablePosition::Direction;
        using A = ex::sld::ConnectablePositionAdder;
        for (int i = 0; i < 4; ++i) {
            k.sub("feeder " + std::to_string(i), i == 1 || i == 2, 1, [i](A& a) { return i == 0 ? a.newFeeder() : i == 1 ? a.newFeeder1() : i == 2 ? a.newFeeder2() : a.newFeeder3(); }, [](auto& b) { b.add(); })
                .V(S, withName, LIST("f", "g"), LIST("")).V(L, withOrder, LIST(0, 1, 2), {}).V(T, withDirection, LIST(T::TOP, T::BOTTOM, T::UNDEFINED), {});
        }
    END
    KIND {
        for (Network* n : {&n1, &n2}) n->getTwoWindingsTransformer("t2").newExtension<ex::iidm::MeasurementsAdder>().add();
        auto k = kind("measurement", [](Network& n) { return n.getTwoWindingsTransformer("t2").getExtension<ex::iidm::Measurements>().newMeasurement(); });
        using T = ex::iidm::Measurement::Type;
        using D = ex::iidm::Measurement::Side;
        k.V(S, setId, LIST("m", "n", "o", ""), {}).V(T, setType, LIST(T::ACTIVE_POWER, T::CURRENT, T::FREQUENCY, T::OTHER), {}).V(double, setValue, ANY, LIST(NaN)).V(double, setStandardDeviation, ANY, LIST(NaN)).V(bool, setValid, LIST(true, false), {}).V(D, setSide, LIST(D::ONE, D::TWO), LIST(D::THREE))
         .f<S>("putProperty a", {"1", "2"}, {}, [](auto& a, const S& v, Network&) { a.putProperty("a", v); }).f<S>("putProperty b", {"1", ""}, {}, [](auto& a, const S& v, Network&) { a.putProperty("b", v); });
        k.add = [](auto& a) { a.add(); return S(); };
    END
    KIND {
        for (Network* n : {&n1, &n2}) n->getTwoWindingsTransformer("t2").newExtension<ex::iidm::DiscreteMeasurementsAdder>().add();
        auto k = kind("discrete measurement", [](Network& n) { return n.getTwoWindingsTransformer("t2").getExtension<ex::iidm::DiscreteMeasurements>().newDiscreteMeasurement(); });
        using T = ex::iidm::DiscreteMeasurement::Type;
        using D = ex::iidm::DiscreteMeasurement::TapChanger;
        k.V(S, setId, LIST("m", "n", "o", ""), {}).V(T, setType, LIST(T::TAP_POSITION, T::OTHER), LIST(T::SWITCH_POSITION)).V(bool, setValid, LIST(true, false), {}).V(D, setTapChanger, LIST(D::RATIO_TAP_CHANGER, D::PHASE_TAP_CHANGER), LIST(D::RATIO_TAP_CHANGER_1))
         .f<int>("setValue", {0, 1, 2, 3, 4}, {}, [](auto& a, int v, Network&) { if (v < 2) a.setValue(v); else if (v == 2) a.setValue(true); else if (v == 3) a.setValue("text"); else a.setValue(S("other")); })
         .f<S>("putProperty a", {"1", "2"}, {}, [](auto& a, const S& v, Network&) { a.putProperty("a", v); });
        k.add = [](auto& a) { a.add(); return S(); };
    END
    return r;
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C30";
    cfg.rule = "two equal networks; in the first, adders of a kind (every kind of object, limits, tap changers, reactive limits, shunt models, extensions) get values in a random order, some several times, valid or not, are copied, copies and originals end, inner adders are ended several times, and each adder adds several times; "
               "in the second, each creation is made by a new adder given the values the first one has, in the order of a table. Each creation must be refused alike or create the same, and the networks must be equal in every variant. Non-trivial: an adder adds after another creation or refusal.";
    cfg.quick = 20000;
    cfg.thorough = 500000;
    cfg.quickSeconds = 50;
    cfg.requiredLabels = {"added again", "refused", "moved", "copies", "copy or original ended"};
    const auto all = kinds();
    return pbt::runMain(argc, argv, cfg, [all](pbt::Case& c) {
        Network n1("n", "test"), n2("n", "test");
        base(n1);
        base(n2);
        all[c.s.draw(all.size())](c, n1, n2);
    });
}
