// C16: loading limits and overloads follow from limits and flows.
#include "../model/common.hpp"

#include <algorithm>
#include <cmath>
#include <limits>

using namespace powsybl::iidm;
using pbt::Case;

namespace {

const double NaN = std::nan("");

struct TL { std::string name; double value; unsigned long duration; bool fictitious; };
struct Limits {
    bool present = false;
    double permanent = NaN;
    std::vector<TL> temporary;  // by decreasing acceptable duration
};
struct Side {
    Limits by[3];  // current, active power, apparent power
};
const LimitType TYPES[3] = {LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER};
const char* NAMES[3] = {"current", "active power", "apparent power"};

struct Result { bool over = false; std::string name, previousName; double value = NaN, previous = NaN; unsigned long duration = 0; };

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s), n("n", "test") {}
    Case& c;
    pbt::Src& s;
    Network n;
    Branch* b = nullptr;
    Side sides[2];
    std::vector<std::string> variants{VariantManager::getInitialVariantId()};

    template <typename F> bool request(const std::string& what, const std::string& why, const F& f) {
        bool ok = true;
        std::string error;
        try { f(); }
        catch (const PowsyblException& e) { ok = false; error = e.what(); }
        c.note(what + (ok ? "" : " -> " + error));
        c.check(ok == why.empty(), ok ? "accepted" : "refused", what + (ok ? " is accepted: " + why : " is refused: " + error));
        if (!ok) c.label("refused");
        return ok;
    }

    void build() {
        Substation& sub = n.newSubstation().setId("S").add();
        for (int k = 1; k <= 2; ++k) {
            auto& vl = sub.newVoltageLevel().setId("VL" + std::to_string(k)).setNominalV(100).setTopologyKind(TopologyKind::BUS_BREAKER).add();
            vl.getBusBreakerView().newBus().setId("B" + std::to_string(k)).add();
        }
        switch (s.draw(3)) {
            case 0:
                b = &n.newLine().setId("L").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add();
                break;
            case 1:
                b = &sub.newTwoWindingsTransformer().setId("L").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2").setR(1).setX(1).setG(0).setB(0).setRatedU1(1).setRatedU2(1).add();
                break;
            default:
                b = &n.newTieLine().setId("L").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2")
                    .newHalfLine1().setId("H1").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add()
                    .newHalfLine2().setId("H2").setR(1).setX(1).setG1(0).setB1(0).setG2(0).setB2(0).add().setUcteXnodeCode("X").add();
                break;
        }
    }

    // positive values, often equal to those used for flows
    double level() { return s.chance(70) ? static_cast<double>(5 * (1 + s.draw(20))) : s.pickOf({1.0, 100.5, 1e-3, 1e9, 12.25}); }

    template <typename A> void fill(A a, Limits& model, const std::string& what) {
        Limits l;
        l.present = true;
        std::string why;
        if (s.chance(85)) {
            l.permanent = s.chance(10) ? s.pickOf({0.0, -1.0, NaN, -1e-9}) : level();
            if (l.permanent <= 0) why = "permanent limit not positive";
            a.setPermanentLimit(l.permanent);
        }
        const unsigned count = static_cast<unsigned>(s.draw(6));
        double up = std::isnan(l.permanent) ? 0 : l.permanent;
        const bool ordered = s.chance(75);
        std::vector<unsigned long> durations{600, 1200, 60, 10, 0, 2147483647UL, 1, 3600, 4294967296UL};
        for (unsigned k = 0; k < count; ++k) {
            TL t;
            // in any order of durations
            const size_t d = s.draw(durations.size());
            t.duration = durations[d];
            durations.erase(durations.begin() + static_cast<long>(d));
            up += 5.0 * (1 + s.draw(3));
            t.value = s.chance(6) ? s.pickOf({NaN, 0.0, -5.0}) : ordered ? up : level();
            t.name = s.chance(4) ? "" : s.chance(10) ? "TL0" : s.chance(50) ? "TL" + std::to_string(k) : s.pickOf({std::string("20'"), std::string("5 min"), std::string("N/A"), std::string("\xC3\xA9t\xC3\xA9 <&>")}) + std::to_string(k);
            t.fictitious = s.chance(40);
            const bool set = !s.chance(4), ensure = s.chance(20);
            std::string bad;
            if (std::isnan(t.value)) bad = "no value";
            else if (t.value <= 0) bad = "value not positive";
            else if (!set) bad = "no duration";
            else if (t.name.empty()) bad = "no name";
            std::string name = t.name;
            if (request("temporary limit '" + t.name + "' " + pbt::show(t.value) + " during " + std::to_string(t.duration) + (ensure ? " unique" : ""), bad, [&] {
                    auto x = a.beginTemporaryLimit();
                    x.setName(t.name);
                    if (!std::isnan(t.value)) x.setValue(t.value);
                    if (set) x.setAcceptableDuration(t.duration);
                    if (t.fictitious || s.chance(30)) x.setFictitious(t.fictitious);
                    if (ensure) x.ensureNameUnicity();
                    x.endTemporaryLimit();
                })) {
                if (ensure) {
                    for (unsigned long i = 0;; ++i) {
                        bool used = false;
                        for (const auto& y : l.temporary) used = used || y.name == name;
                        if (!used) break;
                        name = t.name + "#" + std::to_string(i);
                        c.label("unique name");
                    }
                    t.name = name;
                }
                l.temporary.push_back(t);
            }
        }
        std::set<std::string> names;
        for (const auto& t : l.temporary) if (!names.insert(t.name).second && why.empty()) why = "two limits have one name";
        std::sort(l.temporary.begin(), l.temporary.end(), [](const TL& x, const TL& y) { return x.duration > y.duration; });
        if (a.hasTemporaryLimits() != !l.temporary.empty()) c.fail("has-temporary-limits", what);
        if (request(what, why, [&] { a.add(); })) {
            if (model.present) c.label("replaced");
            model = l;
            c.label(what.substr(0, what.find(" limits")));
        }
    }

    void newLimits() {
        const size_t side = s.draw(2), type = s.draw(3);
        Limits& m = sides[side].by[type];
        const std::string what = std::string(NAMES[type]) + " limits at side " + std::to_string(side + 1);
        if (type == 0) fill(side == 0 ? b->newCurrentLimits1() : b->newCurrentLimits2(), m, what);
        if (type == 1) fill(side == 0 ? b->newActivePowerLimits1() : b->newActivePowerLimits2(), m, what);
        if (type == 2) fill(side == 0 ? b->newApparentPowerLimits1() : b->newApparentPowerLimits2(), m, what);
    }

    stdcxx::Reference<LoadingLimits> real(size_t side, size_t type) { return b->getLimits(TYPES[type], side == 0 ? Branch::Side::ONE : Branch::Side::TWO); }

    void changePermanent() {
        const size_t side = s.draw(2), type = s.draw(3);
        Limits& m = sides[side].by[type];
        if (!m.present) return;
        const double v = s.chance(15) ? s.pickOf({0.0, -1.0, NaN}) : level();
        if (request(std::string("permanent ") + NAMES[type] + " limit at side " + std::to_string(side + 1) + " = " + pbt::show(v), v <= 0 ? "not positive" : "", [&] { real(side, type).get().setPermanentLimit(v); })) m.permanent = v;
    }
    void removeLimits() {
        const size_t side = s.draw(2), type = s.draw(3);
        Limits& m = sides[side].by[type];
        if (!m.present) return;
        c.note(std::string("remove the ") + NAMES[type] + " limits at side " + std::to_string(side + 1));
        real(side, type).get().remove();
        m = Limits();
        c.label("removed");
    }

    // flows; the values are such that the apparent power is often an exact number
    struct Flow { double p = NaN, q = NaN, v = NaN; };
    Flow flow() {
        Flow f;
        if (s.chance(8)) return f;
        switch (s.draw(4)) {
            case 0: { const double k = static_cast<double>(1 + s.draw(20)); f.p = 3 * k; f.q = 4 * k; break; }
            case 1: { f.p = static_cast<double>(5 * s.range(-20, 20)); f.q = 0; break; }
            case 2: { f.p = static_cast<double>(s.range(-4000, 4000)) / 37; f.q = static_cast<double>(s.range(-4000, 4000)) / 41; break; }
            default: { f.q = static_cast<double>(5 * (1 + s.draw(20))); f.p = 0; break; }
        }
        if (s.chance(10)) f.p = -f.p;
        if (s.chance(4)) (s.chance(50) ? f.p : f.q) = NaN;
        f.v = s.chance(10) ? NaN : static_cast<double>(90 + s.draw(20));
        return f;
    }
    void setFlows() {
        for (int k = 0; k < 2; ++k) {
            Flow f = flow();
            Terminal& t = k == 0 ? b->getTerminal1() : b->getTerminal2();
            t.setP(f.p).setQ(f.q);
            t.getBusBreakerView().getBus().get().setV(f.v);
            c.note("flow at side " + std::to_string(k + 1) + ": " + pbt::show(f.p) + " " + pbt::show(f.q) + " voltage " + pbt::show(f.v));
        }
    }
    // a current limit equal to the present current, to meet the boundary
    void limitAtCurrent() {
        const size_t side = s.draw(2);
        Limits& m = sides[side].by[0];
        const double i = side == 0 ? b->getTerminal1().getI() : b->getTerminal2().getI();
        if (!m.present || !(i > 0)) return;
        real(side, 0).get().setPermanentLimit(i);
        m.permanent = i;
        c.note("permanent current limit at side " + std::to_string(side + 1) + " = " + pbt::show(i));
        c.label("limit equal to the flow");
    }

    static Result evaluate(const Limits& l, double red, double x) {
        Result r;
        if (!l.present || std::isnan(l.permanent) || std::isnan(x)) return r;
        double previous = l.permanent;
        std::string name;
        for (const auto& t : l.temporary) {
            if (x >= previous * red && x < t.value * red) {
                r.over = true;
                r.name = t.name; r.value = t.value; r.duration = t.duration;
                r.previousName = name; r.previous = previous;
                return r;
            }
            previous = t.value;
            name = t.name;
        }
        return r;
    }
    static bool permanent(const Limits& l, double red, double x) { return l.present && !std::isnan(l.permanent) && !std::isnan(x) && x >= l.permanent * red; }

    void compare(const std::unique_ptr<Branch::Overload>& o, const Result& r, const std::string& what) {
        c.checkEq(static_cast<bool>(o), r.over, "temporary-limit-exceeded", what + ":");
        if (!o) return;
        c.checkEq(o->getTemporaryLimit().getName(), r.name, "temporary-limit", what + ": limit");
        c.checkEq(pbt::show(o->getTemporaryLimit().getValue()), pbt::show(r.value), "temporary-limit", what + ": value");
        c.checkEq(o->getTemporaryLimit().getAcceptableDuration(), r.duration, "temporary-limit", what + ": duration");
        c.checkEq(o->getPreviousLimitName(), r.previousName, "previous-limit", what + ": name of the previous limit");
        c.checkEq(pbt::show(o->getPreviousLimit()), pbt::show(r.previous), "previous-limit", what + ": previous limit");
        c.label("temporary limit exceeded");
        c.nontrivial();
    }

    void verifyLists() {
        for (size_t side = 0; side < 2; ++side) {
            for (size_t type = 0; type < 3; ++type) {
                const Limits& m = sides[side].by[type];
                const Branch::Side bs = side == 0 ? Branch::Side::ONE : Branch::Side::TWO;
                const std::string what = std::string(NAMES[type]) + " limits at side " + std::to_string(side + 1);
                const Branch& cb = *b;
                auto l = cb.getLimits(TYPES[type], bs);
                c.checkEq(static_cast<bool>(l), m.present, "presence", what + ":");
                const LoadingLimits* same[4] = {nullptr, nullptr, nullptr, nullptr};
                auto ptr = [](const stdcxx::CReference<LoadingLimits>& r) { return r ? &r.get() : nullptr; };
                same[0] = ptr(l);
                same[1] = ptr(stdcxx::cref<LoadingLimits>(b->getLimits(TYPES[type], bs)));
                if (type == 0) { same[2] = ptr(stdcxx::cref<LoadingLimits>(side == 0 ? cb.getCurrentLimits1() : cb.getCurrentLimits2())); same[3] = ptr(stdcxx::cref<LoadingLimits>(cb.getCurrentLimits(bs))); }
                if (type == 1) { same[2] = ptr(stdcxx::cref<LoadingLimits>(side == 0 ? cb.getActivePowerLimits1() : cb.getActivePowerLimits2())); same[3] = ptr(stdcxx::cref<LoadingLimits>(cb.getActivePowerLimits(bs))); }
                if (type == 2) { same[2] = ptr(stdcxx::cref<LoadingLimits>(side == 0 ? cb.getApparentPowerLimits1() : cb.getApparentPowerLimits2())); same[3] = ptr(stdcxx::cref<LoadingLimits>(cb.getApparentPowerLimits(bs))); }
                for (const auto* x : same) c.check(x == same[0], "accessors", what + ": the accessors disagree");
                if (!m.present) continue;
                c.check(l.get().getLimitType() == TYPES[type], "type", what);
                c.checkEq(pbt::hex(l.get().getPermanentLimit()), pbt::hex(m.permanent), "permanent", what + ": permanent limit");
                size_t k = 0;
                for (const auto& t : l.get().getTemporaryLimits()) {
                    c.check(k < m.temporary.size(), "list", what + ": too many temporary limits");
                    const TL& e = m.temporary[k];
                    c.check(t.getName() == e.name && t.getValue() == e.value && t.getAcceptableDuration() == e.duration && t.isFictitious() == e.fictitious, "list",
                            what + ": temporary limit " + std::to_string(k) + " is " + t.getName() + " " + pbt::show(t.getValue()) + " " + std::to_string(t.getAcceptableDuration()) + (t.isFictitious() ? " fictitious" : "") + " instead of "
                                + e.name + " " + pbt::show(e.value) + " " + std::to_string(e.duration) + (e.fictitious ? " fictitious" : ""));
                    c.checkEq(pbt::hex(l.get().getTemporaryLimitValue(e.duration)), pbt::hex(e.value), "value-by-duration", what);
                    c.checkEq(l.get().getTemporaryLimit(e.duration).getName(), e.name, "limit-by-duration", what);
                    ++k;
                }
                c.checkEq(k, m.temporary.size(), "list", what + ": temporary limits");
                c.check(std::isnan(l.get().getTemporaryLimitValue(77777)), "value-by-duration", what + ": a value for an unknown duration");
                if (m.temporary.size() > 1) c.label("several temporary limits");
            }
        }
    }

    void verifyFlows() {
        const double red = s.chance(40) ? 1.0 : s.pickOf({0.5, 2.0, 0.25, 0.9, 1.1, 0.75, 1e-9});
        const bool exactFactor = red == 1.0 || red == 0.5 || red == 2.0 || red == 0.25 || red == 0.75;
        const Branch& br = *b;
        bool skippedCurrent = false;
        for (size_t side = 0; side < 2; ++side) {
            const Terminal& t = side == 0 ? br.getTerminal1() : br.getTerminal2();
            const Branch::Side bs = side == 0 ? Branch::Side::ONE : Branch::Side::TWO;
            for (size_t type = 0; type < 3; ++type) {
                const Limits& m = sides[side].by[type];
                const double x = type == 0 ? t.getI() : type == 1 ? t.getP() : std::hypot(t.getP(), t.getQ());
                // the result at a boundary is not determined by rounded values
                const bool exact = exactFactor && (type != 2 || t.getP() == 0 || t.getQ() == 0 || t.getQ() * 3 == t.getP() * 4);
                bool near = false;
                if (!exact && m.present) {
                    if (std::fabs(x - m.permanent * red) <= 1e-9 * std::fabs(x)) near = true;
                    for (const auto& e : m.temporary) if (std::fabs(x - e.value * red) <= 1e-9 * std::fabs(x)) near = true;
                }
                if (near) { if (type == 0) skippedCurrent = true; continue; }
                const std::string what = std::string(NAMES[type]) + " " + pbt::show(x) + " at side " + std::to_string(side + 1) + ", factor " + pbt::show(red);
                const bool p = permanent(m, red, x);
                if (p) c.label("permanent limit exceeded");
                if (m.present && x == m.permanent * red) c.label("at the boundary");
                c.checkEq(br.checkPermanentLimit(bs, red, TYPES[type]), p, "permanent-limit-exceeded", what + ":");
                c.checkEq(side == 0 ? br.checkPermanentLimit1(red, TYPES[type]) : br.checkPermanentLimit2(red, TYPES[type]), p, "permanent-limit-exceeded", what + ":");
                const Result r = evaluate(m, red, x);
                compare(br.checkTemporaryLimits(bs, red, TYPES[type]), r, what);
                compare(side == 0 ? br.checkTemporaryLimits1(red, TYPES[type]) : br.checkTemporaryLimits2(red, TYPES[type]), r, what);
                if (red == 1.0) {
                    c.checkEq(br.checkPermanentLimit(bs, TYPES[type]), p, "permanent-limit-exceeded", what + ":");
                    c.checkEq(side == 0 ? br.checkPermanentLimit1(TYPES[type]) : br.checkPermanentLimit2(TYPES[type]), p, "permanent-limit-exceeded", what + ":");
                    compare(br.checkTemporaryLimits(bs, TYPES[type]), r, what);
                    compare(side == 0 ? br.checkTemporaryLimits1(TYPES[type]) : br.checkTemporaryLimits2(TYPES[type]), r, what);
                }
            }
        }
        const double i1 = br.getTerminal1().getI(), i2 = br.getTerminal2().getI();
        if (!skippedCurrent) {
            const bool over = permanent(sides[0].by[0], red, i1) || permanent(sides[1].by[0], red, i2);
            c.checkEq(br.isOverloaded(red), over, "overloaded", "factor " + pbt::show(red) + ":");
            if (over) c.label("overloaded");
        }
        c.checkEq(br.isOverloaded(), permanent(sides[0].by[0], 1.0, i1) || permanent(sides[1].by[0], 1.0, i2), "overloaded", "");
        unsigned long d = std::numeric_limits<unsigned long>::max();
        const Result r1 = evaluate(sides[0].by[0], 1.0, i1), r2 = evaluate(sides[1].by[0], 1.0, i2);
        if (r1.over) d = std::min(d, r1.duration);
        if (r2.over) d = std::min(d, r2.duration);
        c.checkEq(br.getOverloadDuration(), d, "overload-duration", "");
        if (r1.over && r2.over) c.label("overload at both sides");
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C16";
    cfg.rule = "histories of valid and invalid current, active power and apparent power limits, permanent limit changes, removals and flows in several variants at both sides of a line, tie line or transformer; limits as listed and the results of every check, for several reduction factors, "
               "are compared with a direct evaluation from the limits given and the flows (the current being the one the terminal reports), including flows equal to a limit. Non-trivial: a temporary limit applies to a flow.";
    cfg.quick = 160000;
    cfg.thorough = 3000000;
    cfg.quickSeconds = 40;
    cfg.requiredLabels = {"refused", "current", "active power", "apparent power", "replaced", "removed", "temporary limit exceeded", "permanent limit exceeded", "at the boundary", "limit equal to the flow", "overloaded", "overload at both sides", "several temporary limits", "unique name", "variants"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        r.build();
        const unsigned steps = 3 + static_cast<unsigned>(c.s.draw(20));
        for (unsigned i = 0; i < steps; ++i) {
            switch (c.s.weighted({8, 2, 1, 6, 2, 2})) {
                case 0: r.newLimits(); r.verifyLists(); break;
                case 1: r.changePermanent(); r.verifyLists(); break;
                case 2: r.removeLimits(); r.verifyLists(); break;
                case 3: r.setFlows(); break;
                case 4: r.limitAtCurrent(); break;
                default:
                    if (r.variants.size() < 3 && c.s.chance(50)) {
                        const std::string v = "v" + std::to_string(r.variants.size());
                        r.n.getVariantManager().cloneVariant(r.n.getVariantManager().getWorkingVariantId(), v);
                        r.variants.push_back(v);
                    }
                    r.n.getVariantManager().setWorkingVariant(c.s.pick(r.variants));
                    c.note("work on " + r.n.getVariantManager().getWorkingVariantId());
                    if (r.variants.size() > 1) c.label("variants");
                    break;
            }
            r.verifyFlows();
        }
    });
}
