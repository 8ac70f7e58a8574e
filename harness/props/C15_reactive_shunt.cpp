// C15: reactive limits and shunt models evaluate to their definition.
#include "../model/common.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <powsybl/iidm/ReactiveLimitsHolder.hpp>

using namespace powsybl::iidm;
using pbt::Case;

namespace {

const double NaN = std::nan("");
const double INF = std::numeric_limits<double>::infinity();

struct Point { double p, minQ, maxQ; };

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s), n("n", "test") {
        Substation& sub = n.newSubstation().setId("S").add();
        vl = &sub.newVoltageLevel().setId("VL").setNominalV(100).setTopologyKind(TopologyKind::BUS_BREAKER).add();
        vl->getBusBreakerView().newBus().setId("B").add();
    }
    Case& c;
    pbt::Src& s;
    Network n;
    VoltageLevel* vl;
    unsigned refused = 0, accepted = 0;

    template <typename F> bool request(const std::string& what, const std::string& why, const F& f) {
        bool ok = true;
        std::string error;
        try { f(); }
        catch (const PowsyblException& e) { ok = false; error = e.what(); }
        c.note(what + (ok ? "" : " -> " + error));
        c.check(ok == why.empty(), ok ? "accepted" : "refused", what + (ok ? " is accepted: " + why : " is refused: " + error));
        if (ok) ++accepted; else { ++refused; c.label("refused"); }
        return ok;
    }
    double num() {
        switch (s.weighted({6, 3, 2, 1})) {
            case 0: return static_cast<double>(s.range(-400, 400)) / 4;
            case 1: return static_cast<double>(s.range(-3, 3));
            case 2: return static_cast<double>(s.range(-1000000, 1000000)) * 1.3e-3;
            default: return s.pickOf({0.0, 1e9, -1e9, 1e-9, -1e-9, 0.1, 1e15, -1e15});
        }
    }

    // ---- reactive limits
    bool curve = false;
    std::vector<Point> points;                  // sorted by active power
    double minQ = -std::numeric_limits<double>::max(), maxQ = std::numeric_limits<double>::max();

    void newLimits(ReactiveLimitsHolder& h) {
        if (s.chance(30)) {
            double lo = s.chance(6) ? NaN : num(), hi = s.chance(6) ? NaN : num();
            if (lo > hi && s.chance(70)) std::swap(lo, hi);
            const bool loSet = !s.chance(4), hiSet = !s.chance(4);
            const std::string why = !loSet || std::isnan(lo) ? "no minimum" : !hiSet || std::isnan(hi) ? "no maximum" : lo > hi ? "minimum above maximum" : "";
            if (request("bounds " + pbt::show(lo) + " " + pbt::show(hi), why, [&] {
                    auto a = h.newMinMaxReactiveLimits();
                    if (loSet) a.setMinQ(lo);
                    if (hiSet) a.setMaxQ(hi);
                    a.add();
                })) { curve = false; minQ = lo; maxQ = hi; c.label("bounds"); }
            return;
        }
        std::vector<Point> ps;
        auto a = h.newReactiveCapabilityCurve();
        const unsigned count = static_cast<unsigned>(s.draw(8));
        for (unsigned k = 0; k < count; ++k) {
            Point p{s.chance(15) && !ps.empty() ? s.pick(ps).p : num(), num(), num()};
            if (s.chance(10) && !ps.empty()) p.p = std::nextafter(s.pick(ps).p, INF);
            const unsigned missing = s.chance(8) ? 1 + static_cast<unsigned>(s.draw(3)) : 0;
            const bool nan = s.chance(50);
            bool known = false;
            for (const auto& x : ps) known = known || x.p == p.p;
            if (request("point " + pbt::show(p.p) + " " + pbt::show(p.minQ) + " " + pbt::show(p.maxQ), missing ? "a value is missing" : known ? "a point with this active power exists" : "", [&] {
                    auto x = a.beginPoint();
                    if (missing != 1) x.setP(p.p); else if (nan) x.setP(NaN);
                    if (missing != 2) x.setMinQ(p.minQ); else if (nan) x.setMinQ(NaN);
                    if (missing != 3) x.setMaxQ(p.maxQ); else if (nan) x.setMaxQ(NaN);
                    x.endPoint();
                })) ps.push_back(p);
            else if (!missing) c.label("duplicate point");
        }
        if (request("curve of " + std::to_string(ps.size()) + " points", ps.size() < 2 ? "less than two points" : "", [&] { a.add(); })) {
            std::sort(ps.begin(), ps.end(), [](const Point& x, const Point& y) { return x.p < y.p; });
            points = ps;
            curve = true;
            c.label("curve");
        }
    }

    void value(double actual, long double expected, long double scale, const std::string& key, const std::string& what) {
        c.compared();
        const long double tol = scale * 1e-13L;
        if (!(std::fabs(static_cast<long double>(actual) - expected) <= tol)) c.fail(key, what + " is " + pbt::show(actual) + " instead of " + pbt::show(static_cast<double>(expected)));
    }

    void evaluate(const ReactiveLimits& l, double p) {
        const std::string at = " at " + pbt::show(p);
        if (!curve) {
            c.checkEq(pbt::hex(l.getMinQ(p)), pbt::hex(minQ), "constant-bound", "minimum" + at);
            c.checkEq(pbt::hex(l.getMaxQ(p)), pbt::hex(maxQ), "constant-bound", "maximum" + at);
            return;
        }
        if (p <= points.front().p || p >= points.back().p) {
            const Point& e = p <= points.front().p ? points.front() : points.back();
            c.checkEq(pbt::hex(l.getMinQ(p)), pbt::hex(e.minQ), "clamped", "minimum" + at);
            c.checkEq(pbt::hex(l.getMaxQ(p)), pbt::hex(e.maxQ), "clamped", "maximum" + at);
            c.label(p == e.p ? "at a point" : "outside");
            return;
        }
        for (size_t k = 1; k < points.size(); ++k) {
            const Point &a = points[k - 1], &b = points[k];
            if (p == a.p) {
                c.checkEq(pbt::hex(l.getMinQ(p)), pbt::hex(a.minQ), "at-point", "minimum" + at);
                c.checkEq(pbt::hex(l.getMaxQ(p)), pbt::hex(a.maxQ), "at-point", "maximum" + at);
                c.label("at a point");
                return;
            }
            if (p < b.p) {
                const long double t = (static_cast<long double>(p) - a.p) / (static_cast<long double>(b.p) - a.p);
                value(l.getMinQ(p), a.minQ + t * (static_cast<long double>(b.minQ) - a.minQ), std::fabs(a.minQ) + std::fabs(b.minQ), "interpolated", "minimum" + at);
                value(l.getMaxQ(p), a.maxQ + t * (static_cast<long double>(b.maxQ) - a.maxQ), std::fabs(a.maxQ) + std::fabs(b.maxQ), "interpolated", "maximum" + at);
                c.label("interpolated");
                c.nontrivial();
                return;
            }
        }
    }

    void verifyLimits(const ReactiveLimitsHolder& h) {
        const ReactiveLimits& l = h.getReactiveLimits<ReactiveLimits>();
        c.check(l.getKind() == (curve ? ReactiveLimitsKind::CURVE : ReactiveLimitsKind::MIN_MAX), "kind", "kind of reactive limits");
        request("as a curve", curve ? "" : "not a curve", [&] { h.getReactiveLimits<ReactiveCapabilityCurve>(); });
        request("as bounds", curve ? "not bounds" : "", [&] { h.getReactiveLimits<MinMaxReactiveLimits>(); });
        if (curve) {
            const auto& k = h.getReactiveLimits<ReactiveCapabilityCurve>();
            c.checkEq(k.getPointCount(), points.size(), "point-count", "points:");
            c.checkEq(pbt::hex(k.getMinP()), pbt::hex(points.front().p), "active-power-range", "minimum active power:");
            c.checkEq(pbt::hex(k.getMaxP()), pbt::hex(points.back().p), "active-power-range", "maximum active power:");
            size_t i = 0;
            for (const auto& p : k.getPoints()) {
                c.check(i < points.size(), "point", "too many points");
                c.check(p.getP() == points[i].p && p.getMinQ() == points[i].minQ && p.getMaxQ() == points[i].maxQ, "point", "point " + std::to_string(i));
                ++i;
            }
            c.checkEq(i, points.size(), "point-count", "points listed:");
        } else {
            const auto& k = h.getReactiveLimits<MinMaxReactiveLimits>();
            c.checkEq(pbt::hex(k.getMinQ()), pbt::hex(minQ), "constant-bound", "minimum");
            c.checkEq(pbt::hex(k.getMaxQ()), pbt::hex(maxQ), "constant-bound", "maximum");
        }
        for (int k = 0; k < 6; ++k) {
            double p = num();
            if (!points.empty() && s.chance(50)) {
                const size_t i = s.draw(points.size());
                p = points[i].p;
                switch (s.draw(5)) {
                    case 0: break;
                    case 1: p = std::nextafter(p, INF); break;
                    case 2: p = std::nextafter(p, -INF); break;
                    case 3: if (i) p = p + (points[i - 1].p - p) * (1.0 + s.draw(98)) / 100; break;
                    default: if (i + 1 < points.size()) p = p + (points[i + 1].p - p) / 2; break;
                }
            } else if (s.chance(10)) p = s.pickOf({INF, -INF, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), 0.0, -0.0});
            evaluate(l, p);
        }
    }

    void limits() {
        ReactiveLimitsHolder* h = nullptr;
        switch (s.draw(3)) {
            case 0: h = &vl->newGenerator().setId("E").setBus("B").setConnectableBus("B").setMinP(-100).setMaxP(100).setVoltageRegulatorOn(false).setTargetP(0).setTargetQ(0).add(); break;
            case 1: h = &vl->newBattery().setId("E").setBus("B").setConnectableBus("B").setMinP(-100).setMaxP(100).setP0(0).setQ0(0).add(); break;
            default: h = &vl->newVscConverterStation().setId("E").setBus("B").setConnectableBus("B").setLossFactor(1).setVoltageRegulatorOn(false).setReactivePowerSetpoint(0).add(); break;
        }
        verifyLimits(*h);
        for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0; --k) { newLimits(*h); verifyLimits(*h); }
    }

    // ---- shunt compensator
    std::vector<std::string> variants{VariantManager::getInitialVariantId()};
    std::map<std::string, unsigned long> count;
    bool linear = false;
    double bSection = 0, gSection = NaN;
    unsigned long maxSections = 1;
    std::vector<std::pair<double, double>> sections;

    double expectedB(unsigned long k) { return linear ? bSection * static_cast<double>(k) : k == 0 ? 0 : sections[k - 1].first; }
    double expectedG(unsigned long k) { return linear ? (std::isnan(gSection) ? 0 : gSection * static_cast<double>(k)) : k == 0 ? 0 : sections[k - 1].second; }
    unsigned long top() { return linear ? maxSections : sections.size(); }

    void verifyShunt(ShuntCompensator& x) {
        auto& m = n.getVariantManager();
        const std::string working = m.getWorkingVariantId();
        for (const auto& v : variants) {
            m.setWorkingVariant(v);
            const unsigned long k = count[v];
            c.checkEq(x.getSectionCount(), k, "section-count", "in variant " + v + ":");
            c.checkEq(x.getMaximumSectionCount(), top(), "maximum-section-count", "");
            c.checkEq(pbt::show(x.getB()), pbt::show(expectedB(k)), "susceptance", std::to_string(k) + " sections in variant " + v + ":");
            c.checkEq(pbt::show(x.getG()), pbt::show(expectedG(k)), "conductance", std::to_string(k) + " sections in variant " + v + ":");
        }
        m.setWorkingVariant(working);
        std::vector<unsigned long> ks{0, 1, top(), top() + 1, s.draw(top() + 1), 4294967296UL, ~0UL};
        for (unsigned long k : ks) {
            const std::string why = k > top() ? "above the maximum" : "";
            double b = 0, g = 0;
            if (request("susceptance of " + std::to_string(k) + " sections", why, [&] { b = x.getB(k); })) c.checkEq(pbt::show(b), pbt::show(expectedB(k)), "susceptance", std::to_string(k) + " sections:");
            if (request("conductance of " + std::to_string(k) + " sections", why, [&] { g = x.getG(k); })) c.checkEq(pbt::show(g), pbt::show(expectedG(k)), "conductance", std::to_string(k) + " sections:");
        }
        c.check(x.getModelType() == (linear ? ShuntCompensatorModelType::LINEAR : ShuntCompensatorModelType::NON_LINEAR), "model-type", "");
        request("as a linear model", linear ? "" : "not linear", [&] { x.getModel<ShuntCompensatorLinearModel>(); });
        request("as a non linear model", linear ? "linear" : "", [&] { x.getModel<ShuntCompensatorNonLinearModel>(); });
        if (linear) {
            c.checkEq(pbt::hex(x.getModel<ShuntCompensatorLinearModel>().getBPerSection()), pbt::hex(bSection), "per-section", "");
            c.checkEq(pbt::hex(x.getModel<ShuntCompensatorLinearModel>().getGPerSection()), pbt::hex(gSection), "per-section", "");
        } else {
            size_t i = 0;
            const auto& k = x.getModel<ShuntCompensatorNonLinearModel>();
            for (const auto& y : k.getAllSections()) {
                c.check(i < sections.size() && y.getB() == sections[i].first && y.getG() == sections[i].second, "section", "section " + std::to_string(i + 1));
                ++i;
            }
            c.checkEq(i, sections.size(), "section", "number of sections:");
        }
    }

    ShuntCompensator* newShunt() {
        auto a = vl->newShuntCompensator();
        a.setId("E").setBus("B").setConnectableBus("B");
        linear = s.chance(50);
        std::string why;
        if (linear) {
            bSection = s.chance(5) ? NaN : num();
            gSection = s.chance(30) ? NaN : num();
            maxSections = s.chance(4) ? 0 : s.chance(5) ? 4294967297UL : 1 + s.draw(12);
            const bool set = !s.chance(4);
            const std::string bad = std::isnan(bSection) ? "no susceptance" : !set || !maxSections ? "no maximum" : "";
            if (!request("linear model", bad, [&] {
                    auto x = a.newLinearModel();
                    x.setBPerSection(bSection);
                    if (!std::isnan(gSection)) x.setGPerSection(gSection);
                    if (set) x.setMaximumSectionCount(maxSections);
                    x.add();
                })) why = "no model";
        } else {
            auto x = a.newNonLinearModel();
            const unsigned k = static_cast<unsigned>(s.draw(7));
            for (unsigned i = 0; i < k; ++i) {
                double b = s.chance(6) ? NaN : num(), g = s.chance(30) ? NaN : num();
                if (request("section " + pbt::show(b) + " " + pbt::show(g), std::isnan(b) ? "no susceptance" : "", [&] {
                        auto y = x.beginSection();
                        y.setB(b);
                        if (!std::isnan(g) || s.chance(50)) y.setG(g);
                        y.endSection();
                    })) {
                    if (std::isnan(g)) g = sections.empty() ? 0.0 : sections.back().second;  // documented default
                    sections.emplace_back(b, g);
                }
            }
            if (!request("non linear model", sections.empty() ? "no section" : "", [&] { x.add(); })) why = "no model";
        }
        const bool set = !s.chance(4);
        const unsigned long k = why.empty() ? (s.chance(10) ? top() + 1 + s.draw(2) : s.draw(std::min(top(), 20UL) + 1)) : 0;
        if (set) a.setSectionCount(k);
        if (why.empty() && !set) why = "no section count";
        if (why.empty() && k > top()) why = "more sections than the maximum";
        ShuntCompensator* r = nullptr;
        if (request("shunt compensator of " + std::to_string(k) + " sections", why, [&] { r = &a.add(); })) count[variants[0]] = k;
        else c.check(n.getShuntCompensatorCount() == 0, "refused-with-effect", "a refused shunt compensator is in the network");
        return r;
    }

    void shunt() {
        ShuntCompensator* x = newShunt();
        if (!x) return;
        c.label(linear ? "linear" : "non linear");
        c.nontrivial();
        verifyShunt(*x);
        auto& m = n.getVariantManager();
        for (unsigned i = 1 + static_cast<unsigned>(s.draw(12)); i > 0; --i) {
            const std::string working = m.getWorkingVariantId();
            switch (s.weighted({10, 4, 4, 4, 6})) {
                case 0: {
                    const unsigned long k = s.chance(20) ? s.pickOf({top() + 1, top() + 5, ~0UL, top() + 4294967296UL}) : s.draw(std::min(top(), 30UL) + 1);
                    if (request("section count " + std::to_string(k), k > top() ? "above the maximum" : "", [&] { x->setSectionCount(k); })) count[working] = k;
                    break;
                }
                case 1:
                    if (linear) {
                        const double b = s.chance(20) ? NaN : num();
                        if (request("susceptance per section " + pbt::show(b), std::isnan(b) ? "undefined" : "", [&] { x->getModel<ShuntCompensatorLinearModel>().setBPerSection(b); })) bSection = b;
                    } else {
                        const size_t k = s.draw(sections.size());
                        const double v = s.chance(20) ? NaN : num();
                        const bool b = s.chance(50);
                        size_t j = 0;
                        auto& md = x->getModel<ShuntCompensatorNonLinearModel>();
                        for (auto& y : md.getAllSections()) {
                            if (j++ != k) continue;
                            if (request(std::string(b ? "susceptance" : "conductance") + " of section " + std::to_string(k + 1) + " = " + pbt::show(v), std::isnan(v) ? "undefined" : "", [&] { if (b) y.setB(v); else y.setG(v); })) (b ? sections[k].first : sections[k].second) = v;
                        }
                    }
                    break;
                case 2:
                    if (linear) {
                        const double g = s.chance(20) ? NaN : num();
                        request("conductance per section " + pbt::show(g), "", [&] { x->getModel<ShuntCompensatorLinearModel>().setGPerSection(g); });
                        gSection = g;
                    }
                    break;
                case 3:
                    if (linear) {
                        const unsigned long k = s.chance(20) ? 0 : 1 + s.draw(14);
                        bool elsewhere = false;  // known finding: compared with the count of the working variant only
                        for (const auto& v : variants) elsewhere = elsewhere || (v != working && count[v] > k);
                        const std::string why = k == 0 ? "no section" : count[working] > k ? "below the current count" : "";
                        if (why.empty() && elsewhere && !s.chance(40)) break;
                        if (request("maximum " + std::to_string(k), why, [&] { x->getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(k); })) {
                            maxSections = k;
                            if (elsewhere) c.fail("maximum-checked-in-working-variant-only", "a maximum of " + std::to_string(k) + " sections is accepted although more sections are in service in another variant");
                        }
                    }
                    break;
                default:
                    if (variants.size() < 4 && s.chance(50)) {
                        const std::string v = "v" + std::to_string(variants.size()), src = s.pick(variants);
                        m.cloneVariant(src, v);
                        variants.push_back(v);
                        count[v] = count[src];
                        c.note("clone " + src + " to " + v);
                    } else {
                        m.setWorkingVariant(s.pick(variants));
                        c.note("work on " + m.getWorkingVariantId());
                    }
                    if (variants.size() > 1) c.label("variants");
                    break;
            }
            verifyShunt(*x);
        }
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C15";
    cfg.rule = "random reactive limits (bounds and curves of up to 7 points given in any order, incomplete and duplicate points) of generators, batteries and converter stations, evaluated at, next to, between and outside the points against long double interpolation; "
               "random linear and non linear shunt compensators with histories of section counts, per-section values, maxima and variants, evaluated for all kinds of counts. Non-trivial: an interpolation or an accepted shunt compensator.";
    cfg.quick = 300000;
    cfg.thorough = 4000000;
    cfg.quickSeconds = 40;
    cfg.requiredLabels = {"refused", "bounds", "curve", "duplicate point", "interpolated", "outside", "at a point", "linear", "non linear", "variants"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        if (c.s.chance(50)) r.limits(); else r.shunt();
    });
}
