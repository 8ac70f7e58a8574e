// C17: derived electrical quantities obey the circuit equations.
#include "../model/gen.hpp"

#include <powsybl/iidm/util/LinkData.hpp>
#include <powsybl/iidm/util/SV.hpp>

#include <algorithm>
#include <cmath>
#include <complex>

using namespace powsybl::iidm;
using pbt::Case;

namespace {

typedef std::complex<long double> C;
const double NaN = std::nan("");
const long double PI_L = 3.14159265358979323846264338327950288L;

C polar(long double m, long double degrees) { return C(m * std::cos(degrees * PI_L / 180), m * std::sin(degrees * PI_L / 180)); }

// An ideal transformer of ratio `rho` and phase shift `alpha` (degrees) at end 1, followed by a pi section.
struct TwoPort {
    double r, x, g1, b1, g2, b2, rho, alpha;
};

struct State { double p, q, u, a; };

struct Far {
    C v, s;
    long double vScale, sScale;  // magnitudes of the terms added up, for the tolerances
};

// Kirchhoff's laws, from one end to the other: currents enter the two-port at both ends.
Far far(const TwoPort& t, const State& in, bool fromEnd1) {
    const C z(t.r, t.x), ya(t.g1, t.b1), yb(t.g2, t.b2), ratio = polar(t.rho, t.alpha);
    C v = polar(in.u, in.a);
    const C s(in.p, in.q);
    Far f;
    if (fromEnd1) {
        C i = std::conj(s / v);          // at end 1
        v = v * ratio;                   // behind the ideal transformer, which keeps the power
        i = i / std::conj(ratio);
        const C ia = ya * v, is = i - ia;
        f.v = v - z * is;
        const C ib = yb * f.v;
        f.s = f.v * std::conj(ib - is);
        f.vScale = std::abs(v) + std::abs(z) * (std::abs(i) + std::abs(ia));
        f.sScale = (std::abs(v) + std::abs(f.v)) / std::abs(z) * std::abs(f.v) + std::abs(f.v) * (std::abs(ib) + std::abs(is) + std::abs(i) + std::abs(ia)) + f.vScale * (std::abs(f.v) / std::abs(z) + std::abs(is));
    } else {
        const C i = std::conj(s / v), ib = yb * v, is = i - ib;
        const C w = v - z * is;          // behind the ideal transformer
        const C ia = ya * w;
        f.s = w * std::conj(ia - is);
        f.v = w / ratio;
        f.vScale = (std::abs(v) + std::abs(z) * (std::abs(i) + std::abs(ib))) / std::abs(ratio);
        f.sScale = (std::abs(v) + std::abs(w)) / std::abs(z) * std::abs(w) + std::abs(w) * (std::abs(ia) + std::abs(is) + std::abs(i) + std::abs(ib)) + f.vScale * std::abs(ratio) * (std::abs(w) / std::abs(z) + std::abs(is));
    }
    return f;
}

class Run {
public:
    explicit Run(Case& c) : c(c), s(c.s), n("n", "test") {}
    Case& c;
    pbt::Src& s;
    Network n;

    double real(std::initializer_list<double> nice, double lo, double hi) {
        if (s.chance(40)) return s.pickOf(nice);
        return lo + (hi - lo) * static_cast<double>(s.draw(1000001)) / 1e6;
    }
    double power() { return real({0.0, 1.0, -1.0, 100.0, -250.0, 0.001}, -1500, 1500); }
    double voltage() { return real({1.0, 225.0, 400.0, 380.5}, 0.5, 450); }
    double angle() { return real({0.0, 30.0, -90.0, 180.0, 1.0}, -179, 179); }
    double shunt() { return real({0.0, 1e-4, -1e-4, 1e-6}, -0.01, 0.01); }
    double resistance() { return real({0.0, 1.0, 0.1}, 0.001, 60); }
    double reactance() { return real({1.0, 10.0, -2.0, 0.1}, 0.01, 120); }  // never 0: no zero impedance
    double ratedU() { return real({225.0, 400.0, 1.0, 63.0}, 1, 450); }
    double percent() { return real({0.0, 10.0, -50.0, 100.0}, -60, 150); }
    double maybe(double v) { return s.chance(6) ? NaN : v; }

    State state() {
        State x{power(), power(), voltage(), angle()};
        if (s.chance(7)) {
            switch (s.draw(4)) {
                case 0: x.p = NaN; break;
                case 1: x.q = NaN; break;
                case 2: x.u = NaN; break;
                default: x.a = NaN; break;
            }
        }
        return x;
    }

    static std::string text(const State& x) { return "P=" + pbt::show(x.p) + " Q=" + pbt::show(x.q) + " U=" + pbt::show(x.u) + " A=" + pbt::show(x.a); }
    static std::string text(const TwoPort& t) {
        return "r=" + pbt::show(t.r) + " x=" + pbt::show(t.x) + " g1=" + pbt::show(t.g1) + " b1=" + pbt::show(t.b1) + " g2=" + pbt::show(t.g2) + " b2=" + pbt::show(t.b2) + " rho=" + pbt::show(t.rho) + " alpha=" + pbt::show(t.alpha);
    }

    void near(double actual, long double expected, long double scale, const std::string& key, const std::string& what) {
        c.compared();
        if (std::isnan(actual) || std::abs(static_cast<long double>(actual) - expected) > 1e-12L * (scale + 1e-3L) * 64) {
            c.fail(key, what + " is " + pbt::show(actual) + ", not " + pbt::show(static_cast<double>(expected)));
        }
    }
    static long double wrap(long double d) {
        while (d > 180) d -= 360;
        while (d < -180) d += 360;
        return d;
    }

    // p, q, u and a as given by the library; NaN members of `in` are undefined
    void compare(const TwoPort& t, const State& in, bool fromEnd1, const double* p, const double* q, const double* u, const double* a, const std::string& what) {
        const std::string w = what + " (" + text(t) + "; " + text(in) + (fromEnd1 ? " at end 1)" : " at end 2)");
        const bool defined = !std::isnan(in.p) && !std::isnan(in.q) && !std::isnan(in.u);
        if (!defined || std::isnan(in.a)) {
            State z = in;
            z.a = 0;
            // without the angle, everything but the angle could still be known
            for (int k = 0; k < 4; ++k) {
                const double* r = k == 0 ? p : k == 1 ? q : k == 2 ? u : a;
                if (r == nullptr || std::isnan(*r)) { c.compared(); continue; }
                if (k == 3 || !defined) c.fail("undefined", w + ": a result is " + pbt::show(*r) + " from undefined data");
                const Far f = far(t, z, fromEnd1);
                if (k == 0) near(*r, f.s.real(), f.sScale, "active-power", "active power of " + w);
                if (k == 1) near(*r, f.s.imag(), f.sScale, "reactive-power", "reactive power of " + w);
                if (k == 2) near(*r, std::abs(f.v), f.vScale, "voltage", "voltage of " + w);
            }
            c.label("undefined");
            return;
        }
        const Far f = far(t, in, fromEnd1);
        if (p != nullptr) near(*p, f.s.real(), f.sScale, "active-power", "active power of " + w);
        if (q != nullptr) near(*q, f.s.imag(), f.sScale, "reactive-power", "reactive power of " + w);
        if (u != nullptr) near(*u, std::abs(f.v), f.vScale, "voltage", "voltage of " + w);
        if (a != nullptr && std::abs(f.v) > 1e-6L * f.vScale) {
            const long double d = wrap(static_cast<long double>(*a) - std::arg(f.v) * 180 / PI_L);
            near(static_cast<double>(d), 0, f.vScale / std::abs(f.v) * 60 + 180, "angle", "angle " + pbt::show(*a) + " of " + w + ": difference");
        }
        c.nontrivial();
    }

    template <typename F> void compareSv(const TwoPort& t, const State& in, Branch::Side side, const F& go, const std::string& what) {
        const SV from(in.p, in.q, in.u, in.a, side);
        const SV to = go(from);
        c.checkEq(to.getSide() == side, false, "side", what + ": same side");
        const double p = to.getP(), q = to.getQ(), u = to.getU(), a = to.getA();
        compare(t, in, side == Branch::Side::ONE, &p, &q, &u, &a, what);
        if (std::isnan(in.p) || std::isnan(in.q) || std::isnan(in.u) || std::isnan(in.a)) return;
        // and back
        const Far f = far(t, in, side == Branch::Side::ONE);
        if (std::abs(f.v) < 1e-3L * f.vScale || std::abs(f.v) < 1e-3L || f.vScale > 1e4L || f.sScale > 1e9L) return;
        const SV back = go(to);
        const State far1{p, q, u, a};
        const Far g = far(t, far1, side != Branch::Side::ONE);
        const std::string w = what + " and back (" + text(t) + "; " + text(in) + ")";
        c.check(back.getSide() == side, "side", w + ": other side");
        // the error of the first step is amplified by the second one
        const long double z = std::hypot(t.r, t.x), k = 1 + f.sScale / std::abs(f.v) * z / std::abs(f.v);
        near(back.getU(), in.u, k * (g.vScale + in.u) * 10, "there-and-back", "voltage of " + w);
        near(back.getP(), in.p, k * (g.sScale + f.sScale) * 10, "there-and-back", "active power of " + w);
        near(back.getQ(), in.q, k * (g.sScale + f.sScale) * 10, "there-and-back", "reactive power of " + w);
        near(static_cast<double>(wrap(static_cast<long double>(back.getA()) - in.a)), 0, k * (g.vScale / in.u * 60 + 180) * 10, "there-and-back", "angle of " + w + ": difference");
        c.label("there and back");
    }

    Branch::Side side() { return s.chance(50) ? Branch::Side::ONE : Branch::Side::TWO; }

    void raw() {
        const TwoPort t{resistance(), reactance(), shunt(), shunt(), shunt(), shunt(), real({1.0, 0.5, 2.0}, 0.3, 3), angle()};
        const State in = state();
        const Branch::Side sd = side();
        const SV sv(in.p, in.q, in.u, in.a, sd);
        c.check(pbt::hex(sv.getP()) == pbt::hex(in.p) && pbt::hex(sv.getQ()) == pbt::hex(in.q) && pbt::hex(sv.getU()) == pbt::hex(in.u) && pbt::hex(sv.getA()) == pbt::hex(in.a) && sv.getSide() == sd, "state", "a state does not read back");
        compareSv(t, in, sd, [&](const SV& x) { return x.otherSide(t.r, t.x, t.g1, t.b1, t.g2, t.b2, t.rho, t.alpha * stdcxx::toRadians); }, "raw two-port");
        const double al = t.alpha * stdcxx::toRadians;
        const double p = sv.otherSideP(t.r, t.x, t.g1, t.b1, t.g2, t.b2, t.rho, al), q = sv.otherSideQ(t.r, t.x, t.g1, t.b1, t.g2, t.b2, t.rho, al),
                     u = sv.otherSideU(t.r, t.x, t.g1, t.b1, t.g2, t.b2, t.rho, al), a = sv.otherSideA(t.r, t.x, t.g1, t.b1, t.g2, t.b2, t.rho, al);
        compare(t, in, sd == Branch::Side::ONE, &p, &q, &u, &a, "raw two-port, quantity by quantity");
    }

    // The admittance matrix gives the currents of the circuit for any voltages.
    void matrix() {
        const double r = s.chance(10) ? 0 : resistance(), x = s.chance(10) ? 0 : reactance();
        const double m1 = real({1.0, 0.5}, 0.3, 3), m2 = real({1.0, 2.0}, 0.3, 3), t1 = real({0.0, 1.0}, -3, 3), t2 = real({0.0, 0.5}, -3, 3);
        const std::complex<double> sh1(shunt(), shunt()), sh2(shunt(), shunt());
        const LinkData::BranchAdmittanceMatrix m = LinkData::calculateBranchAdmittance(r, x, m1, t1, m2, t2, sh1, sh2);
        const C a1(m1 * std::cos(static_cast<long double>(t1)), m1 * std::sin(static_cast<long double>(t1))), a2(m2 * std::cos(static_cast<long double>(t2)), m2 * std::sin(static_cast<long double>(t2)));
        const bool open = r == 0 && x == 0;
        const C y = open ? C(0) : C(1) / C(r, x);
        for (int k = 0; k < 2; ++k) {
            const C v1 = polar(voltage(), angle()), v2 = polar(voltage(), angle());
            const C w1 = v1 / a1, w2 = v2 / a2;
            const C i1 = (y * (w1 - w2) + C(sh1.real(), sh1.imag()) * w1) / std::conj(a1), i2 = (y * (w2 - w1) + C(sh2.real(), sh2.imag()) * w2) / std::conj(a2);
            const C j1 = C(m.y11.real(), m.y11.imag()) * v1 + C(m.y12.real(), m.y12.imag()) * v2, j2 = C(m.y21.real(), m.y21.imag()) * v1 + C(m.y22.real(), m.y22.imag()) * v2;
            const long double scale = (std::abs(y) + 0.02L) * (std::abs(w1) + std::abs(w2)) / std::min(std::abs(a1), std::abs(a2));
            const std::string w = " from r=" + pbt::show(r) + " x=" + pbt::show(x) + " ratios " + pbt::show(m1) + "/" + pbt::show(m2) + " angles " + pbt::show(t1) + "/" + pbt::show(t2);
            c.check(std::abs(j1 - i1) <= 1e-11L * scale, "admittance", "current of end 1" + w);
            c.check(std::abs(j2 - i2) <= 1e-11L * scale, "admittance", "current of end 2" + w);
        }
        if (open) c.label("no impedance");
    }

    void equipment() {
        Substation& sub = n.newSubstation().setId("S").add();
        for (int k = 1; k <= 2; ++k) {
            auto& vl = sub.newVoltageLevel().setId("VL" + std::to_string(k)).setNominalV(100).setTopologyKind(TopologyKind::BUS_BREAKER).add();
            vl.getBusBreakerView().newBus().setId("B" + std::to_string(k)).add();
        }
        switch (s.draw(4)) {
            case 0: {
                TwoPort t{resistance(), reactance(), shunt(), shunt(), shunt(), shunt(), 1, 0};
                Line& l = n.newLine().setId("L").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2")
                    .setR(t.r).setX(t.x).setG1(t.g1).setB1(t.b1).setG2(t.g2).setB2(t.b2).add();
                for (int k = 0; k < 2; ++k) {
                    compareSv(t, state(), side(), [&](const SV& x) { return x.otherSide(l); }, "line");
                    if (s.chance(50)) l.setR(t.r = resistance());
                    if (s.chance(50)) l.setX(t.x = reactance());
                    if (s.chance(50)) l.setG1(t.g1 = shunt()).setB2(t.b2 = shunt());
                    if (s.chance(50)) l.setG2(t.g2 = shunt()).setB1(t.b1 = shunt());
                }
                c.label("line");
                break;
            }
            case 1: transformer(sub); break;
            case 2: {
                const TwoPort t{resistance(), reactance(), shunt(), shunt(), 0, 0, 1, 0};
                DanglingLine& d = n.getVoltageLevel("VL1").newDanglingLine().setId("D").setBus("B1").setConnectableBus("B1").setR(t.r).setX(t.x).setG(t.g1).setB(t.b1).setP0(power()).setQ0(power()).add();
                const TwoPort half{t.r, t.x, t.g1 * 0.5, t.b1 * 0.5, t.g1 * 0.5, t.b1 * 0.5, 1, 0};
                for (int k = 0; k < 2; ++k) {
                    const bool split = s.chance(50), direct = !split && s.chance(50);
                    const State in = state();
                    const Branch::Side sd = side();
                    compareSv(split ? half : t, in, sd, [&](const SV& x) { return direct ? x.otherSide(d) : x.otherSide(d, split); }, "dangling line");
                    const SV x(in.p, in.q, in.u, in.a, sd);
                    const double p = direct ? x.otherSideP(d) : x.otherSideP(d, split), q = direct ? x.otherSideQ(d) : x.otherSideQ(d, split),
                                 u = direct ? x.otherSideU(d) : x.otherSideU(d, split), a = direct ? x.otherSideA(d) : x.otherSideA(d, split);
                    compare(split ? half : t, in, sd == Branch::Side::ONE, &p, &q, &u, &a, "dangling line, quantity by quantity");
                }
                c.label("dangling line");
                break;
            }
            default: {
                TwoPort h[2];
                for (auto& t : h) t = TwoPort{resistance(), reactance(), shunt(), shunt(), shunt(), shunt(), 1, 0};
                TieLine& l = n.newTieLine().setId("T").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2")
                    .newHalfLine1().setId("H1").setR(h[0].r).setX(h[0].x).setG1(h[0].g1).setB1(h[0].b1).setG2(h[0].g2).setB2(h[0].b2).add()
                    .newHalfLine2().setId("H2").setR(h[1].r).setX(h[1].x).setG1(h[1].g1).setB1(h[1].b1).setG2(h[1].g2).setB2(h[1].b2).add().setUcteXnodeCode("X").add();
                for (int k = 0; k < 2; ++k) {
                    for (int e = 0; e < 2; ++e) {
                        const TieLine::HalfLine& half = e == 0 ? l.getHalf1() : l.getHalf2();
                        const State in = state();
                        const Branch::Side sd = side();
                        const SV x(in.p, in.q, in.u, in.a, sd);
                        const double p = x.otherSideP(half), q = x.otherSideQ(half), u = x.otherSideU(half), a = x.otherSideA(half);
                        compare(h[e], in, sd == Branch::Side::ONE, &p, &q, &u, &a, "half line");
                    }
                    TwoPort t{h[0].r + h[1].r, h[0].x + h[1].x, h[0].g1 + h[1].g1, h[0].b1 + h[1].b1, h[0].g2 + h[1].g2, h[0].b2 + h[1].b2, 1, 0};
                    if (std::hypot(t.r, t.x) > 0.05) compareSv(t, state(), side(), [&](const SV& x) { return x.otherSide(static_cast<Line&>(l)); }, "tie line");
                    const int e = static_cast<int>(s.draw(2));
                    TieLine::HalfLine& half = e == 0 ? l.getHalf1() : l.getHalf2();
                    if (s.chance(50)) half.setR(h[e].r = resistance()).setX(h[e].x = reactance());
                    if (s.chance(50)) half.setG1(h[e].g1 = shunt()).setB2(h[e].b2 = shunt());
                    if (s.chance(50)) half.setG2(h[e].g2 = shunt()).setB1(h[e].b1 = shunt());
                }
                c.label("tie line");
                break;
            }
        }
    }

    struct Step { double rho, alpha, r, x, g, b; };

    void transformer(Substation& sub) {
        double u1 = ratedU(), u2 = ratedU(), r = resistance(), x = reactance(), g = shunt(), b = shunt();
        TwoWindingsTransformer& t = sub.newTwoWindingsTransformer().setId("T").setVoltageLevel1("VL1").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VL2").setBus2("B2").setConnectableBus2("B2")
            .setR(r).setX(x).setG(g).setB(b).setRatedU1(u1).setRatedU2(u2).add();
        std::vector<Step> ratio, phase;
        long lowR = s.range(-3, 3), lowP = s.range(-3, 3);
        auto step = [&](bool ph) {
            return Step{real({1.0, 0.9, 1.1}, 0.5, 1.6), ph ? real({0.0, 30.0, -5.0}, -80, 80) : 0, percent(), percent(), percent(), percent()};
        };
        if (s.chance(60)) {
            for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0; --k) ratio.push_back(step(false));
            auto a = t.newRatioTapChanger();
            a.setLowTapPosition(lowR).setTapPosition(lowR).setLoadTapChangingCapabilities(false);
            for (const Step& st : ratio) a.beginStep().setRho(st.rho).setR(st.r).setX(st.x).setG(st.g).setB(st.b).endStep();
            a.add();
            c.label("ratio tap changer");
        }
        if (s.chance(60)) {
            for (unsigned k = 1 + static_cast<unsigned>(s.draw(4)); k > 0; --k) phase.push_back(step(true));
            auto a = t.newPhaseTapChanger();
            a.setLowTapPosition(lowP).setTapPosition(lowP).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP);
            for (const Step& st : phase) a.beginStep().setRho(st.rho).setAlpha(st.alpha).setR(st.r).setX(st.x).setG(st.g).setB(st.b).endStep();
            a.add();
            c.label("phase tap changer");
        }
        std::vector<std::string> variants{VariantManager::getInitialVariantId()};
        std::map<std::string, std::pair<unsigned, unsigned>> pos;
        pos[variants[0]] = {0, 0};
        for (int k = 0; k < 3; ++k) {
            const std::string v = n.getVariantManager().getWorkingVariantId();
            const Step none{1, 0, 0, 0, 0, 0};
            const Step a = ratio.empty() ? none : ratio[pos[v].first], p = phase.empty() ? none : phase[pos[v].second];
            auto pct = [](double value, double one, double two) { return static_cast<double>(static_cast<long double>(value) * (1 + static_cast<long double>(one) / 100) * (1 + static_cast<long double>(two) / 100)); };
            TwoPort q{pct(r, a.r, p.r), pct(x, a.x, p.x), pct(g, a.g, p.g), pct(b, a.b, p.b), 0, 0, u2 / u1 * a.rho * p.rho, p.alpha};
            const bool split = s.chance(40), direct = !split && s.chance(50);
            if (split) {
                q.g1 = q.g2 = q.g1 / 2;
                q.b1 = q.b2 = q.b1 / 2;
            }
            if (std::hypot(q.r, q.x) > 1e-3 && q.rho > 1e-2 && q.rho < 1e2)
                compareSv(q, state(), side(), [&](const SV& sv) { return direct ? sv.otherSide(t) : sv.otherSide(t, split); }, "transformer");
            if (!ratio.empty() && s.chance(60)) t.getRatioTapChanger().setTapPosition(lowR + static_cast<long>(pos[v].first = static_cast<unsigned>(s.draw(ratio.size()))));
            if (!phase.empty() && s.chance(60)) t.getPhaseTapChanger().setTapPosition(lowP + static_cast<long>(pos[v].second = static_cast<unsigned>(s.draw(phase.size()))));
            if (s.chance(20)) t.setR(r = resistance()).setX(x = reactance());
            if (s.chance(20)) t.setG(g = shunt()).setB(b = shunt());
            if (s.chance(20)) t.setRatedU1(u1 = ratedU()).setRatedU2(u2 = ratedU());
            if (s.chance(30)) {
                const std::string w = "v" + std::to_string(variants.size());
                n.getVariantManager().cloneVariant(v, w);
                pos[w] = pos[v];
                variants.push_back(w);
                c.label("variants");
            }
            n.getVariantManager().setWorkingVariant(s.pick(variants));
        }
        c.label("transformer");
    }

    // Boundaries, bus sums and currents of a whole network.
    void network() {
        gen::Options o;
        o.extreme = false;
        o.nasty = false;
        o.maxEquipment = 14;
        gen::World w(c, n, o);
        w.build();
        auto levels = w.levels();
        if (levels.empty()) return;
        for (unsigned k = static_cast<unsigned>(s.draw(3)); k > 0; --k) w.addDanglingLine(*w.pickOne(levels));
        if (s.chance(50)) w.addTieLine();
        for (unsigned k = static_cast<unsigned>(s.draw(4)); k > 0; --k) { if (s.chance(50)) w.switchOp(); else w.connectOp(); }
        // parameters of usual size
        for (DanglingLine* d : w.all<DanglingLine>()) d->setR(resistance()).setX(reactance()).setG(shunt()).setB(shunt());
        auto ties = w.all<Line>();
        for (Line* l : ties) {
            if (!l->isTieLine()) continue;
            auto& t = dynamic_cast<TieLine&>(*l);
            for (TieLine::HalfLine* h : {&t.getHalf1(), &t.getHalf2()}) h->setR(resistance()).setX(reactance()).setG1(shunt()).setB1(shunt()).setG2(shunt()).setB2(shunt());
        }
        auto terminals = w.terminals();
        const std::vector<std::string> variants = s.chance(30) ? std::vector<std::string>{VariantManager::getInitialVariantId(), "v1"} : std::vector<std::string>{VariantManager::getInitialVariantId()};
        if (variants.size() > 1) { n.getVariantManager().cloneVariant(variants[0], "v1"); c.label("variants"); }
        std::map<std::string, std::map<const Terminal*, std::pair<double, double>>> flow;
        std::map<std::string, std::map<std::string, std::pair<double, double>>> busState;  // per bus/breaker bus
        std::map<std::string, bool> viaBusView;
        for (const std::string& v : variants) {
            n.getVariantManager().setWorkingVariant(v);
            for (Terminal* t : terminals) {
                const ConnectableType type = t->getConnectable().get().getType();
                const bool bbs = type == ConnectableType::BUSBAR_SECTION;
                const double p = maybe(power()), q = maybe(power());
                if (bbs) continue;
                t->setQ(q);
                const bool noP = type == ConnectableType::SHUNT_COMPENSATOR || type == ConnectableType::STATIC_VAR_COMPENSATOR;
                if (!(noP && s.chance(50))) { try { t->setP(p); } catch (const PowsyblException&) {} }
                flow[v][t] = {t->getP(), t->getQ()};
                c.check(pbt::hex(t->getQ()) == pbt::hex(q), "flow", "reactive power does not read back");
            }
            viaBusView[v] = s.chance(60);
            for (VoltageLevel* vl : levels) {
                for (auto& b : vl->getBusBreakerView().getBuses()) {
                    const double u = maybe(voltage()), a = maybe(angle());
                    if (viaBusView[v]) continue;
                    b.setV(u).setAngle(a);
                    busState[v][b.getId()] = {u, a};
                }
                if (!viaBusView[v]) continue;
                for (auto& b : vl->getBusView().getBuses()) {
                    const double u = maybe(voltage()), a = maybe(angle());
                    b.setV(u).setAngle(a);
                    busState[v][b.getId()] = {u, a};
                }
            }
        }
        std::string formula;
        for (const std::string& v : variants) {
            n.getVariantManager().setWorkingVariant(v);
            std::map<std::string, std::vector<const Terminal*>> busTerminals[2];
            for (const Terminal* t : terminals) {
                const auto& one = t->getBusView().getBus();
                const auto& two = t->getBusBreakerView().getBus();
                if (one) busTerminals[0][one.get().getId()].push_back(t);
                if (two) busTerminals[1][two.get().getId()].push_back(t);
                // current
                if (t->getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) {
                    c.checkEq(t->getI(), 0.0, "current", "current of a busbar section");
                } else if (two) {
                    const auto f = flow[v][t];
                    const double u = two.get().getV(), i = t->getI();
                    const double power = std::hypot(f.first, f.second), expected = power / (std::sqrt(3.0) * u / 1000), quirk = power / std::sqrt(3.0) * u / 1000;
                    c.compared();
                    if (std::isnan(power * u)) c.check(std::isnan(i), "current", "current " + pbt::show(i) + " from undefined data");
                    else if (!(std::abs(i - expected) <= 1e-12 * std::abs(expected))) {
                        if (std::abs(i - quirk) <= 1e-12 * std::abs(quirk)) formula = "with P=" + pbt::show(f.first) + ", Q=" + pbt::show(f.second) + " and U=" + pbt::show(u) + " the current is " + pbt::show(i) + " instead of " + pbt::show(expected) + ", multiplied by the voltage";
                        else c.fail("current", "with P=" + pbt::show(f.first) + ", Q=" + pbt::show(f.second) + " and U=" + pbt::show(u) + " the current is " + pbt::show(i));
                    }
                }
            }
            for (VoltageLevel* vl : levels) {
                for (int view = 0; view < 2; ++view) {
                    auto verify = [&](const Bus& b) {
                        const auto& list = busTerminals[view][b.getId()];
                        double p = 0, q = 0, sp = 0, sq = 0;
                        for (const Terminal* t : list) {
                            const ConnectableType type = t->getConnectable().get().getType();
                            const bool inject = type == ConnectableType::GENERATOR || type == ConnectableType::BATTERY || type == ConnectableType::LOAD || type == ConnectableType::HVDC_CONVERTER_STATION;
                            const bool reactive = inject || type == ConnectableType::SHUNT_COMPENSATOR || type == ConnectableType::STATIC_VAR_COMPENSATOR;
                            const auto f = flow[v][t];
                            if (inject && !std::isnan(f.first)) { p += f.first; sp += std::abs(f.first); c.label("bus sum"); }
                            if (reactive && !std::isnan(f.second)) { q += f.second; sq += std::abs(f.second); }
                        }
                        const std::string what = std::string(view == 0 ? "bus " : "bus/breaker bus ") + b.getId();
                        if (list.empty()) {
                            c.check(std::isnan(b.getP()) && std::isnan(b.getQ()), "bus-power", what + " without terminal has a power");
                            c.label("empty bus");
                        } else {
                            near(b.getP(), p, sp, "bus-power", "active power of " + what);
                            near(b.getQ(), q, sq, "bus-power", "reactive power of " + what);
                        }
                        if (!list.empty() && (view == 0) == viaBusView[v] && busState[v].count(b.getId()) > 0) {
                            const auto st = busState[v][b.getId()];
                            c.checkEq(pbt::hex(b.getV()), pbt::hex(st.first), "bus-voltage", what);
                            c.checkEq(pbt::hex(b.getAngle()), pbt::hex(st.second), "bus-angle", what);
                        }
                    };
                    if (view == 0) { for (const auto& b : vl->getBusView().getBuses()) verify(b); }
                    else { for (const auto& b : vl->getBusBreakerView().getBuses()) verify(b); }
                }
            }
            auto boundary = [&](const Boundary& b, const Terminal& t, const TwoPort& tp, bool fromEnd1, const std::string& what) {
                const auto& bus = t.getBusView().getBus();
                const auto f = flow[v][&t];
                State in{f.first, f.second, NaN, NaN};
                if (bus) {
                    in.u = bus.get().getV();
                    in.a = bus.get().getAngle();
                }
                if (!bus) c.label("boundary of a disconnected line");
                const double p = b.getP(), q = b.getQ(), u = b.getV(), a = b.getAngle();
                compare(tp, in, fromEnd1, &p, &q, &u, &a, what);
                c.check(&b.getVoltageLevel() == &t.getVoltageLevel(), "boundary-level", what + ": another voltage level");
                c.check(&b.getConnectable() == &static_cast<const Connectable&>(t.getConnectable().get()), "boundary-connectable", what + ": another connectable");
                c.label("boundary");
            };
            for (const DanglingLine* d : w.all<DanglingLine>()) {
                const TwoPort half{d->getR(), d->getX(), d->getG() / 2, d->getB() / 2, d->getG() / 2, d->getB() / 2, 1, 0};
                boundary(d->getBoundary(), d->getTerminal(), half, true, "boundary of dangling line " + d->getId());
                c.check(!d->getBoundary().getSide(), "boundary-side", "the boundary of a dangling line has a side");
            }
            for (const Line* l : ties) {
                if (!l->isTieLine()) continue;
                const auto& t = dynamic_cast<const TieLine&>(*l);
                for (int e = 0; e < 2; ++e) {
                    const TieLine::HalfLine& h = e == 0 ? t.getHalf1() : t.getHalf2();
                    const Branch::Side sd = e == 0 ? Branch::Side::ONE : Branch::Side::TWO;
                    const TwoPort tp{h.getR(), h.getX(), h.getG1(), h.getB1(), h.getG2(), h.getB2(), 1, 0};
                    boundary(h.getBoundary(), t.getTerminal(sd), tp, e == 0, "boundary " + std::to_string(e + 1) + " of tie line " + t.getId());
                    c.check(h.getBoundary().getSide() && *h.getBoundary().getSide() == sd, "boundary-side", "side of the boundary of " + h.getId());
                }
            }
        }
        c.label("network");
        if (!formula.empty() && s.chance(30)) c.fail("terminal-current-multiplied-by-voltage", formula);
    }
};

}  // namespace

int main(int argc, char** argv) {
    pbt::Config cfg;
    cfg.id = "C17";
    cfg.rule = "random line, transformer (with tap changers in several variants), dangling line and tie line parameters and states (some undefined): the state of the other end, computed from both ends, is compared with Kirchhoff's laws in long double arithmetic and brought back; "
               "admittance matrices are compared with the currents of the circuit; in random networks with random flows and voltages, boundary values, currents and power sums of every bus are compared with direct evaluations. Non-trivial: a defined state was carried to the other end.";
    cfg.quick = 160000;
    cfg.thorough = 2000000;
    cfg.quickSeconds = 40;
    cfg.requiredLabels = {"there and back", "undefined", "line", "transformer", "dangling line", "tie line", "ratio tap changer", "phase tap changer", "boundary", "boundary of a disconnected line", "bus sum", "empty bus", "variants"};
    return pbt::runMain(argc, argv, cfg, [](Case& c) {
        Run r(c);
        switch (c.s.weighted({10, 10, 50, 30})) {
            case 0: r.raw(); break;
            case 1: r.matrix(); break;
            case 2: r.equipment(); break;
            default: r.network(); break;
        }
    });
}
