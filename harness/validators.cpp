// Refused settings are reported and leave no trace; valid ones are accepted.
#include "crystal.hpp"
#include <functional>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

using diffpy::eventticker::EventTicker;
static const double EPS = 1.4e-8;

// a setter of a real number v is to refuse v < lo (or v <= eps)
struct Num { const char* name; std::function<void(double)> set; std::function<double()> get; bool positive; std::function<EventTicker()> tick; };

static void check(const Num& n, std::function<vector<double>()> others)
{
    const double v = vp_sym("value", -3, 0.05);
    const bool step = string(n.name) == "rstep";
    vp_assume(!step || v <= EPS || v > 0.03);       // keep the grids small
    const double old = n.get();
    const vector<double> o0 = others();
    const EventTicker t0 = n.tick();
    bool refused = false;
    try { n.set(v); } catch (std::invalid_argument&) { refused = true; }
    if (refused)
    {
        vp_check(n.positive ? v < 10 * EPS : v < 0, "refused without a reason");
        vp_check_eq(n.get(), old, 0, "refused value leaves no trace");
        vp_check(!(t0 < n.tick()), "refused value leaves no trace");
        check_same(others(), o0, 0, "refused value leaves no trace");
        vp_reach("refused");
    }
    else
    {
        vp_check(n.positive ? v > 0 : v >= 0, "invalid value is accepted");
        vp_check_eq(n.get(), v, 0, "value is set");
        vp_reach("accepted");
    }
}

template <class C> static std::function<vector<double>()> all(C& c)
{
    return [&c]() { vector<double> rv; std::set<string> nm = c.namesOfDoubleAttributes(); for (const string& s : nm) rv.push_back(c.getDoubleAttr(s)); return rv; };
}

static void numbers()
{
    switch (vp_choose("class", 5))
    {
        case 0:
        {
            PDFCalculator c; c.setRmax(0.3); c.setMaxExtension(0.1);
            std::function<EventTicker()> t = [&]() { return c.ticker(); };
            Num n[6] = {{"qmin", [&](double v) { c.setQmin(v); }, [&]() { return c.getQmin(); }, false, t},
                {"rmin", [&](double v) { c.setRmin(v); }, [&]() { return c.getRmin(); }, false, t},
                {"rmax", [&](double v) { c.setRmax(v); }, [&]() { return c.getRmax(); }, false, t},
                {"rstep", [&](double v) { c.setRstep(v); }, [&]() { return c.getRstep(); }, true, t},
                {"ext", [&](double v) { c.setMaxExtension(v); }, [&]() { return c.getMaxExtension(); }, false, t},
                {"attr", [&](double v) { c.setDoubleAttr("rmin", v); }, [&]() { return c.getDoubleAttr("rmin"); }, false, t}};
            check(n[vp_choose("setter", 6)], all(c));
            break;
        }
        case 1:
        {
            DebyePDFCalculator c; c.setRmax(0.3); c.setMaxExtension(0.1);
            c.setQstep(0.02);
            std::function<EventTicker()> t = [&]() { return c.ticker(); };
            Num n[6] = {{"qmin", [&](double v) { c.setQmin(v); }, [&]() { return c.getQmin(); }, false, t},
                {"rmin", [&](double v) { c.setRmin(v); }, [&]() { return c.getRmin(); }, false, t},
                {"rmax", [&](double v) { c.setRmax(v); }, [&]() { return c.getRmax(); }, false, t},
                {"rstep", [&](double v) { c.setRstep(v); }, [&]() { return c.getRstep(); }, true, t},
                {"ext", [&](double v) { c.setMaxExtension(v); }, [&]() { return c.getMaxExtension(); }, false, t},
                {"qmax", [&](double v) { c.setQmax(v); }, [&]() { return c.getQmax(); }, true, t}};
            check(n[vp_choose("setter", 6)], all(c));
            break;
        }
        case 2:
        {
            struct B : BaseDebyeSum { } c;
            std::function<EventTicker()> t = [&]() { return c.ticker(); };
            Num n[3] = {{"qmin", [&](double v) { c.setQmin(v); }, [&]() { return c.getQmin(); }, false, t},
                {"qmax", [&](double v) { c.setQmax(v); }, [&]() { return c.getQmax(); }, false, t},
                {"qstep", [&](double v) { c.setQstep(v); }, [&]() { return c.getQstep(); }, true, t}};
            check(n[vp_choose("setter", 3)], [&c]() { return vector<double>{c.getQmin(), c.getQmax(), c.getQstep()}; });
            break;
        }
        case 3:
        {
            BVSCalculator c;
            Num n = {"precision", [&](double v) { c.setValencePrecision(v); }, [&]() { return c.getValencePrecision(); }, true, [&]() { return c.ticker(); }};
            check(n, all(c));
            break;
        }
        case 4:
        {
            CrystalStructureAdapter c;
            Num n = {"symmetry precision", [&](double v) { c.setSymmetryPrecision(v); }, [&]() { return c.getSymmetryPrecision(); }, true, []() { return EventTicker(); }};
            check(n, []() { return vector<double>(); });
            break;
        }
    }
}

template <class F> static void refuse(F f, const char* id)
{
    bool refused = false;
    try { f(); } catch (std::exception&) { refused = true; }
    vp_check(refused, id);
}

// a calculator that cannot be evaluated the optimized way
struct NoStash : PairQuantity
{
    NoStash() { this->resizeValue(1); }
    void addPairContribution(const BaseBondGenerator& b, int scale) { mvalue[0] += scale * b.distance(); }
};

// objects
static void objects()
{
    const double a = vp_sym("a", 0.1, 3);
    const int k = vp_choose("object", 9);
    switch (k)
    {
        case 0: { PDFCalculator c; PeakProfilePtr p = c.getPeakProfile(); const EventTicker t = c.ticker();
            refuse([&]() { c.setPeakProfile(PeakProfilePtr()); }, "null profile"); refuse([&]() { c.setPeakProfileByType("none"); }, "unknown profile");
            vp_check(c.getPeakProfile() == p && !(t < c.ticker()), "kept"); break; }
        case 1: { PDFCalculator c; PDFBaselinePtr p = c.getBaseline();
            refuse([&]() { c.setBaseline(PDFBaselinePtr()); }, "null baseline"); refuse([&]() { c.setBaselineByType("none"); }, "unknown baseline");
            vp_check(c.getBaseline() == p, "kept"); break; }
        case 2: { PDFCalculator c; PeakWidthModelPtr p = c.getPeakWidthModel(); const EventTicker t = c.ticker();
            refuse([&]() { c.setPeakWidthModel(PeakWidthModelPtr()); }, "null width model"); refuse([&]() { c.setPeakWidthModelByType("none"); }, "unknown width model");
            vp_check(c.getPeakWidthModel() == p && !(t < c.ticker()), "kept"); break; }
        case 3: { DebyePDFCalculator c; ScatteringFactorTablePtr p = c.getScatteringFactorTable(); const EventTicker t = c.ticker();
            refuse([&]() { c.setScatteringFactorTable(ScatteringFactorTablePtr()); }, "null table"); refuse([&]() { c.setScatteringFactorTableByType("none"); }, "unknown table");
            vp_check(c.getScatteringFactorTable() == p && !(t < c.ticker()), "kept"); break; }
        case 4: { PDFCalculator c; c.setDoubleAttr("scale", a); const std::set<string> u = c.usedEnvelopeTypes();
            refuse([&]() { c.addEnvelope(PDFEnvelopePtr()); }, "null envelope"); refuse([&]() { c.addEnvelopeByType("none"); }, "unknown envelope");
            refuse([&]() { c.getEnvelopeByType("stepcut"); }, "unused envelope");
            vp_check(c.usedEnvelopeTypes() == u, "kept"); vp_check_eq(c.getDoubleAttr("scale"), a, 0, "kept"); break; }
        case 5: { BVSCalculator c; BVParametersTablePtr p = c.getBVParamTable();
            refuse([&]() { c.setBVParamTable(BVParametersTablePtr()); }, "null table");
            vp_check(c.getBVParamTable() == p, "kept"); break; }
        case 6: { OverlapCalculator c; AtomRadiiTablePtr p = c.getAtomRadiiTable();
            refuse([&]() { c.setAtomRadiiTable(AtomRadiiTablePtr()); }, "null table"); refuse([&]() { c.setAtomRadiiTableByType("none"); }, "unknown table");
            vp_check(c.getAtomRadiiTable() == p, "kept");
            AtomicStructureAdapterPtr s = mkstru(); s->append(mkatom("C", 0)); s->append(mkatom("O", a));
            p->setCustom("C", 1); p->setCustom("O", 2);
            c.setRmax(2.5); c.eval(s);
            const double t = c.totalSquareOverlap();
            const int bad[3] = {-1, 2, 100}, b = bad[vp_choose("index", 3)];
            refuse([&]() { c.flipDiffTotal(0, b); }, "index out of range"); refuse([&]() { c.flipDiffMean(b, 1); }, "index out of range");
            vp_check_eq(c.totalSquareOverlap(), t, 0, "kept"); break; }
        case 7: { BondCalculator c; AtomicStructureAdapterPtr s = mkstru(); s->append(mkatom("C", 0)); s->append(mkatom("O", a));
            refuse([&]() { c.filterCone(R3::Vector(0, 0, 0), 10); }, "zero direction");
            c.setRmin(0.01); c.eval(s);
            // no filter was added
            vp_check(c.distances().size() == 2, "kept");
            // and the refused angles do not reach the filters that follow
            const double wide[3] = {180, 0, 90};
            for (double w : wide) refuse([&]() { c.filterCone(R3::Vector(0, 0, 0), w); }, "zero direction");
            BondCalculator e; e.setRmin(0.01);
            for (BondCalculator* p : {&c, &e}) { p->filterCone(R3::Vector(1, 0.1, 0), 20); p->filterCone(R3::Vector(0, 1, 0), 40); p->eval(s); }
            check_same(c.distances(), e.distances(), 0, "kept");
            vp_check(c.distances().size() == 1 && c.sites0() == e.sites0(), "kept"); break; }
        case 8: { VpSum c; AtomicStructureAdapterPtr s = mkstru(); s->append(mkatom("C", 0)); s->append(mkatom("O", a));
            c.eval(s); const QuantityType v = c.value();
            refuse([&]() { c.setEvaluatorType(PQEvaluatorType(7)); }, "invalid evaluator"); refuse([&]() { c.setupParallelRun(0, 0); }, "no CPU"); refuse([&]() { c.setupParallelRun(0, -1); }, "no CPU");
            c.setEvaluatorType(OPTIMIZED);
            NoStash ns; ns.eval(s); const double n0 = ns.value()[0];
            refuse([&]() { ns.setEvaluatorType(OPTIMIZED); }, "evaluator that is not supported");
            vp_check(ns.getEvaluatorType() == BASIC, "kept"); vp_check_eq(ns.value()[0], n0, 0, "kept"); ns.eval(s); vp_check_eq(ns.value()[0], n0, 0, "kept");
            c.eval(s); check_same(c.value(), v, 1e-9, "kept"); break; }
    }
    vp_reach("objects");
}

// lattices
static void lattices()
{
    Lattice L(2, 3, 4, 80, 95, 100);
    if (vp_choose("rotated", 2)) L.setLatBase(R3::Vector(0, 2, 0), R3::Vector(0.5, 0, 3), R3::Vector(4, 0, 0.3));
    const Lattice L0 = L;
    // determinant of the base is x * y
    const double x = vp_sym("x", -3, 3);
    const double z = vp_choose("degenerate", 2) ? 0.0 : 1.0;
    vp_assume(x < -1e-3 || x > 1e-3 || x == 0);
    const double o = vp_choose("oblique", 2);
    vp_assume(!o || x < 0 || z == 0);
    R3::Vector a(2, 0, 0.1 * o * z), b(0.2 * o, 1.5 * x, 0.3 * o * z), c(0.3 * o, 0.1 * o, 1.7 * z);
    const double det = R3::dot(a, R3::cross(b, c));
    bool refused = false;
    try { L.setLatBase(a, b, c); } catch (std::invalid_argument&) { refused = true; }
    if (refused)
    {
        vp_check(det < 2e-8, "refused without a reason");
        vp_check(L == L0, "refused lattice leaves no trace");
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            vp_check_eq(L.base()(i, j), L0.base()(i, j), 0, "base is kept");
            vp_check_eq(L.recbase()(i, j), L0.recbase()(i, j), 0, "reciprocal base is kept");
        }
        const R3::Vector f(0.1, 0.2, 0.3), w = L.cartesian(f), w0 = L0.cartesian(f);
        for (int i = 0; i < 3; ++i) vp_check_eq(w[i], w0[i], 0, "transformation is kept");
        vp_check_eq(L.a(), L0.a(), 0, "cell lengths are kept"); vp_check_eq(L.volume(), L0.volume(), 0, "volume is kept");
        vp_reach("refused lattice");
    }
    else
    {
        vp_check(det > 0, "invalid lattice is accepted");
        vp_check_eq(L.va()[0], 2, 0, "base"); vp_check_eq(L.vb()[1], 1.5 * x, 0, "base"); vp_check_eq(L.base()(2, 2), c[2], 0, "base");
        vp_reach("accepted lattice");
    }
}

void vp_main()
{
    switch (vp_choose("what", 3))
    {
        case 0: numbers(); break;
        case 1: objects(); break;
        case 2: lattices(); break;
    }
}
