// Parallel evaluation: the results of all workers merged into a master equal
// the serial evaluation, for any splitting, evaluator and earlier use of the
// workers and of the master.
#include "common.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/serialization.ipp>

#ifndef VP_WHAT
#define VP_WHAT 0
#endif

#if VP_WHAT == 0
typedef VpSum PQ;
static const char* T[2] = {"C", "O"};
static void setup(PQ& p) { p.setRmax(7); }
static vector<double> results(const PQ& p) { return p.value(); }
#elif VP_WHAT == 1
typedef BondCalculator PQ;
static const char* T[2] = {"C", "O"};
static void setup(PQ& p) { p.setRmax(7); }
static vector<double> results(const PQ& p)
{
    vector<double> rv = p.value();
    vector<int> s0 = p.sites0(), s1 = p.sites1();
    vector<R3::Vector> d = p.directions();
    vp_check(d.size() == rv.size() && s0.size() == rv.size() && s1.size() == rv.size(), "consistent-sizes");
    for (size_t i = 0; i < s0.size(); ++i) { rv.push_back(s0[i]); rv.push_back(s1[i]); }
    for (size_t i = 0; i < d.size(); ++i) for (int k = 0; k < 3; ++k) rv.push_back(d[i][k]);
    return rv;
}
#elif VP_WHAT == 2
typedef OverlapCalculator PQ;
static const char* T[2] = {"C", "O"};
static void setup(PQ& p) { p.getAtomRadiiTable()->setCustom("C", 1.1); p.getAtomRadiiTable()->setCustom("O", 1.7); }
static vector<double> results(const PQ& p)
{
    vector<double> rv = p.siteSquareOverlaps(), c = p.coordinations();
    rv.insert(rv.end(), c.begin(), c.end());
    vector<R3::Vector> g = p.gradients();
    for (size_t i = 0; i < g.size(); ++i) for (int k = 0; k < 3; ++k) rv.push_back(g[i][k]);
    rv.push_back(p.totalSquareOverlap());
    for (size_t i = 0; i < c.size(); ++i) rv.push_back(p.getNeighborSites(i).size());
    rv.push_back(p.distances().size());
    return rv;
}
#elif VP_WHAT == 3
typedef BVSCalculator PQ;
static const char* T[2] = {"Na1+", "Cl1-"};
static void setup(PQ& p) { p.setRmax(8); }
static vector<double> results(const PQ& p) { return p.value(); }
#elif VP_WHAT == 4
typedef PDFCalculator PQ;
static const char* T[2] = {"C", "O"};
static void setup(PQ& p)
{
    p.setRmax(7); p.setRstep(0.5); p.setMaxExtension(1.0);
    p.setScatteringFactorTableByType("neutron");
}
static vector<double> results(const PQ& p) { return p.value(); }
#else
typedef DebyePDFCalculator PQ;
static const char* T[2] = {"C", "O"};
static void setup(PQ& p) { p.setRmax(5); p.setRstep(0.5); p.setQmax(4); p.setMaxExtension(1.0);
    p.setDebyePrecision(0); p.setScatteringFactorTableByType("neutron"); }
static vector<double> results(const PQ& p) { return p.value(); }
#endif

static vector<double> w;
static double xs;
static StructureAdapterPtr stru(int n, bool periodic, int edit)
{
    AtomicStructureAdapterPtr a;
    PeriodicStructureAdapterPtr p;
    if (periodic) { a = p = boost::make_shared<PeriodicStructureAdapter>(); p->setLatPar(4, 5, 6, 90, 90, 100); }
    else a = mkstru();
    for (int i = 0; i < n; ++i)
    {
        double x = 1.3 * i;
#if VP_WHAT == 1
        if (i == 1) x = xs;
#endif
        double wi = w[i % w.size()];
        if (edit == 1 && i == 1) wi = w.back();
#if VP_WHAT == 1
        if (edit == 1 && i == 1) x = 1.7;
#endif
        if (edit == 2 && i == 1) continue;
        const double t = VP_WHAT == 1 ? 0 : 1;
        a->append(mkatom(T[i % 2], x, t * 0.4 * (i % 3), t * 0.1 * i, wi, 0.005));
    }
    if (edit == 3) a->append(mkatom(T[1], -1.5, 0.2, 0.5, w[0], 0.005));
    return a;
}

template <class E> static bool throws(PQ& p, const string& d, int n)
{
    try { p.mergeParallelData(d, n); } catch (E&) { return true; }
    return false;
}

void vp_main()
{
#if VP_WHAT == 1
    w.assign(4, 1.0);
#else
    for (int i = 0; i < 4; ++i) w.push_back(vp_sym("occ", 0.1 + 0.5 * i, 0.5 + 0.5 * i));
#endif
    const int n = vp_choose("size", 2) ? 12 : 3;
    const bool periodic = n == 3 && vp_choose("periodic", 2);
#if VP_WHAT == 1
    xs = n == 3 && !periodic ? vp_sym("x", 0.4, 2.2) : 1.3;
#endif
    const int ncpu = n == 3 ? 1 + vp_choose("ncpu", VP_T(VP_WHAT == 5 ? 3 : 4, 4)) : 2 + vp_choose("ncpu", 2);
    const PQEvaluatorType evs[3] = {BASIC, OPTIMIZED, CHECK};
#if VP_WHAT == 2 || VP_WHAT == 3
    const PQEvaluatorType ev = BASIC;
#else
    const PQEvaluatorType ev = evs[vp_choose("evaluator", 2)];
#endif
    const int mask = vp_choose("mask", VP_T(VP_WHAT == 5 ? 2 : 3, 3));
    const int history = vp_choose("history", 5);
    const int edit = history ? vp_choose("edit", VP_T(VP_WHAT == 5 ? 2 : 4, 4)) : 0;
    StructureAdapterPtr A = stru(n, periodic, 0), B = stru(n, periodic, edit);
    vector<PQ> q(ncpu + 2);     // workers, master, serial
    for (int k = 0; k < ncpu + 2; ++k)
    {
#if VP_WHAT == 0
        // a calculator that was never configured in some of the cases
        if (mask != 0 || history % 2 == 0) setup(q[k]);
        if (mask == 2) q[k].fullsum(true);
#else
        setup(q[k]);
#endif
        q[k].setEvaluatorType(ev);
        if (mask == 1) q[k].setPairMask(0, 1, false);
        if (mask == 2) q[k].setTypeMask(T[0], "all", false), q[k].setTypeMask(T[0], T[0], true);
    }
    PQ& master = q[ncpu];
    PQ& serial = q[ncpu + 1];
    if (ev == OPTIMIZED) serial.setEvaluatorType(BASIC);
    vector<double> expect;
    serial.eval(B);
    expect = results(serial);
    string d;
    vector<string> data;
    for (int k = 0; k < ncpu; ++k)
    {
        PQ* worker = &q[k];
        PQ copy;
        switch (history)
        {
            case 1:     // reused worker
                worker->setupParallelRun(k, ncpu);
                worker->eval(A);
                break;
            case 2:     // worker used serially before
                worker->eval(A);
                worker->setupParallelRun(k, ncpu);
                break;
            case 3:     // worker used for another share before
                worker->setupParallelRun((k + 1) % ncpu, ncpu);
                worker->eval(A);
                worker->setupParallelRun(k, ncpu);
                break;
            case 4:     // the way of the Python layer: master copies with the structure in place
                if (k == 0) { master.eval(A); master.setStructure(B); }
                worker->eval(A);
                worker->setStructure(B);
                worker->setupParallelRun(k, ncpu);
                break;
            default:
                worker->setupParallelRun(k, ncpu);
        }
        if (history == 4) worker->eval();
        else worker->eval(B);
        data.push_back(worker->getParallelData());
    }
    if (history == 2) { master.eval(A); }
    master.setStructure(B);
#if VP_WHAT == 2
    if (mask) results(master);      // a query before the merge is harmless
#endif
    const bool backwards = VP_T(VP_WHAT == 5 ? ncpu == 2 : vp_choose("backwards", 2), vp_choose("backwards", 2));
    for (int k = 0; k < ncpu; ++k) master.mergeParallelData(data[backwards ? ncpu - 1 - k : k], ncpu);
    check_same(results(master), expect, 1e-8, "merged-equals-serial");
    vp_check(throws<std::runtime_error>(master, data[0], ncpu), "surplus-merge-rejected");
    check_same(results(master), expect, 1e-8, "value-after-rejected-merge");
#if VP_WHAT == 0 || VP_WHAT == 4 || VP_WHAT == 5
    {
        // a share of a different calculation is rejected and changes nothing
        PQ other;
        setup(other);
#if VP_WHAT == 0
        struct Wrong : VpSum { Wrong() { this->resizeValue(4); } } wrong;
        const string bad = wrong.getParallelData();
#else
        other.setRmax(3);
#if VP_WHAT == 5
        other.setQmax(3);
#endif
        other.eval(B);
        const string bad = other.getParallelData();
#endif
        master.setStructure(B);
        master.mergeParallelData(data[0], ncpu + 1);
        vp_check(throws<std::invalid_argument>(master, bad, ncpu + 1), "share of a different size rejected");
        for (int k = 1; k < ncpu; ++k) master.mergeParallelData(data[k], ncpu + 1);
        check_same(master.value(), expect, 1e-8, "value-after-rejected-share");
    }
#endif
    // workers can be used serially again
    q[0].setupParallelRun(0, 1);
    q[0].eval(B);
    check_same(results(q[0]), expect, 1e-8, "worker-serial-again");
    // and the master can be reused
    master.setStructure(A);
    master.eval();
    serial.eval(A);
    check_same(results(master), results(serial), 1e-8, "master-serial-again");
    vp_reach(n == 3 ? "inner" : "outer");
}
