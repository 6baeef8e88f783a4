// Optimized evaluation of the library's calculators after any short history of
// configuration changes and structure edits equals a fresh basic evaluation.
#include "common.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>

#ifndef VP_WHAT
#define VP_WHAT 0
#endif

static vector<double> w;
static const char* T[3] = {"C", "O", "Zz"};

// ---- structures --------------------------------------------------------------
struct Site { int type; double x, y, z; int w; double u; bool aniso; };
static vector<Site> sites;
static double lata;             // 0: not periodic
static void initsites(int kind)
{
    Site s[4] = {{0, 0, 0, 0, 0, 0.005, false}, {1, 1.3, 0.2, 0, 1, 0.007, false}, {0, 0.4, 1.5, 0.3, 2, 0.005, true}, {1, -0.2, 0.9, 1.9, 3, 0.006, false}};
    sites.assign(s, s + 4);        // with one site out of four changed the update is fast
    lata = kind ? 4 : 0;
}
static AtomicStructureAdapterPtr build()
{
    AtomicStructureAdapterPtr a;
    PeriodicStructureAdapterPtr p;
    if (lata) { a = p = boost::make_shared<PeriodicStructureAdapter>(); p->setLatPar(lata, 5, 6, 90, 90, 90); }
    else a = mkstru();
    for (size_t i = 0; i < sites.size(); ++i)
    {
        const Site& s = sites[i];
        Atom at = mkatom(T[s.type], s.x, s.y, s.z, w[s.w], s.u);
        at.anisotropy = s.aniso;
        if (s.aniso) { at.uij_cartn(1, 1) = 1.5 * s.u; at.uij_cartn(0, 1) = at.uij_cartn(1, 0) = 0.3 * s.u; }
        a->append(at);
    }
    return a;
}
static const int NEDITS = 11;
static void edit(int k)
{
    switch (k)
    {
        case 0: sites[0].x += 0.35; break;
        case 1: sites[1].type = 1 - sites[1].type; break;
        case 2: sites.back().u = 0.05; break;                       // widest peak of all
        case 3: sites[0].w = 3; break;
        case 4: sites.push_back(sites[0]); sites.back().x -= 2.1; sites.back().w = 3; break;
        case 5: sites.erase(sites.begin()); break;
        case 6: std::swap(sites[0], sites.back()); break;
        case 7: sites[0].aniso = !sites[0].aniso; break;
        case 8: if (lata) lata = 4.4; else sites[0].y = 0.8; break;
        case 9: sites.clear(); break;
        case 10: sites[0].u = 0.001; sites.back().x += 3.0; break;  // out of reach
    }
}

// ---- calculators -------------------------------------------------------------
#if VP_WHAT == 0
typedef PDFCalculator Calc;
static void setup(Calc& p)
{
    // the calculated range starts at zero, or at a point that depends on the widest peak
    if (lata) { p.setRmin(0.3); p.setRmax(3.1); p.setMaxExtension(2); }
    else { p.setRmin(1.4); p.setRmax(3.1); p.setMaxExtension(0.2); }
    p.setRstep(0.25);
    // peaks beyond the calculated range may be wider than those within it; what
    // they would add is below the precision of the profile
    p.getPeakProfile()->setPrecision(1e-10);
    p.setScatteringFactorTableByType("neutron");
}
static vector<double> results(const Calc& p)
{
    vector<double> rv = p.getExtendedRDF(), v = p.getRgrid();
    rv.insert(rv.end(), v.begin(), v.end());
    if (p.getQmax() >= M_PI / p.getRstep() && p.getQmin() == 0)
    {
        v = p.getPDF();
        rv.insert(rv.end(), v.begin(), v.end());
    }
    return rv;
}
static const int NCONF = 25;
#elif VP_WHAT == 1
typedef DebyePDFCalculator Calc;
static void setup(Calc& p)
{
    p.setRmin(0.3); p.setRmax(3.1); p.setRstep(0.25); p.setQmax(6); p.setMaxExtension(2); p.setDebyePrecision(0);
    p.setScatteringFactorTableByType("neutron");
}
static vector<double> results(const Calc& p)
{
    // the normalized F(Q) is a quotient of the value and of sums over sites
    vector<double> rv = p.value(), v = p.getQgrid();
    rv.insert(rv.end(), v.begin(), v.end());
    return rv;
}
static const int NCONF = 24;
#else
typedef BondCalculator Calc;
static void setup(Calc& p) { p.setRmin(0.3); p.setRmax(3.1); }
static vector<double> results(const Calc& p)
{
    vector<double> rv = p.value();
    vector<int> s0 = p.sites0(), s1 = p.sites1();
    vector<R3::Vector> d = p.directions();
    for (size_t i = 0; i < s0.size(); ++i) { rv.push_back(s0[i]); rv.push_back(s1[i]); }
    for (size_t i = 0; i < d.size(); ++i) for (int k = 0; k < 3; ++k) rv.push_back(d[i][k]);
    return rv;
}
static const int NCONF = 12;
#endif

#if VP_WHAT != 2
// every parameter off its default
static void rich(Calc& p)
{
    p.setPeakWidthModelByType("jeong");
    p.setDoubleAttr("delta1", 0.11);
    p.setDoubleAttr("delta2", 0.13);
    p.setDoubleAttr("qbroad", 0.06);
    p.setDoubleAttr("qbroad_seperable", 0.09);
#if VP_WHAT == 0
    p.addEnvelopeByType("qresolution");
    p.addEnvelopeByType("sphericalshape");
    p.addEnvelopeByType("stepcut");
    p.setDoubleAttr("qdamp", 0.04);
    p.setDoubleAttr("spdiameter", 7);
    p.setDoubleAttr("stepcut", 6);
    p.setDoubleAttr("scale", 1.3);
    p.setDoubleAttr("slope", -0.2);
#endif
}
// attributes of the calculator and of all its parts
static vector<string> attributes()
{
    Calc p;
    rich(p);
    std::set<string> s = p.namesOfWritableDoubleAttributes();
    return vector<string>(s.begin(), s.end());
}
static void vary(Calc& p, const string& a) { p.setDoubleAttr(a, 0.8 * p.getDoubleAttr(a) + 0.02); }
#endif

static bool failed;
static void conf(Calc& p, int k, bool opt)
{
    switch (k)
    {
        case 0: p.setRmin(1.2); return;
        case 1: p.setRmax(3.8); return;
        case 2: p.setRmax(2.2); return;
        case 3: p.setPairMask(0, 1, false); return;
        case 4: p.maskAllPairs(false); p.setPairMask(1, -1, true); return;
        case 5: p.setTypeMask("C", "all", false); return;
        case 6: p.invertMask(); return;
        case 7:     // no change of the result
            // refused while a structure that cannot be evaluated is in place
            try { if (opt) { p.setEvaluatorType(BASIC); p.setEvaluatorType(OPTIMIZED); } }
            catch (std::invalid_argument&) { vp_check(failed, "unexpected failure"); }
            return;
        case 8: if (opt) p.setStructure(mkstru()); return;
        case 9:
        {
            // an evaluation that fails
            if (!opt) return;
            vector<Site> keep = sites;
            if (sites.empty()) return;
            sites[0].type = 2;
            try { p.eval(build()); } catch (std::exception&) { failed = true; }
            sites = keep;
            return;
        }
    }
#if VP_WHAT == 2
    switch (k)
    {
        case 10: p.filterCone(R3::Vector(1, 0.1, 0), 50); return;
        case 11: p.filterOff(); return;
    }
#else
    switch (k)
    {
        case 10: p.setRstep(0.2); return;
        case 11: p.setMaxExtension(0.4); return;
        case 12: p.setPeakWidthModelByType("constant"); p.getPeakWidthModel()->setDoubleAttr("width", 0.3); return;
        case 13: if (p.getPeakWidthModel()->type() == "constant") p.getPeakWidthModel()->setDoubleAttr("width", 0.5); else p.getPeakWidthModel()->setDoubleAttr("delta2", 0.4); return;
        case 14: if (p.getPeakWidthModel()->hasDoubleAttr("qbroad")) p.getPeakWidthModel()->setDoubleAttr("qbroad", 0.2); return;
        case 15: p.getScatteringFactorTable()->setCustomAs("C", "O"); return;
        case 16: p.getScatteringFactorTable()->setCustomAs("O", "O", 2.0); return;
        case 17: p.getScatteringFactorTable()->resetAll(); return;
        case 18: p.setScatteringFactorTableByType("xray"); return;
        case 19: p.setQmax(4); return;
        case 20: p.setQmin(1.5); return;
        case 23: p.setRmax(0); return;      // empty range
        case 24: p.setRstep(0.4); return;
#if VP_WHAT == 0
        case 21: p.setPeakProfileByType("croppedgaussian"); return;
        case 22: p.getPeakProfile()->setPrecision(0.05); return;
#else
        case 21: p.setQstep(0.3); return;
        case 22: p.setDebyePrecision(0.01); return;
#endif
    }
#endif
}

void vp_main()
{
    for (int i = 0; i < 4; ++i) w.push_back(VP_WHAT == 2 ? 1.0 : vp_sym("occ", 0.1 + 0.5 * i, 0.5 + 0.5 * i));
    initsites(vp_choose("periodic", 2));
    Calc opt;
    setup(opt);
#if VP_WHAT != 2
    const bool isrich = vp_choose("rich", 2);
    const vector<string> atts = attributes();
    const int NSTEP = isrich ? int(atts.size()) : NCONF;
    if (isrich) rich(opt);
#else
    const bool isrich = false;
    const int NSTEP = NCONF;
#endif
    opt.setEvaluatorType(OPTIMIZED);
#if VP_WHAT == 1
    // the summed range shrinks in coarse steps only, therefore the reference
    // goes through the same history of configurations
    Calc twin;
    setup(twin);
    if (isrich) rich(twin);
    twin.setEvaluatorType(BASIC);
#endif
    AtomicStructureAdapterPtr s = build();
    opt.eval(s);
#if VP_WHAT == 1
    twin.eval(s);
#endif
    vector<int> confs;
    const int steps = VP_T(2, 3);
    int nconf = 0;
    for (int k = 0; k < steps; ++k)
    {
        const int what = vp_choose("step", isrich && k == 0 ? NSTEP : NSTEP + NEDITS);
        if (what < NSTEP)
        {
            confs.push_back(what);
            ++nconf;
#if VP_WHAT != 2
            if (isrich)
            {
                vary(opt, atts[what]);
#if VP_WHAT == 1
                vary(twin, atts[what]);
#endif
                vp_reach("attribute");
            }
            else
#endif
            conf(opt, what, true);
#if VP_WHAT == 1
            if (!isrich) conf(twin, what, false);
#endif
        }
        else
        {
            if (sites.empty()) initsites(lata > 0);
            edit(what - NSTEP);
        }
        if (k + 1 < steps && vp_choose("defer", 2)) continue;
        const bool inplace = what >= NSTEP && k == 0 && vp_choose("in place", 2);
        AtomicStructureAdapterPtr s1 = build();
        if (inplace && !lata)
        {
            s->assign(s1->begin(), s1->end());
            s1 = s;
        }
        opt.eval(s1);
        vp_reach(opt.getEvaluatorTypeUsed() == OPTIMIZED ? "optimized" : "basic");
        vector<double> res = results(opt);
#if VP_WHAT == 1
        twin.eval(build());
        check_same(res, results(twin), 1e-8, "optimized-equals-basic");
#else
        Calc fresh;
        setup(fresh);
#if VP_WHAT == 0
        if (isrich)
        {
            rich(fresh);
            for (size_t c = 0; c < confs.size(); ++c) vary(fresh, atts[confs[c]]);
        }
#endif
        fresh.setEvaluatorType(BASIC);
        if (!isrich) for (size_t c = 0; c < confs.size(); ++c) conf(fresh, confs[c], false);
        fresh.eval(build());
        check_same(res, results(fresh), 1e-8, "optimized-equals-basic");
#endif
    }
    if (failed) vp_reach("failed evaluation");
    vp_reach(nconf ? "configured" : "edited");
}
