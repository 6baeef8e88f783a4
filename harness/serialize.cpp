// Saved and restored objects: settings, results and all further behaviour are
// those of the original, whatever state the target of the restore was in.
#include "crystal.hpp"
#include <functional>
#include <map>
#include <set>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <diffpy/serialization.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>

using diffpy::serialization_tostring;
using diffpy::serialization_fromstring;

#ifndef VP_WHAT
#define VP_WHAT 0
#endif

static double X;        // symbolic coordinate
static double P;        // symbolic parameter
static const char* T[2] = {"Na", "Cl"};

static StructureAdapterPtr build(int k)
{
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0, 0, 0, 1, 0.01));
    Atom a = mkatom("Cl", X, 0.1, 0, 0.9, 0.02);
    a.anisotropy = true; a.uij_cartn(0, 1) = a.uij_cartn(1, 0) = 0.003;
    if (k != 1) s->append(a);
    if (k == 2) s->append(mkatom("Na", 2.5, 1, 0, 0.7, 0.01));
    return s;
}

// ---- calculators -------------------------------------------------------------
typedef vector<double> V;
static void add(V& r, const V& v) { r.insert(r.end(), v.begin(), v.end()); }
static void masks(const PairQuantity& q, V& r)
{
    const int n = q.getStructure()->countSites();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back(q.getPairMask(i, j));
    for (const char* a : T) for (const char* b : T) r.push_back(q.getTypeMask(a, b));
}

static void common(PairQuantity& c, int k)
{
    switch (k)
    {
        case 0: return;
        case 1: c.setPairMask(0, 1, false); return;
        case 2: c.maskAllPairs(false); c.setPairMask(1, -1, true); return;
        case 3: c.setTypeMask("Na", "all", false); return;
        case 4: c.invertMask(); c.setRmin(0.4); return;
        case 5: c.setRmax(2.2); return;
    }
}

struct Pdf
{
    typedef PDFCalculator C;
    enum { NCONF = 6 };
    static const char* name() { return "pdf"; }
    static void init(C& c) { c.setRmin(0.3); c.setRmax(2.6); c.setRstep(0.35); c.setMaxExtension(0.5); c.setScatteringFactorTableByType("neutron"); c.setQmax(0); }
    static void conf(C& c, int k)
    {
        switch (k)
        {
            case 0: c.setPeakWidthModelByType("constant"); c.setDoubleAttr("width", P); return;
            case 1: c.addEnvelopeByType("sphericalshape"); c.setDoubleAttr("spdiameter", 9); c.setDoubleAttr("scale", P); c.popEnvelopeByType("qresolution"); return;
            case 2: c.setPeakProfileByType("croppedgaussian"); c.setDoubleAttr("peakprecision", 0.02); return;
            case 3: c.setBaselineByType("zero"); c.setDoubleAttr("delta2", 0.3); c.setDoubleAttr("qbroad", 0.05); return;
            case 4: c.getScatteringFactorTable()->setCustomAs("Na", "C", 2.5); return;
            case 5: c.setScatteringFactorTableByType("electronnumber"); c.setMaxExtension(0.2); c.setQmin(0.5); return;
        }
    }
    static void results(C& c, V& r)
    {
        add(r, c.getRgrid()); add(r, c.getExtendedRDF()); add(r, c.getExtendedRgrid());
        for (double x : {0.0, 0.4, 3.0}) { const V rr(1, x); add(r, c.applyEnvelopes(rr, V(1, 2.0))); add(r, c.applyBaseline(rr, V(1, 2.0))); r.push_back((*c.getPeakProfile())(x, 0.7)); }
        r.push_back(c.usedEnvelopeTypes().size()); r.push_back(c.getPeakWidthModel()->type().size()); r.push_back(c.getRadiationType().size());
        r.push_back(c.getBaseline()->type().size()); r.push_back(c.getPeakProfile()->type().size());
        for (const char* t : T) r.push_back(c.getScatteringFactorTable()->lookup(t, 0.5));
    }
};
struct Debye
{
    typedef DebyePDFCalculator C;
    enum { NCONF = 6 };
    static const char* name() { return "debye"; }
    static void init(C& c) { c.setRmin(0.3); c.setRmax(2.6); c.setRstep(0.35); c.setMaxExtension(0.5); c.setScatteringFactorTableByType("neutron"); c.setQmax(4); c.setDebyePrecision(0); }
    static void conf(C& c, int k)
    {
        switch (k)
        {
            case 0: c.setPeakWidthModelByType("constant"); c.setDoubleAttr("width", P); return;
            case 1: c.addEnvelopeByType("stepcut"); c.setDoubleAttr("stepcut", 1.5); c.setDoubleAttr("scale", P); return;
            case 2: c.setQstep(0.7); c.setQmin(0.8); return;
            case 3: c.setDoubleAttr("delta1", 0.1); c.setDebyePrecision(1e-6); return;
            case 4: c.getScatteringFactorTable()->setCustomAs("Na", "C", 2.5); return;
            case 5: c.setScatteringFactorTableByType("xray"); c.setMaxExtension(0.2); c.setOptimumQstep(); return;
        }
    }
    static void results(C& c, V& r)
    {
        add(r, c.getQgrid()); add(r, c.getRgrid()); r.push_back(c.isOptimumQstep());
        const V rr(1, 1.0); add(r, c.applyEnvelopes(rr, V(1, 2.0)));
        r.push_back(c.usedEnvelopeTypes().size()); r.push_back(c.getPeakWidthModel()->type().size()); r.push_back(c.getRadiationType().size());
        for (const char* t : T) r.push_back(c.getScatteringFactorTable()->lookup(t, 0.5));
    }
};
struct Bvs
{
    typedef BVSCalculator C;
    enum { NCONF = 3 };
    static const char* name() { return "bvs"; }
    static void init(C& c) { c.setRmax(4); c.getBVParamTable()->setAtomValence("Na", 1); c.getBVParamTable()->setAtomValence("Cl", -1); }
    static void conf(C& c, int k)
    {
        switch (k)
        {
            case 0: c.setValencePrecision(0.01); return;
            case 1: c.getBVParamTable()->setCustom(BVParam("Na", 1, "Cl", -1, P, 0.5)); return;
            case 2: c.getBVParamTable()->setAtomValence("Na", 2); c.getBVParamTable()->setCustom(BVParam("Na", 2, "Cl", -1, 2.0, 0.4)); return;
        }
    }
    static void results(C& c, V& r)
    {
        add(r, c.valences()); add(r, c.bvdiff()); r.push_back(c.bvmsdiff());
        const BVParam& b = c.getBVParamTable()->lookup("Na", 1, "Cl", -1); r.push_back(b.mRo); r.push_back(b.mB);
        r.push_back(c.getBVParamTable()->getAtomValence("Na")); r.push_back(c.getBVParamTable()->getAllCustom().size());
    }
};
struct Bond
{
    typedef BondCalculator C;
    enum { NCONF = 2 };
    static const char* name() { return "bond"; }
    static void init(C& c) { c.setRmax(3); c.setRmin(0.1); }
    static void conf(C& c, int k)
    {
        switch (k) { case 0: c.filterCone(R3::Vector(1, 0.2, 0), 30); return; case 1: c.filterCone(R3::Vector(0, 1, 0), 80); c.filterCone(R3::Vector(1, 0, 0), 10); return; }
    }
    static void results(C& c, V& r)
    {
        add(r, c.distances());
        vector<int> s = c.sites0(); r.insert(r.end(), s.begin(), s.end()); s = c.sites1(); r.insert(r.end(), s.begin(), s.end());
        vector<R3::Vector> d = c.directions(); for (auto& v : d) for (int i = 0; i < 3; ++i) r.push_back(v[i]);
        vector<string> t = c.types0(); for (auto& x : t) r.push_back(x == "Na"); t = c.types1(); for (auto& x : t) r.push_back(x == "Na");
    }
};
struct Overlap
{
    typedef OverlapCalculator C;
    enum { NCONF = 2 };
    static const char* name() { return "overlap"; }
    static void init(C& c) { c.setRmax(4); c.getAtomRadiiTable()->setCustom("Na", 1.1); c.getAtomRadiiTable()->setCustom("Cl", 0.8); }
    static void conf(C& c, int k)
    {
        switch (k)
        {
            case 0: c.getAtomRadiiTable()->setCustom("Cl", P); return;
            case 1: { AtomRadiiTablePtr t = AtomRadiiTable::createByType("constant"); boost::dynamic_pointer_cast<ConstantRadiiTable>(t)->setDefault(1.05); c.setAtomRadiiTable(t); return; }
        }
    }
    static void results(C& c, V& r)
    {
        add(r, c.overlaps()); add(r, c.siteSquareOverlaps()); r.push_back(c.totalSquareOverlap()); r.push_back(c.meanSquareOverlap()); add(r, c.gradients().size() ? V(1, c.gradients()[0][0]) : V());
        const int n = c.getStructure()->countSites();
        for (int i = 0; i < n; ++i)
        {
            const auto nb = c.getNeighborSites(i); r.push_back(nb.size()); for (int j : nb) r.push_back(j);
            for (int j = 0; j < n; ++j) r.push_back(c.flipDiffTotal(i, j));
        }
        add(r, c.coordinations());
        for (const char* t : T) r.push_back(c.getAtomRadiiTable()->lookup(t));
    }
};

template <class D> static V state(typename D::C& c, bool evaluated)
{
    V r = c.value();
    const std::set<string> nm = c.namesOfDoubleAttributes();
    for (const string& s : nm) r.push_back(c.getDoubleAttr(s));
    r.push_back(c.getEvaluatorType());
    masks(c, r);
    const StructureAdapterPtr s = c.getStructure();
    const int n = s->countSites();
    for (int i = 0; i < n; ++i)
    {
        r.push_back(s->siteAtomType(i) == "Na"); r.push_back(s->siteOccupancy(i)); r.push_back(s->siteMultiplicity(i)); r.push_back(s->siteAnisotropy(i));
        for (int k = 0; k < 3; ++k) { r.push_back(s->siteCartesianPosition(i)[k]); for (int l = 0; l < 3; ++l) r.push_back(s->siteCartesianUij(i)(k, l)); }
    }
    if (evaluated) D::results(c, r);
    return r;
}

// The event counter is process-wide; a restore in a younger process is made by
// turning it forward before the save and back after it.
extern std::pair<long, long> event_counter __asm__("_ZN6diffpy11eventticker11EventTicker5gtickE") __attribute__((weak));
static void set_counter(long n)
{
    std::pair<long, long>* volatile p = &event_counter;
    if (p) *p = std::make_pair(0L, n);
}

template <class D> static void calculator()
{
    typedef typename D::C C;
    X = vp_sym("x", 1.35, VP_T(1.39, 1.9));
    P = vp_sym("p", 0.7, 1.3);
    const bool which = vp_choose("fixed", 2);       // one of the two is symbolic
    if (which) X = 1.37; else P = 0.9;
    C c;
    D::init(c);
    const PQEvaluatorType ev[3] = {BASIC, OPTIMIZED, CHECK};
    const PQEvaluatorType evt = ev[vp_choose("evaluator", 3)];
    bool supported = true;
    try { c.setEvaluatorType(evt); } catch (std::invalid_argument&) { supported = false; }
    vp_assume(supported);
    // history of the original
    vp_assume(VP_WHAT != 3 || which || evt == OPTIMIZED);
    const int conf = vp_choose("configuration", D::NCONF + 6), hist = vp_choose("history", 3);
    vp_assume(!which || conf < D::NCONF || VP_WHAT == 3);
    vp_assume(VP_WHAT != 3 || which || VP_T(conf % 4 == 3, 1));
    vp_assume(VP_T(evt == OPTIMIZED || (hist == 1 && (evt == BASIC || conf % 2)), 1));
    auto setup = [&](C& q)
    {
        if (hist == 2) q.eval(build(2));
        if (conf < D::NCONF) D::conf(q, conf); else common(q, conf - D::NCONF);
        if (hist) q.eval(build(0));
    };
    setup(c);
    // query before it is saved, this fills up caches
    const bool queried = hist && VP_T(conf % 2, vp_choose("queried", 2));
    if (queried) state<D>(c, true);
    // target of the restore
    const int target = vp_choose("target", 4);
    if (target == 3) set_counter(1000000);
    const string s = serialization_tostring(c);
    if (target == 3) set_counter(vp_choose("young", VP_T(1, 2)) ? 0 : 5);
    boost::shared_ptr<C> pe(new C), pd(new C);
    C &e = *pe, &d = *pd;
    D::init(e);
    e.setEvaluatorType(evt);
    switch (target)
    {
        case 0: case 3: break;
        case 1: { D::init(d); const double x = X; X = 1.1; D::conf(d, D::NCONF - 1); d.setPairMask(0, -1, false); d.setTypeMask("Cl", "Cl", false); d.eval(build(2)); state<D>(d, true); X = x; break; }
        case 2: d = c; d.setRmax(1.8); d.eval(build(2)); d.setRmin(0.2); break;
    }
    // save to and restore from the text
    setup(e);
    serialization_fromstring(d, s);
    check_same(state<D>(d, hist), state<D>(e, hist), 0, "restored state");
    vp_reach(hist ? "restored results" : "restored settings");
    // both continue in the same way
    const int k = VP_T(target == 3 ? 4 : (2 * vp_choose("then", 2) + conf + target) % 4, vp_choose("then", 5));
    auto go = [&](C& q)
    {
        switch (k)
        {
            case 0: q.eval(build(0)); break;
            case 1: q.eval(build(2)); break;
            case 2: q.setRmax(2.0); q.eval(build(0)); break;
            case 3: q.eval(); break;
            case 4: q.setupParallelRun(1, 2); q.eval(build(0)); break;
        }
    };
    go(d); go(e);
    check_same(state<D>(d, true), state<D>(e, true), 1e-9, "behaviour after restore");
    // fresh evaluation by an independent object
    vp_reach(D::name());
}

// ---- structures --------------------------------------------------------------
static void bonds(StructureAdapterPtr s, V& r)
{
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmin(0.1); b->setRmax(3.1);
    for (int i = 0; i < s->countSites(); ++i)
    {
        b->selectAnchorSite(i);
        for (b->rewind(); !b->finished(); b->next()) { r.push_back(b->site1()); r.push_back(b->multiplicity()); r.push_back(b->distance()); r.push_back(b->msd()); for (int k = 0; k < 3; ++k) r.push_back(b->r01()[k]); }
    }
}

static void structures()
{
    X = vp_sym("x", 0.9, 1.9);
    const double occ = vp_sym("occupancy", 0, 1);
    AtomicStructureAdapterPtr a;
    const int kind = vp_choose("kind", 4);
    vp_assume_le(X, 3);
    switch (kind)
    {
        case 0: a = mkstru(); break;
        case 1: { PeriodicStructureAdapterPtr p = boost::make_shared<PeriodicStructureAdapter>(); p->setLatPar(3, 4, 5, 80, 95, 100); a = p; break; }
        case 2: { CrystalStructureAdapterPtr p = boost::make_shared<CrystalStructureAdapter>(); p->setLatPar(3.3, 4, 5, 90, 95, 90);
            SymOpRotTrans o; o.R = R3::identity(); o.t = R3::Vector(0, 0, 0); p->addSymOp(o); o.R(0, 0) = o.R(2, 2) = -1; o.t = R3::Vector(0, 0.5, 0); p->addSymOp(o); p->setSymmetryPrecision(1e-4); a = p; break; }
        case 3: break;
    }
    if (a)
    {
        Atom at = mkatom("Na", 0.3, 0.2, 0.1, occ, 0.01);
        at.anisotropy = true; at.uij_cartn(0, 1) = at.uij_cartn(1, 0) = 0.004;
        a->append(at); at.atomtype = "Cl"; at.xyz_cartn = R3::Vector(kind == 0 ? X : 1.2, 1.3, 1.7); a->append(at);
        CrystalStructureAdapterPtr c = boost::dynamic_pointer_cast<CrystalStructureAdapter>(a);
        if (c && vp_choose("expanded", 2)) c->updateSymmetryPositions();
    }
    StructureAdapterPtr s = a;
    if (!a) s = emptyStructureAdapter();
    const int wrap = vp_choose("wrapped", 4);
    if (wrap == 1) s = nometa(s);
    if (wrap == 2) s = nosymmetry(s);
    if (wrap == 3) s = nometa(nosymmetry(s));
    V r0, r1;
    bonds(s, r0);
    const string txt = serialization_tostring(s);
    StructureAdapterPtr t;
    if (vp_choose("target", 2)) t = build(2);
    serialization_fromstring(t, txt);
    vp_check(t && (!a || t != s), "new object");
    vp_check(t->countSites() == s->countSites(), "number of sites");
    for (int i = 0; i < s->countSites(); ++i)
    {
        vp_check(t->siteAtomType(i) == s->siteAtomType(i) && t->siteMultiplicity(i) == s->siteMultiplicity(i) && t->siteAnisotropy(i) == s->siteAnisotropy(i), "site data");
        vp_check_eq(t->siteOccupancy(i), s->siteOccupancy(i), 0, "occupancy");
        for (int k = 0; k < 3; ++k) { vp_check_eq(t->siteCartesianPosition(i)[k], s->siteCartesianPosition(i)[k], 0, "position"); for (int l = 0; l < 3; ++l) vp_check_eq(t->siteCartesianUij(i)(k, l), s->siteCartesianUij(i)(k, l), 0, "displacements"); }
    }
    vp_check_eq(t->numberDensity(), s->numberDensity(), 0, "number density");
    vp_check_eq(t->totalOccupancy(), s->totalOccupancy(), 0, "total occupancy");
    bonds(t, r1);
    check_same(r1, r0, 0, "bonds");
    // differences and edits work on the restored object
    AtomicStructureAdapterPtr b = boost::dynamic_pointer_cast<AtomicStructureAdapter>(t);
    if (b)
    {
        vp_check(*b == *a && !(*b != *a), "equal");
        StructureDifference sd = s->diff(t);
        vp_check(sd.pop0.empty() && sd.add1.empty(), "no difference");
        b->at(0).xyz_cartn[0] += 0.25; a->at(0).xyz_cartn[0] += 0.25;
        vp_check(*b == *a, "equal after the same edit");
        CrystalStructureAdapterPtr c = boost::dynamic_pointer_cast<CrystalStructureAdapter>(a), d = boost::dynamic_pointer_cast<CrystalStructureAdapter>(b);
        if (c) { c->updateSymmetryPositions(); d->updateSymmetryPositions(); vp_check_eq(d->getSymmetryPrecision(), c->getSymmetryPrecision(), 0, "precision"); vp_check(d->countSymOps() == 2, "operations"); }
        V q0, q1; bonds(a, q0); bonds(b, q1);
        check_same(q1, q0, 0, "bonds after the same edit");
        b->at(1).occupancy = 0.25;
        vp_check_eq(a->at(1).occupancy, occ, 0, "independent");
        vp_reach("structure");
    }
    else vp_reach("wrapped or empty structure");
}

// ---- components --------------------------------------------------------------
template <class B> static void component(const string& tp, const char* attr, std::function<double(const B&)> f)
{
    typedef boost::shared_ptr<B> Ptr;
    Ptr p = B::createByType(tp), q;
    const double v = vp_sym("v", 0.1, 0.9);
    if (attr) p->setDoubleAttr(attr, v);
    if (vp_choose("target", 2)) q = B::createByType(tp);
    serialization_fromstring(q, serialization_tostring(p));
    vp_check(q && q != p && q->type() == tp, "type");
    vp_check(q->namesOfDoubleAttributes() == p->namesOfDoubleAttributes(), "attributes");
    const std::set<string> nm = p->namesOfDoubleAttributes();
    for (const string& s : nm) vp_check_eq(q->getDoubleAttr(s), p->getDoubleAttr(s), 0, "attribute");
    vp_check_eq(f(*q), f(*p), 0, "function");
    if (attr)
    {
        q->setDoubleAttr(attr, 0.95);
        vp_check_eq(p->getDoubleAttr(attr), v, 0, "independent");
        p->setDoubleAttr(attr, 0.95);
        vp_check_eq(f(*q), f(*p), 0, "function after the same change");
    }
    vp_reach("component");
}

static void components()
{
    const double r = 0.31;
    switch (vp_choose("component", 6))
    {
        case 0: { const char* t[4] = {"scale", "qresolution", "sphericalshape", "stepcut"}; const char* a[4] = {"scale", "qdamp", "spdiameter", "stepcut"}; const int k = vp_choose("envelope", 4);
            component<PDFEnvelope>(t[k], a[k], [r](const PDFEnvelope& e) { return e(r); }); break; }
        case 1: { const int k = vp_choose("baseline", 2); component<PDFBaseline>(k ? "linear" : "zero", k ? "slope" : 0, [r](const PDFBaseline& e) { return e(r); }); break; }
        case 2: { component<PeakProfile>(vp_choose("cropped", 2) ? "croppedgaussian" : "gaussian", "peakprecision", [r](const PeakProfile& e) { return e(r, 0.8) + e.xboundhi(0.8); }); break; }
        case 3: { const char* t[6] = {"constant", "debye-waller", "jeong", "jeong", "jeong", "jeong"}; const char* a[6] = {"width", 0, "delta1", "delta2", "qbroad", "qbroad_seperable"};
            const int k = vp_choose("model", 6);
            StructureAdapterPtr s = build(0);
            X = 1.3; s = build(0);
            component<PeakWidthModel>(t[k], a[k], [s](const PeakWidthModel& m) { BaseBondGeneratorPtr b = s->createBondGenerator(); b->setRmin(0.1); b->setRmax(2); b->selectAnchorSite(0); b->rewind(); return m.calculate(*b); }); break; }
        case 4:
        {
            const char* t[4] = {"xray", "neutron", "electron", "electronnumber"};
            ScatteringFactorTablePtr p = ScatteringFactorTable::createByType(t[vp_choose("table", 4)]), q;
            const double v = vp_sym("v", 0.5, 9), Q = vp_sym("Q", 0.5, 9);
            p->setCustomAs("Na", "C", v, 0.7);
            if (vp_choose("target", 2)) { q = ScatteringFactorTable::createByType("xray"); q->setCustomAs("Cl", "O", 3); }
            serialization_fromstring(q, serialization_tostring(p));
            vp_check(q->type() == p->type() && q->radiationType() == p->radiationType(), "type");
            for (const char* s : {"Na", "Cl", "Na1+"}) vp_check_eq(q->lookup(s, 1.5), p->lookup(s, 1.5), 0, "scattering factor");
            vp_check_eq(q->lookup("Cl", Q), p->lookup("Cl", Q), 0, "scattering factor");
            vp_check(q->getCustomSymbols() == p->getCustomSymbols(), "custom symbols");
            vp_check(q->ticker() == p->ticker(), "time of change");
            q->resetAll();
            vp_check(p->getCustomSymbols().size() == 1, "independent");
            vp_reach("table");
            break;
        }
        case 5:
        {
            AtomRadiiTablePtr p = AtomRadiiTable::createByType("constant"), q;
            const double v = vp_sym("v", 0.5, 9);
            boost::dynamic_pointer_cast<ConstantRadiiTable>(p)->setDefault(v);
            p->setCustom("Na", 1.5);
            serialization_fromstring(q, serialization_tostring(p));
            vp_check_eq(q->lookup("Na"), 1.5, 0, "custom radius"); vp_check_eq(q->lookup("Cl"), v, 0, "default radius");
            vp_check(q->getAllCustom() == p->getAllCustom() && q->type() == p->type(), "custom radii");
            BVParametersTablePtr b = boost::make_shared<BVParametersTable>(), c;
            b->setCustom(BVParam("Na", 1, "Cl", -1, v, 0.5, "ref")); b->setAtomValence("Na", 2);
            if (vp_choose("target", 2)) { c = boost::make_shared<BVParametersTable>(); c->setCustom("Na", 1, "O", -2, 1.5, 0.4); c->setAtomValence("O", -1); }
            serialization_fromstring(c, serialization_tostring(b));
            vp_check_eq(c->lookup("Na", 1, "Cl", -1).mRo, v, 0, "custom parameter");
            vp_check(c->lookup("Cl", -1, "Na", 1).mref_id == "ref" && c->getAllCustom() == b->getAllCustom() && c->getAtomValence("Na") == 2, "custom parameters");
            vp_check(c->getAll() == b->getAll(), "parameters");
            vp_reach("table");
            break;
        }
    }
}

void vp_main()
{
#if VP_WHAT == 0
    if (vp_choose("what", 2)) components(); else structures();
#elif VP_WHAT == 1
    switch (vp_choose("calculator", 3)) { case 0: calculator<Bvs>(); break; case 1: calculator<Bond>(); break; case 2: calculator<Overlap>(); break; }
#elif VP_WHAT == 2
    calculator<Pdf>();
#else
    calculator<Debye>();
#endif
}
