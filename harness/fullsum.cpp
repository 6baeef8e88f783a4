// The half sum (every pair once, doubled) equals the full sum over all ordered
// pairs, for every structure and calculator that uses it.
#include "crystal.hpp"
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

template <class B> struct Sum : B
{
    void fullsum(bool f) { this->mevaluator->setFlag(USEFULLSUM, f); }
};

struct Weighted : PairQuantity
{
    Weighted() { this->resizeValue(2); }
    void addPairContribution(const BaseBondGenerator& b, int scale)
    {
        double o0 = mstructure->siteOccupancy(b.site0()), o1 = mstructure->siteOccupancy(b.site1());
        double r2 = R3::dot(b.r01(), b.r01());
        mvalue[0] += scale * b.multiplicity() * o0 * o1 * r2;
        mvalue[1] += scale * b.multiplicity();
    }
};

static const char* T[2] = {"Na1+", "Cl1-"};
static vector<double> w;

// two inequivalent sites, the first one in a special position of some groups
static StructureAdapterPtr make(int kind)
{
    AtomicStructureAdapterPtr a;
    R3::Vector u[3] = {R3::Vector(0, 0, 0.1), R3::Vector(0.31, 0.12, 0.45), R3::Vector(0.5, 0.6, 0.7)};
    const Lattice* L = 0;
    if (kind == 0) a = mkstru();
    else
    {
        PeriodicStructureAdapterPtr p;
        const Group& g = GROUPS[kind == 1 ? 0 : kind - 1];
        if (kind == 1) { p = boost::make_shared<PeriodicStructureAdapter>(); p->setLatPar(3, 4, 5, 80, 95, 110); }
        else p = mkcrystal(g);
        L = &p->getLattice();
        if (kind == 3) u[0] = R3::Vector(0.25, 0, 0);
        if (kind == 2 || kind == 4) u[0] = R3::Vector(0, 0, 0);
        a = p;
    }
    const int n = kind < 2 ? 3 : 2;
    for (int i = 0; i < n; ++i)
    {
        R3::Vector r = L ? L->cartesian(u[i]) : R3::Vector(4 * u[i]);
        a->append(mkatom(T[i % 2], r[0], r[1], r[2], w[i], 0.01));
    }
    return a;
}

template <class Q> static void compare(Q& full, Q& half, StructureAdapterPtr s, const char* id)
{
    half.fullsum(false);
    full.fullsum(true);
    half.setEvaluatorType(BASIC);
    full.setEvaluatorType(BASIC);
    const int mask = vp_choose("mask", 3);
    if (mask == 1) { full.setPairMask(0, 1, false); half.setPairMask(0, 1, false); }
    if (mask == 2) { full.maskAllPairs(false); half.maskAllPairs(false); full.setPairMask(1, -1, true); half.setPairMask(1, -1, true); }
    half.eval(s);
    full.eval(s);
    check_same(half.value(), full.value(), 1e-8, id);
    double a = 0;
    for (size_t i = 0; i < half.value().size(); ++i) if (half.value()[i] != 0) a = 1;
    if (a) vp_reach(id);
}

void vp_main()
{
    for (int i = 0; i < 3; ++i) w.push_back(vp_sym("occ", 0.1 + 0.5 * i, 0.5 + 0.5 * i));
    StructureAdapterPtr s = make(vp_choose("structure", NGROUPS + 1));
    switch (vp_choose("quantity", 5))
    {
        case 0: { Sum<Weighted> a, b; a.setRmax(4.5); b.setRmax(4.5); a.setRmin(1); b.setRmin(1); compare(a, b, s, "generic sum"); break; }
        case 1: { Sum<BVSCalculator> a, b; a.setRmax(4.5); b.setRmax(4.5); compare(a, b, s, "valence sums"); break; }
        case 2: { Sum<PDFCalculator> a, b; Sum<PDFCalculator>* p[2] = {&a, &b};
            for (int k = 0; k < 2; ++k) { p[k]->setRmax(4); p[k]->setRstep(0.3); p[k]->setMaxExtension(0.5); p[k]->setScatteringFactorTableByType("neutron"); }
            compare(a, b, s, "PDF"); break; }
        case 3: { Sum<DebyePDFCalculator> a, b; Sum<DebyePDFCalculator>* p[2] = {&a, &b};
            for (int k = 0; k < 2; ++k) { p[k]->setRmax(3); p[k]->setQmax(3); p[k]->setMaxExtension(0.5); p[k]->setDebyePrecision(0); p[k]->setScatteringFactorTableByType("neutron"); }
            compare(a, b, s, "Debye sum"); break; }
        case 4: { Sum<PairCounter> a, b; a.setRmax(4.5); b.setRmax(4.5);
            if (dynamic_cast<CrystalStructureAdapter*>(s.get())) break;     // counts pairs per asymmetric unit
            compare(a, b, s, "pair count"); break; }
    }
    vp_reach("done");
}
