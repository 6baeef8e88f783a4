// Debye sum: F(Q) formula, normalization, Q-range, cutoffs and distance limits.
#include "crystal.hpp"
#include <diffpy/srreal/BaseDebyeSum.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/mathutils.hpp>

static const char* T[2] = {"Na", "Cl"};

// plain Debye sum with scattering factors that depend on Q, site type and occupancy
struct Probe : BaseDebyeSum
{
    double f[2];
    Probe() { f[0] = 1; f[1] = 2; }
    static double fq(double f0, double q) { return f0 / (1 + 0.1 * q); }
    virtual double sfSiteAtQ(int i, const double& q) const
    {
        return mstructure->siteOccupancy(i) * fq(f[mstructure->siteAtomType(i) == T[1]], q);
    }
};

// Q-grid for symbolic limits
static void grid()
{
    Probe c;
    double qmin = 0.6, qmax = 2.1, dq = 0.3;
    switch (vp_choose("limit", 2)) { case 0: qmin = vp_sym("qmin", 0, 3); break; case 1: qmax = vp_sym("qmax", 0, 3); break; }
    switch (vp_choose("step", 3)) { case 1: dq = 0.7; break; case 2: dq = 0.25; break; }
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 1.0));
    c.setRmin(0); c.setRmax(5);
    const bool late = vp_choose("set after structure", 2);
    if (late) c.setStructure(s);
    c.setQmin(qmin); c.setQmax(qmax); c.setQstep(dq); c.setDebyePrecision(0);
    c.setPeakWidthModelByType("constant");
    c.eval(s);
    const QuantityType g = c.getQgrid(), F = c.getF();
    vp_check(g.size() == F.size(), "size of F");
    const double eps = 3e-8;
    int n = 0;
    for (int k = 0; k <= 13; ++k)
    {
        const double q = k * dq;
        if (n < int(g.size()) && g[n] < q + 0.5 * dq)
        {
            vp_check_eq(g[n], q, 1e-12, "multiple of the step");
            vp_check(q < qmax + eps, "below the upper limit");
            if (n < int(F.size()))
            {
                const double avg = (1 + 2) / (1 + 0.1 * q) / 2, f2 = 2 / (1 + 0.1 * q) / (1 + 0.1 * q);
                const double e = 2 * f2 * sin(q * 1.0) / 1.0 / (2 * avg * avg);
                if (q < qmin - eps) vp_check_eq(F[n], 0, 0, "zero below Qmin");
                else if (q > qmin + eps) vp_check_eq(F[n], e, 1e-9, "F at Qmin and above");
            }
            ++n;
        }
        else vp_check(q > qmax - eps, "no point is missing");
    }
    vp_check(n == int(g.size()), "no further points");
    vp_reach("grid");
}

static double sinc(double q, double d) { return sin(q * d) / d; }

static void values()
{
    const bool probe = vp_choose("probe", 2);
    const int kind = vp_choose("structure", NGROUPS + 1);
    const Group* g = kind ? &GROUPS[kind - 1] : 0;
    Cell cell(g);
    R3::Vector u[3] = {R3::Vector(0, 0, 0.1), R3::Vector(0.31, 0.12, 0.45), R3::Vector(0.55, 0.6, 0.7)};
    if (kind == 3) u[0] = R3::Vector(0.25, 0, 0);                   // special positions
    if (kind == 2 || kind == 4) u[0] = R3::Vector(0, 0, 0);
    const int n = kind < 2 || kind == 3 || kind == 4 ? 3 : 2;
    for (int i = 0; i < n; ++i) cell.u.push_back(g ? u[i] : R3::Vector(5 * u[i]));
    double occ[3] = {1, 0.5, 1}, sf[2] = {0.5, 1.3}, width = 0.3;
    const double m0 = cell.multiplicity(0), m1 = cell.multiplicity(1), m2 = n > 2 ? cell.multiplicity(2) : 0;
    const int symb = vp_choose("symbolic", kind % 3 == 0 ? 4 : 3);
    switch (symb)
    {
        // an exchange at constant average
        case 0: sf[0] = sf[1]; occ[0] = vp_sym("occ", 0.1, 0.9); occ[1] = 2 - occ[0] * m0 / m1; break;
        case 1: sf[1] = vp_sym("factor", 1.5, 3); sf[0] = 4 - m1 * 0.5 / (m0 + m2) * sf[1]; break;
        case 2: width = vp_sym("width", 0.05, 0.8); break;
        case 3: occ[1] = vp_sym("occ", 0.1, 0.9); break;
    }
    const int setup = vp_choose("setup", 5);    // 0: plain, 1: precision, 2: shorter range, 3: x-rays, 4: electrons
    vp_assume(setup != 1 || (symb == 0 && kind < VP_T(2, 4)));
    vp_assume(symb != 2 || kind % 3 == 0);
    vp_assume(setup < 3 || (!probe && symb != 1));
    vp_assume(setup != 4 || kind < 3);
    double prec = setup == 1 ? 0.02 : 0;
    AtomicStructureAdapterPtr s;
    if (!g) s = mkstru(); else s = mkcrystal(*g);
    for (int i = 0; i < n; ++i) { R3::Vector r = cell.cart(i); s->append(mkatom(T[i % 2], r[0], r[1], r[2], occ[i], 0.003)); }
    Probe p;
    DebyePDFCalculator d;
    BaseDebyeSum& c = probe ? (BaseDebyeSum&)p : (BaseDebyeSum&)d;
    const bool first = vp_choose("structure first", 2);
    if (first) c.setStructure(s);
    const double qmax = 6, dq = symb == 3 ? 2.9 : 1.3;
    double lo = 0, hi = setup == 2 ? 2.9 : 4.0;
    if (setup == 2) lo = 1.1;
    if (probe) { p.f[0] = sf[0]; p.f[1] = sf[1]; p.setRmin(lo); p.setRmax(hi); p.setQmax(qmax); p.setQstep(dq); }
    else
    {
        d.setScatteringFactorTableByType(setup == 4 ? "electron" : setup == 3 ? "xray" : "neutron");
        if (setup < 3)
        {
            d.getScatteringFactorTable()->setCustomAs("Na", "Na", sf[0]);
            d.getScatteringFactorTable()->setCustomAs("Cl", "O", sf[1]);
        }
        d.setRmin(lo); d.setRmax(hi); d.setRstep(0.25); d.setMaxExtension(0.4); d.setQmax(qmax);
    }
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", width);
    c.setDebyePrecision(prec);
    const int mask = setup == 1 ? 1 : vp_choose("mask", 2);
    if (mask) { c.setTypeMask("all", "all", false); c.setTypeMask("Cl", "Na", true); }
    c.eval(first ? StructureAdapterPtr(s) : StructureAdapterPtr(s->clone()));
    if (!probe)
    {
        // every distance in the r-range counts, the Q-step resolves the longest distance
        const double l = d.getDoubleAttr("extendedrmin"), h = d.getDoubleAttr("extendedrmax");
        vp_check(l <= lo && h >= hi, "distance limits cover the r-range");
        vp_check(l >= lo - 0.4 - 1e-9 && l >= 0 && h <= 20, "distance limits");
        lo = l; hi = h;
        vp_check_le(d.getQstep() * h, M_PI, 1e-9, "Q-step resolves the longest distance");
    }
    const QuantityType q = c.getQgrid(), F = c.getF();
    vp_check(q.size() == F.size() && q.size() > 1, "sizes");
    double total = 0;
    for (int i = 0; i < n; ++i) total += occ[i] * cell.multiplicity(i);
    // the coarse and the highest points of Q
    const size_t step = probe ? 1 : std::max<size_t>(1, q.size() / 4);
    for (size_t k = 0; k < q.size(); k += step)
    {
        double f[2], sum = 0, e = 0;
        if (k == 0 && setup == 4) { vp_check_eq(F[k], 0, 0, "F(0) for electrons"); continue; }
        for (int t = 0; t < 2; ++t) f[t] = probe ? Probe::fq(sf[t], q[k]) : setup >= 3 ? d.getScatteringFactorTable()->lookup(T[t], q[k]) : sf[t];
        for (int i = 0; i < n; ++i) sum += occ[i] * cell.multiplicity(i) * f[i % 2];
        int nb = 0;
        const double sigma = width * (1.0 / (2 * sqrt(2 * M_LN2)));
        for (int i = 0; i < n; ++i)
        {
            const int mi = cell.multiplicity(i);
            const vector<Neighbor> v = cell.neighbors(i, hi + 1e-6);
            for (size_t l = 0; l < v.size(); ++l)
            {
                const int j = v[l].j;
                if (v[l].r < lo - 1e-6 || (mask && i % 2 == j % 2)) continue;
                e += mi * occ[i] * occ[j] * f[i % 2] * f[j % 2] * exp(-0.5 * ((sigma * q[k]) * (sigma * q[k]))) * sinc(q[k], v[l].r);
                // pairs of different sites are counted twice at once
                if (j <= i) ++nb;
            }
        }
        const double tol = 1e-8 + nb * prec * (1 + 1e-9);
        vp_check_eq(F[k] * (sum * sum / total), e, tol, "F is the normalized Debye sum");
        if (nb && k) vp_reach(setup == 0 ? "plain" : setup == 1 ? "precision" : setup == 2 ? "range" : setup == 3 ? "xray" : "electron");
    }
    if (mask) vp_reach("masked");
    if (symb == 2) vp_reach("width");
    if (!probe && setup == 2)
    {
        // outgrown and changed Q-limits without evaluation stay in bounds
        const double qm = vp_choose("grow", 2) ? 40 : 3;
        d.setQmax(qm);
        const QuantityType F1 = d.getF();
        for (size_t k = 0; k < F1.size(); k += 5) vp_check_finite(F1[k], "finite");
        d.eval(s);
        vp_check(d.getF().size() == d.getQgrid().size(), "sizes");
    }
}

// distance of two atoms
static void distance()
{
    Probe c;
    AtomicStructureAdapterPtr s = mkstru();
    const double x = vp_sym("x", -6, 6);
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", x, 0, 0, 0.5));
    c.setRmin(0.5); c.setRmax(4);
    c.setQmax(4); c.setQstep(0.7); c.setDebyePrecision(0);
    c.setPeakWidthModelByType("constant");
    c.eval(s);
    const double d = x < 0 ? -x : x;
    vp_assume(d < 0.49 || d > 0.51); vp_assume(d < 3.99 || d > 4.01);
    const QuantityType q = c.getQgrid(), F = c.getF();
    for (size_t k = 0; k < q.size(); ++k)
    {
        const double f0 = Probe::fq(1, q[k]), f1 = 0.5 * Probe::fq(2, q[k]);
        const double norm = (f0 + f1) * (f0 + f1) / 1.5;
        vp_check_eq(F[k] * norm * d, d > 0.5 && d < 4 ? 2 * f0 * f1 * sin(q[k] * d) : 0, 1e-7, "pair of atoms");
    }
    vp_reach(d > 0.5 && d < 4 ? "pair in range" : "pair out of range");
}

// what is cut off is below the precision
static void precision()
{
    Probe c;
    AtomicStructureAdapterPtr s = mkstru();
    const double d = 1.1 + vp_choose("distance", 2);
    s->append(mkatom("Na", 0, 0, 0, 0.8)); s->append(mkatom("Cl", 0, d, 0, 0.5));
    const double prec = vp_sym("precision", 0, 0.6);
    double width = 0.4;
    if (vp_choose("width", 2)) { width = 0; c.f[1] = vp_sym("factor", 0.5, 3); }
    const int single = vp_choose("mask", 2);
    c.setRmin(0); c.setRmax(4); c.setQmax(6); c.setQstep(0.4);
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", width);
    c.setDebyePrecision(prec);
    vp_check_eq(c.getDebyePrecision(), prec, 0, "getDebyePrecision");
    if (single) { c.setPairMask(0, 0, false); c.setPairMask(1, 1, false); }
    c.eval(s);
    const QuantityType q = c.getQgrid(), F = c.getF();
    const double sigma = width * (1.0 / (2 * sqrt(2 * M_LN2)));
    for (size_t k = 1; k < q.size(); ++k)
    {
        const double f0 = 0.8 * Probe::fq(1, q[k]), f1 = 0.5 * Probe::fq(c.f[1], q[k]);
        const double v = F[k] * ((f0 + f1) * (f0 + f1) / 1.3);
        const double a = 2 * f0 * f1 * exp(-0.5 * ((sigma * q[k]) * (sigma * q[k]))) / d, e = a * sin(q[k] * d);
        vp_check_le(v - e, prec, 1e-7, "cutoff within the precision");
        vp_check_le(e - v, prec, 1e-7, "cutoff within the precision");
        if (a > prec + 1e-7) vp_check_eq(v, e, 1e-7, "nothing above the precision is cut off");
    }
    vp_reach("cutoff");
}

void vp_main()
{
#if VP_WHAT == 0
    switch (vp_choose("what", 3)) { case 0: grid(); break; case 1: distance(); break; case 2: precision(); }
#else
    values();
#endif
}
