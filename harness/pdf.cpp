// PDF calculator: r-grid, peak sum, normalization, partial sums, baseline and
// results of a changed range.
#include "crystal.hpp"
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/mathutils.hpp>

static const char* T[2] = {"Na", "Cl"};

static double gauss(double x, double w) { return 2 * sqrt(M_LN2 / M_PI) / w * exp(-4 * M_LN2 * (x / w) * (x / w)); }

// r-grid for symbolic limits
static void grid()
{
    const double steps[3] = {0.1, 0.25, 0.07};
    const double dr = steps[vp_choose("rstep", 3)];
    double rmin = 0.3, rmax = 1.15;
    switch (vp_choose("limit", 2)) { case 0: rmin = vp_sym("rmin", 0, 1.4); break; case 1: rmax = vp_sym("rmax", 0, 1.4); break; }
    PDFCalculator c;
    const bool late = vp_choose("set after structure", 2);
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 1.0));
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", 0.1);
    if (late) c.setStructure(s);
    c.setRstep(dr); c.setRmin(rmin); c.setRmax(rmax);
    c.setMaxExtension(vp_choose("extension", 2) ? 0.0 : 0.17);
    c.eval(s);
    const QuantityType g = c.getRgrid();
    const double eps = 3e-8;
    int n = 0;
    for (int k = 0; k <= 21; ++k)
    {
        const double r = k * dr;
        const bool in = n < int(g.size()) && g[n] < r + 0.5 * dr;
        if (in)
        {
            vp_check_eq(g[n], r, 1e-12, "grid point is a multiple of the step");
            vp_check(r > rmin - eps && r < rmax + eps, "grid point in range");
            vp_check_le(c.getExtendedRmin(), r, 0, "extended range covers the grid");
            vp_check_le(r, c.getExtendedRmax(), 0, "extended range covers the grid");
            ++n;
        }
        else vp_check(r < rmin + eps || r > rmax - eps, "no grid point is missing");
    }
    vp_check(n == int(g.size()), "no further grid points");
    vp_check(c.getPDF().size() == g.size(), "size of PDF");
    vp_check(c.getRDF().size() == g.size(), "size of RDF");
    vp_check(c.getRDFperR().size() == g.size(), "size of RDF/r");
    const QuantityType ge = c.getExtendedRgrid();
    vp_check(c.getExtendedPDF().size() == ge.size() && c.getExtendedRDF().size() == ge.size(), "size of extended results");
    if (g.size()) vp_reach("grid"); else vp_reach("empty grid");
}

static AtomicStructureAdapterPtr make(const Group* g, const Cell& c, const double* occ)
{
    AtomicStructureAdapterPtr s;
    if (!g) s = mkstru(); else s = mkcrystal(*g);
    for (size_t i = 0; i < c.u.size(); ++i)
    {
        R3::Vector r = c.cart(i);
        s->append(mkatom(T[i % 2], r[0], r[1], r[2], occ[i], 0.004 * (i + 1)));
    }
    return s;
}

static void values()
{
    const int kind = vp_choose("structure", NGROUPS + 1);
    const Group* g = kind ? &GROUPS[kind - 1] : 0;
    Cell cell(g);
    R3::Vector u[3] = {R3::Vector(0, 0, 0.1), R3::Vector(0.31, 0.12, 0.45), R3::Vector(0.55, 0.6, 0.7)};
    if (kind == 3) u[0] = R3::Vector(0.25, 0, 0);                   // special positions
    if (kind == 2 || kind == 4) u[0] = R3::Vector(0, 0, 0);
    const int n = kind < 2 ? 3 : 2;
    for (int i = 0; i < n; ++i) cell.u.push_back(g ? u[i] : R3::Vector(5 * u[i]));
    const int setup = vp_choose("setup", 6);
    double occ[3] = {1, 0.5, 0.75}, sf[2] = {-0.2, 1.3};
    // multiplicities of the two types for an exchange at constant average
    const double m0 = cell.multiplicity(0), m1 = cell.multiplicity(1);
    const int symb = vp_choose("symbolic", setup == 0 && kind % 3 == 0 ? 3 : 2);
    switch (symb)
    {
        case 0: sf[0] = sf[1]; occ[0] = vp_sym("occ", 0.1, 1); occ[1] = 2 - occ[0] * m0 / m1; break;
        case 1: occ[1] = 0.5; sf[1] = vp_sym("factor", 1.5, 3); occ[2] = 1; sf[0] = 4 - m1 * 0.5 / (n > 2 ? 2 * m0 : m0) * sf[1]; break;
        case 2: sf[0] = 0.4; occ[1] = vp_sym("occ", 0.1, 1); break;
    }
    AtomicStructureAdapterPtr s = make(g, cell, occ);
    PDFCalculator c;
    const double dr = symb == 2 ? 1.2 : 0.43, rmin = setup == 2 ? 2.1 : 0, rmax = 3.0;
    double width = 0.35, prec = 1e-13, ext = 2, scale = 1, qdamp = 0;
    const bool first = vp_choose("structure first", 2);
    if (first) c.setStructure(s);
    c.setScatteringFactorTableByType("neutron");
    c.getScatteringFactorTable()->setCustomAs("Na", "Na", sf[0]);
    c.getScatteringFactorTable()->setCustomAs("Cl", "O", sf[1]);
    c.setRmin(rmin); c.setRmax(rmax); c.setRstep(dr);
    switch (setup)
    {
        case 1: c.setPeakProfileByType("croppedgaussian"); break;
        case 3: prec = 0.02; break;
        case 4: ext = 0; break;
        case 5: scale = 2.5; qdamp = 0.2; c.setDoubleAttr("scale", scale); c.setDoubleAttr("qdamp", qdamp); break;
    }
    c.setMaxExtension(ext);
    c.getPeakProfile()->setPrecision(prec);
    c.setPeakWidthModelByType(setup == 5 ? "debye-waller" : "constant");
    if (setup != 5) c.getPeakWidthModel()->setDoubleAttr("width", width);
    // 0: all, 1: site pair excluded, 2: one pair of types, 3: self pairs excluded
    const int mask = vp_choose("mask", VP_T(3, 4));
    switch (mask)
    {
        case 1: c.setPairMask(0, 1, false); break;
        case 2: c.setTypeMask("all", "all", false); c.setTypeMask("Cl", "Na", true); break;
        case 3: c.setPairMask(0, 0, false); break;
    }
    c.eval(first ? StructureAdapterPtr(s) : StructureAdapterPtr(s->clone()));
    double total = 0, sum = 0;
    for (int i = 0; i < n; ++i) { total += occ[i] * cell.multiplicity(i); sum += occ[i] * cell.multiplicity(i) * sf[i % 2]; }
    const QuantityType x = c.getRgrid(), rdf = c.getRDF(), rr = c.getRDFperR(), pdf = c.getPDF();
    vp_check(x.size() && x.size() == rdf.size() && x.size() == rr.size() && x.size() == pdf.size(), "sizes");
    QuantityType e(x.size());
    double active = 0, slack = 0;
    // half of the widest peak, and the distances that are certainly included
    const double tail = std::min(ext, 2.0), lo = rmin - tail, hi = rmax + tail;
    for (int i = 0; i < n; ++i)
    {
        const int mi = cell.multiplicity(i);
        for (int j = 0; j < n; ++j)
        {
            const bool on = mask == 1 ? !((i == 0 && j == 1) || (i == 1 && j == 0)) : mask == 2 ? i % 2 != j % 2 : mask == 3 ? i || j : true;
            if (on) active += mi * occ[i] * cell.multiplicity(j) * occ[j];
        }
        const vector<Neighbor> nb = cell.neighbors(i, hi + dr);
        for (size_t k = 0; k < nb.size(); ++k)
        {
            const int j = nb[k].j;
            const double d = nb[k].r;
            const bool on = mask == 1 ? !((i == 0 && j == 1) || (i == 1 && j == 0)) : mask == 2 ? i % 2 != j % 2 : mask == 3 ? i || j : true;
            if (!on) continue;
            // with no extension the range ends at a multiple of the step
            if (ext == 0 && (d < int(lo / dr) * dr || d >= ceil(hi / dr) * dr)) continue;
            if (setup == 5) width = 2 * sqrt(2 * M_LN2) * sqrt(0.004 * (i + 1) + 0.004 * (j + 1));
            const double f = mi * occ[i] * occ[j] * sf[i % 2] * sf[j % 2];
            for (size_t l = 0; l < x.size(); ++l)
            {
                double y = gauss(x[l] - d, width);
                if (setup == 3 && y < prec * gauss(0, width) * (1 - 1e-9)) continue;        // handled by tolerance
                // the lower limit of distances is rounded up to the grid
                if (setup == 2 && d < rmin - 1.1 + dr) { slack += mi * 9 * y * x[l] / d; continue; }
                e[l] += f * y * x[l] / d;
            }
            if (setup == 3) slack += mi * 9 * prec * gauss(0, width) * hi / d;
        }
    }
    const double tol = 1e-8 + slack;
    const double norm = sum * sum / total;
    const double slope = g ? -4 * M_PI * active / total / cell.L.volume() : 0;
    bool any = false;
    for (size_t l = 0; l < x.size(); ++l)
    {
        vp_check_eq(rdf[l] * norm, e[l], tol, "RDF is the normalized sum of peaks");
        if (l == 0 && rmin == 0) { vp_check_eq(rr[l], 0, 0, "origin"); vp_check_eq(pdf[l], 0, 0, "origin"); continue; }
        vp_check_eq(rr[l], rdf[l] / x[l], 1e-9, "RDF per r");
        const double en = scale * (qdamp > 0 ? exp(-x[l] * x[l] * qdamp * qdamp / 2) : 1);
        vp_check_eq(pdf[l], en * (rr[l] + slope * x[l]), 1e-8, "PDF");
        if (e[l] != 0) any = true;
    }
    if (any) vp_reach(setup == 0 ? "plain" : setup == 1 ? "cropped" : setup == 2 ? "rmin" : setup == 3 ? "precision" : setup == 4 ? "no extension" : "envelopes");
    if (mask) vp_reach("masked");
}

// results queried after a change of the range, without a new evaluation
static void requery()
{
    PDFCalculator c;
    AtomicStructureAdapterPtr s = mkstru();
    const double w = vp_sym("occ", 0.1, 1);
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 2.0, 0, 0, w));
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", 0.5);
    c.setScatteringFactorTableByType("neutron");
    c.setRstep(0.25); c.setRmin(1); c.setRmax(3);
    c.setMaxExtension(0);
    c.eval(s);
    const QuantityType x0 = c.getRgrid(), r0 = c.getRDF(), p0 = c.getPDF();
    const double lo[5] = {0, 0.5, 1, 1.5, 2.75}, hi[5] = {1, 2, 3, 3.5, 5};
    const double a = lo[vp_choose("rmin", 5)], b = hi[vp_choose("rmax", 5)];
    c.setRmin(a); c.setRmax(b);
    const QuantityType r1 = c.getRDF(), p1 = c.getPDF();
    vp_check(r1.size() == p1.size(), "sizes");
    size_t k = 0;
    for (size_t i = 0; i < x0.size(); ++i)
    {
        if (x0[i] < a - 1e-8 || x0[i] >= b - 1e-8) continue;
        if (k >= r1.size()) { vp_check(0, "calculated points in range are kept"); break; }
        vp_check_eq(r1[k], r0[i], 0, "calculated points in range are kept");
        vp_check_eq(p1[k], p0[i], 0, "calculated points in range are kept");
        ++k;
    }
    vp_check(k == r1.size(), "no other points");
    vp_reach("requery");
    // and a new evaluation is right again
    c.eval(s);
    vp_check(c.getPDF().size() == c.getRgrid().size(), "sizes");
}

// PDF of every radiation type is finite and independent of the scale of the factors
static void radiation()
{
    static const char* tp[4] = {"xray", "neutron", "electronnumber", "electron"};
    const int k = vp_choose("radiation", 4);
    const double w = k == 3 ? 0.5 : vp_sym("occ", 0.1, 1);
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 2.0, 0, 0, w));
    PDFCalculator c;
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", 0.5);
    c.setScatteringFactorTableByType(tp[k]);
    c.setRstep(0.25); c.setRmin(1); c.setRmax(3);
    c.eval(s);
    const double f0 = c.getScatteringFactorTable()->lookup("Na", 0), f1 = c.getScatteringFactorTable()->lookup("Cl", 0);
    const QuantityType x = c.getRgrid(), r = c.getRDF();
    vp_check(x.size() == r.size(), "sizes");
    for (size_t i = 0; i < r.size(); ++i)
    {
        vp_check_finite(r[i], k == 3 ? "finite-for-electrons" : "finite");
        if (k == 3) continue;
        const double avg = f0 + w * f1;
        vp_check_eq(r[i] * avg * avg / (1 + w), 2 * w * f0 * f1 * gauss(x[i] - 2.0, 0.5) * x[i] / 2.0, 1e-8 * f0 * f1, "RDF is the normalized sum of peaks");
    }
    vp_reach("radiation");
}

void vp_main()
{
#if VP_WHAT == 0
    switch (vp_choose("what", 3)) { case 0: grid(); break; case 1: requery(); break; default: radiation(); }
#else
    values();
#endif
}
