// Fourier pair of F(Q) and G(r): transformations, Q-limits of the PDF and the
// interpolated PDF of the Debye calculator.
#include "common.hpp"
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

static int pow2(int n) { int r = 1; while (r < n) r *= 2; return r; }

// sine transform by definition
static QuantityType sine(const QuantityType& g, int pad, double dr, int N)
{
    QuantityType f(N, 0.0);
    for (int k = 0; k < N; ++k)
        for (size_t i = 0; i < g.size(); ++i)
            f[k] += g[i] * (sin(M_PI * k * double(i + pad) / N) * dr);
    return f;
}

static void pair()
{
    const int n = 1 + vp_choose("points", VP_T(5, 7)), pad = vp_choose("pad", VP_T(3, 5));
    const double dr = vp_choose("step", 2) ? 0.3 : 0.01;
    const int i0 = vp_choose("first", n), i1 = vp_choose("second", n);
    vp_assume(pad || (i0 && i1));      // odd functions are zero at the origin
    vp_assume(i0 <= i1);
    QuantityType g(n, 0.0);
    g[i0] = vp_sym("a", -2, 2);
    if (i1 != i0) g[i1] = -0.75;
    const int N = pow2(n + pad);
    const double off[3] = {0.2, 0, -0.2};
    const int o = vp_choose("round-off", 3);
    vp_assume(pad || o < 2);
    const double rmin = pad * dr + off[o] * dr;
    const QuantityType f = fftgtof(g, dr, rmin);
    vp_check(int(f.size()) == N, "padded to a power of two");
    const QuantityType e = sine(g, pad, dr, N);
    for (int k = 0; k < N && k < int(f.size()); ++k) vp_check_eq(f[k], e[k], 1e-9, "sine transform");
    vp_check_eq(f[0], 0, 0, "zero at origin");
    const double dq = M_PI / (N * dr);
    const QuantityType b = fftftog(f, dq);
    vp_check(int(b.size()) == N, "padded to a power of two");
    for (int i = 0; i < N && i < int(b.size()); ++i)
    {
        const double x = i < pad || i >= pad + n || i == 0 ? 0 : g[i - pad];
        vp_check_eq(b[i], x, 1e-9, "inverse transform");
    }
    vp_check(fftgtof(QuantityType(), dr, rmin).empty() && fftftog(QuantityType(), dq).empty(), "empty");
    vp_reach("pair");
}

// PDF calculator: F(Q) and PDF with Q-limits
static void pdf()
{
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 0.9)); s->append(mkatom("Cl", 0, 1.3));
    PDFCalculator c;
    const double dr = 0.2;
    double qmin = 0, qmax = 0;
    const int what = vp_choose("limits", 6);
    switch (what) {
        case 1: qmax = 9; break;
        case 2: qmin = 4; break;
        case 3: qmin = 2.5; qmax = 8.3; break;
        case 4: qmin = 9; qmax = 5; break;      // nothing is left
    }
    // exchange of the scattering factors at constant average
    const double f = vp_sym("factor", 1.1, 3);
    c.setScatteringFactorTableByType("neutron");
    c.getScatteringFactorTable()->setCustomAs("Na", "Na", 6 - 2 * f);
    c.getScatteringFactorTable()->setCustomAs("Cl", "Cl", f);
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", 0.5);
    c.setRmin(vp_choose("rmin", 2) ? 0.6 : 0); c.setRmax(1.4); c.setRstep(dr);
    c.setMaxExtension(vp_choose("extension", 2) ? 0.5 : 0);
    c.setDoubleAttr("scale", 1.5); c.setDoubleAttr("qdamp", 0.1);
    const bool late = vp_choose("after evaluation", 2);
    if (late) c.eval(s);
    if (what == 5) qmin = 1.5 * c.getQstep();       // excludes one point only
    c.setQmin(qmin); c.setQmax(qmax);
    c.eval(s);
    const QuantityType x = c.getExtendedRgrid(), h = c.getExtendedRDFperR(), F = c.getF(), q = c.getQgrid(), G = c.getPDF(), r = c.getRgrid();
    vp_check(x.size() == h.size() && F.size() == q.size() && G.size() == r.size() && r.size() > 1, "sizes");
    const int pad = int(x[0] / dr + 0.5), N = pow2(pad + x.size());
    vp_check_eq(c.getQstep(), M_PI / (N * dr), 1e-9, "Q-step");
    const double qlim = what == 1 || what == 3 || what == 4 ? qmax : M_PI / dr;
    vp_check_eq(c.getQmax(), qlim, 1e-9, "effective Qmax");
    // the isolated structure has no baseline
    const QuantityType E = sine(h, pad, dr, N);
    size_t nq = 0;
    for (int k = 0; k < N; ++k)
    {
        const double qk = k * M_PI / (N * dr);
        if (qk > qlim - 1e-8) continue;
        if (nq >= F.size()) { vp_check(0, "missing F"); break; }
        vp_check_eq(q[nq], qk, 1e-9, "Q-grid");
        vp_check_eq(F[nq], E[k], 1e-8, "F is the transform of G");
        ++nq;
    }
    vp_check(nq == F.size(), "no F beyond Qmax");
    // and back with the Q-limits
    for (size_t i = 0; i < r.size(); ++i)
    {
        double e = 0;
        for (int k = 0; k < N; ++k)
        {
            const double qk = k * M_PI / (N * dr);
            if (qk < qmin - 1e-8 || qk > qlim - 1e-8) continue;
            e += E[k] * (2 / M_PI * sin(qk * r[i]) * M_PI / (N * dr));
        }
        vp_check_eq(G[i], 1.5 * exp(-r[i] * r[i] * 0.1 * 0.1 / 2) * e, 1e-7, "PDF is the transform within the Q-limits");
    }
    const char* L[6] = {"no limits", "qmax", "qmin", "qmin and qmax", "nothing", "first point"};
    vp_reach(L[what]);
}

// Debye calculator: PDF is the transform of F, interpolated on the r-grid
static void debye()
{
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("Na", 0)); s->append(mkatom("Cl", 0.9)); s->append(mkatom("Cl", 0, 1.3));
    DebyePDFCalculator c;
    const int kind = vp_choose("grid", 4);
    // the third kind needs the very last interval of the transform
    const double dr = kind == 1 ? 0.15 : 0.1, rmax = kind == 2 ? 0.8 : kind == 3 ? 1.6 : 1.3;
    const double f = vp_sym("factor", 1.1, 3);
    c.setScatteringFactorTableByType("neutron");
    c.getScatteringFactorTable()->setCustomAs("Na", "Na", 6 - 2 * f);
    c.getScatteringFactorTable()->setCustomAs("Cl", "Cl", f);
    c.setPeakWidthModelByType("constant");
    c.getPeakWidthModel()->setDoubleAttr("width", 0.3);
    c.setRmin(kind == 1 ? 0.5 : 0); c.setRmax(rmax); c.setRstep(dr); c.setMaxExtension(kind >= 2 ? 0 : 0.25);
    c.setQmax(18);
    c.setDebyePrecision(0);
    c.setDoubleAttr("scale", 1.5); c.setDoubleAttr("qdamp", 0.1);
    double qmin = 0;
    switch (vp_choose("qmin", 3)) { case 1: qmin = 4; break; case 2: qmin = 50; break; }
    c.setQmin(qmin);
    if (vp_choose("custom step", 2)) c.setQstep(0.7 * c.getQstep());
    const double dq = c.getQstep();
    c.eval(s);
    vp_check_eq(c.getQstep(), dq, 1e-12, "Q-step is kept");
    const QuantityType F = c.getF(), q = c.getQgrid(), r = c.getRgrid(), G = c.getPDF(), h = c.getRDFperR(), R = c.getRDF();
    vp_check(F.size() == q.size() && G.size() == r.size() && h.size() == r.size() && R.size() == r.size() && r.size() > 1, "sizes");
    int N = F.size();
    while (N * dr * dq < M_PI * (1 - 1e-9)) ++N;
    N = pow2(N);
    const double dx = M_PI / (N * dq);
    for (size_t i = 0; i < r.size(); ++i)
    {
        double e[2] = {0, 0};
        const int j = int(r[i] / dx * (1 + 1e-12));
        const double w = r[i] / dx - j;
        for (size_t k = 0; k < F.size(); ++k)
        {
            const double t = 2 / M_PI * dq * ((1 - w) * sin(q[k] * j * dx) + w * sin(q[k] * (j + 1) * dx));
            e[0] += F[k] * t;
            if (q[k] > qmin - 1e-8) e[1] += F[k] * t;
        }
        vp_check_eq(h[i], e[0], 1e-7, "RDF per r is the transform of F");
        vp_check_eq(R[i], e[0] * r[i], 1e-7, "RDF is the transform of F");
        vp_check_eq(G[i], 1.5 * exp(-r[i] * r[i] * 0.1 * 0.1 / 2) * e[1], 1e-7, "PDF is the transform of F above Qmin");
    }
    vp_reach(kind < 2 ? "debye" : "last interval");
}

void vp_main()
{
#if VP_WHAT == 0
    pair();
#elif VP_WHAT == 1
    pdf();
#else
    debye();
#endif
}
