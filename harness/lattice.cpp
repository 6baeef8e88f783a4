// Lattice: consistency of bases, metrics, reciprocal quantities and conversions.
#include "common.hpp"
#include <diffpy/srreal/Lattice.hpp>

static const double TOL = 1e-7;

static void invariants(const Lattice& L, bool full)
{
    const R3::Matrix B = L.base(), R = L.recbase(), G = L.metrics();
    // base and reciprocal base are inverse to each other
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0, t = 0;
        for (int k = 0; k < 3; ++k) { s += B(i, k) * R(k, j); t += B(i, k) * B(j, k); }
        vp_check_eq(s, i == j, TOL, "base*recbase");
        vp_check_eq(G(i, j), t, TOL, "metrics=base*base^T");
    }
    const R3::Vector* V[3] = {&L.va(), &L.vb(), &L.vc()};
    const R3::Vector* W[3] = {&L.var(), &L.vbr(), &L.vcr()};
    const double len[3] = {L.a(), L.b(), L.c()}, rlen[3] = {L.ar(), L.br(), L.cr()};
    for (int i = 0; i < 3; ++i)
    {
        double s = 0;
        for (int k = 0; k < 3; ++k)
        {
            vp_check_eq((*V[i])[k], B(i, k), TOL, "lattice vectors");
            vp_check_eq((*W[i])[k], R(k, i), TOL, "reciprocal vectors");
            s += R(k, i) * R(k, i);
        }
        vp_check_eq(G(i, i), len[i] * len[i], TOL, "lengths");
        if (full) vp_check_eq(rlen[i] * rlen[i], s, TOL, "reciprocal lengths");
    }
    vp_check_eq(G(1, 2), L.b() * L.c() * L.cosalpha(), TOL, "cosalpha");
    vp_check_eq(G(0, 2), L.a() * L.c() * L.cosbeta(), TOL, "cosbeta");
    vp_check_eq(G(0, 1), L.a() * L.b() * L.cosgamma(), TOL, "cosgamma");
    double det = R3::dot(B.size1() ? L.va() : L.va(), R3::Vector(R3::cross(L.vb(), L.vc())));
    if (full)
    {
        vp_check_eq(L.volume(), det, 1e-6, "volume");
        // reciprocal angles
        double ab = R3::dot(L.var(), L.vbr()), ac = R3::dot(L.var(), L.vcr()), bc = R3::dot(L.vbr(), L.vcr());
        vp_check_eq(ab, L.ar() * L.br() * L.cosgammar(), TOL, "cosgammar");
        vp_check_eq(ac, L.ar() * L.cr() * L.cosbetar(), TOL, "cosbetar");
        vp_check_eq(bc, L.br() * L.cr() * L.cosalphar(), TOL, "cosalphar");
        vp_check_eq(L.sinalpha() * L.sinalpha() + L.cosalpha() * L.cosalpha(), 1, TOL, "sin2+cos2");
        vp_check_eq(L.sinbetar() * L.sinbetar() + L.cosbetar() * L.cosbetar(), 1, TOL, "sin2+cos2 r");
    }
    // base = stdbase * baserot, baserot is a rotation
    const R3::Matrix S = L.stdbase(), Q = L.baserot();
    if (full) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0, t = 0;
        for (int k = 0; k < 3; ++k) { s += S(i, k) * Q(k, j); t += Q(k, i) * Q(k, j); }
        vp_check_eq(s, B(i, j), TOL, "base=stdbase*baserot");
        vp_check_eq(t, i == j, TOL, "baserot orthogonal");
    }
    vp_reach("invariants");
}

static void conversions(const Lattice& L)
{
    R3::Vector u(vp_sym("u", -3, 3), vp_sym("u", -3, 3), vp_sym("u", -3, 3));
    R3::Vector v(vp_sym("v", -3, 3), 0.25, -1.5);
    R3::Vector cu = L.cartesian(u);
    R3::Vector cv = L.cartesian(v);
    R3::Vector fu = L.fractional(cu);
    for (int k = 0; k < 3; ++k)
    {
        vp_check_eq(cu[k], u[0] * L.va()[k] + u[1] * L.vb()[k] + u[2] * L.vc()[k], TOL, "cartesian");
        vp_check_eq(fu[k], u[k], TOL, "fractional(cartesian)");
    }
    vp_check_eq(L.dot(u, v), R3::dot(cu, cv), TOL, "dot");
    double n2 = R3::dot(cu, cu), ln = L.norm(u);
    vp_check_eq(ln * ln, n2, TOL, "norm");
    double d = L.distance(u, v), cd = R3::distance(cu, cv);
    vp_check_eq(d * d, cd * cd, TOL, "distance");
    vector<double> w(3); for (int k = 0; k < 3; ++k) w[k] = u[k];
    R3::Vector cw = L.cartesian(w);
    for (int k = 0; k < 3; ++k) vp_check_eq(cw[k], cu[k], TOL, "cartesian of other vectors");
    vp_reach("conversions");
}

static void tensors(const Lattice& L)
{
    double m[6];
    for (int i = 0; i < 6; ++i) m[i] = vp_sym("U", -1, 1);
    R3::Matrix U(m[0], m[3], m[4], m[3], m[1], m[5], m[4], m[5], m[2]);
    R3::Matrix Uc = L.cartesianMatrix(U);
    R3::Matrix Ub = L.fractionalMatrix(Uc);
    // standard definition  Uc = N^T U N,  N = diag(ar, br, cr) * base
    const double r[3] = {L.ar(), L.br(), L.cr()};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0;
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
            s += L.base()(k, i) * r[k] * U(k, l) * r[l] * L.base()(l, j);
        vp_check_eq(Uc(i, j), s, TOL, "cartesianMatrix");
        vp_check_eq(Ub(i, j), U(i, j), TOL, "fractionalMatrix(cartesianMatrix)");
    }
    vp_reach("tensors");
}

static void unitcell(const Lattice& L)
{
    R3::Vector u(vp_sym("u", -2, 2), vp_sym("u", -1, 1), 0.75);
    R3::Vector f = L.ucvFractional(u);
    for (int k = 0; k < 3; ++k)
    {
        vp_check(f[k] >= 0 && f[k] < 1, "in the unit cell");
        double d = u[k] - f[k];
        double n = floor(d + 0.5);
        vp_check_eq(d, n, 1e-7, "whole translation");
    }
    R3::Vector c = L.ucvCartesian(L.cartesian(u));
    // the same point modulo lattice translations, within the cell
    R3::Vector fc = L.fractional(c);
    for (int k = 0; k < 3; ++k)
    {
        double d = fc[k] - u[k];
        double n = floor(d + 0.5);
        vp_check_eq(d, n, 1e-6, "ucvCartesian translation");
        vp_check_le(0, fc[k], 1e-6, "ucvCartesian low");
        vp_check_le(fc[k], 1, 1e-6, "ucvCartesian high");
    }
    vp_reach("unitcell");
}

static void diagonal(const Lattice& L)
{
    const R3::Vector m = L.ucMaxDiagonal();
    double best = R3::norm(L.cartesian(m));
    for (int k = 0; k < 8; ++k)
    {
        R3::Vector e((k & 1) ? 1 : -1, (k & 2) ? 1 : -1, (k & 4) ? 1 : -1);
        vp_check_le(R3::norm(L.cartesian(e)), best, TOL, "ucMaxDiagonal");
    }
    double ml = L.ucMaxDiagonalLength();
    vp_check_eq(ml * ml, best * best, TOL, "ucMaxDiagonalLength");
    vp_reach("diagonal");
}

static const double ANG[][3] = {{90, 90, 90}, {90, 90, 120}, {90, 105, 90}, {80, 95, 110}, {60, 60, 60}};

void vp_main()
{
    Lattice L;
    int mode = vp_choose("mode", 4);
    bool concrete = false;
    switch (mode) {
        case 0: {   // any lengths, a selection of angles
            int k = vp_choose("angles", VP_T(4, 5));
            L.setLatPar(vp_sym("a", 1, 20), vp_sym("b", 1, 20), vp_sym("c", 1, 20), ANG[k][0], ANG[k][1], ANG[k][2]);
            break; }
        case 1: {   // base vectors: any lower triangular base
            double a = 3, b = vp_sym("by", 1, 20), c = vp_sym("cz", 1, 20);
            bool rot = VP_T(0, vp_choose("rot", 2));
            R3::Vector va(a, 0, 0), vb(0, b, 0), vc(2, -1, c);
            // the same base rotated by 3-fold axis
            if (rot) { va = R3::Vector(0, a, 0); vb = R3::Vector(0, vb[0], b); vc = R3::Vector(c, 2, -1); }
            L.setLatBase(va, vb, vc);
            break; }
        case 3: {   // any multiple of a base in general orientation
            double s = vp_sym("scale", 0.5, 4);
            L.setLatBase(R3::Vector(3 * s, 0, 0), R3::Vector(0, 3 * s, 4 * s), R3::Vector(-2 * s, -1 * s, 2 * s));
            break; }
        case 2: {   // concrete triclinic cell in a general orientation
            concrete = !vp_choose("again", 2);
            L.setLatBase(R3::Vector(3, 0.5, -0.25), R3::Vector(-1, 4, 0.75), R3::Vector(0.5, -1.5, 5));
            if (!concrete)    // orientation is kept by setLatPar
            {
                R3::Matrix q = L.baserot();
                L.setLatPar(vp_sym("a", 1, 20), 5, 6, 90, 120, 90);
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
                    vp_check_eq(L.baserot()(i, j), q(i, j), 1e-9, "orientation kept");
            }
            break; }
    }
    switch (vp_choose("what", 5)) {
        case 0: invariants(L, mode != 1 && mode != 3); break;
        case 1: conversions(L); break;
        case 2: vp_assume(mode != 1); tensors(L); break;
        case 3: vp_assume(concrete || mode == 0); unitcell(L); break;
        case 4: diagonal(L); break;
    }
}
