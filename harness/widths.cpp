// Peak width models: conversions, formulas and the maximum width.
#include "common.hpp"
#include <diffpy/srreal/PeakWidthModel.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>

static const double S2 = 8 * M_LN2;         // square of the sigma to FWHM factor
static const double UB = 8 * M_PI * M_PI;
static bool newer(const PeakWidthModelPtr& p, diffpy::eventticker::EventTicker& t)
{
    bool rv = t < p->ticker();
    t = p->ticker();
    return rv;
}

static void constant()
{
    PeakWidthModelPtr p = PeakWidthModel::createByType("constant");
    const char* names[] = {"width", "uisowidth", "bisowidth"};
    vp_check_eq(p->getDoubleAttr("width"), 0, 0, "constant: default");
    // short history of settings
    diffpy::eventticker::EventTicker t = p->ticker();
    for (int i = 0; i < 2; ++i)
    {
        const int k = vp_choose("name", 3);
        const double x = i && vp_choose("same", 2) ? p->getDoubleAttr(names[k]) : vp_sym("value", -4, 4);
        const double w0 = p->getDoubleAttr("width");
        p->setDoubleAttr(names[k], x);
        vp_check_eq(p->getDoubleAttr(names[k]), x, 1e-9, "constant: value kept");
        const double w = p->getDoubleAttr("width"), u = p->getDoubleAttr("uisowidth"), b = p->getDoubleAttr("bisowidth");
        if (i == 0) vp_check(newer(p, t) == (w != w0), "constant: ticker");
        vp_check_eq(u * 2 * S2, w >= 0 ? w * w : -w * w, 1e-8, "constant: uiso");
        vp_check_eq(b, UB * u, 1e-8, "constant: biso");
        vp_check((w > 0) == (u > 0) && (w < 0) == (u < 0), "constant: sign");
    }
    if (vp_choose("clone", 2)) { PeakWidthModelPtr q = p->clone(); double w = p->getDoubleAttr("width"); p->setDoubleAttr("width", 77); p = q; vp_check_eq(p->getDoubleAttr("width"), w, 0, "constant: clone"); }
    AtomicStructureAdapterPtr s = mkstru();
    s->append(mkatom("C", 0, 0, 0, 1, 0.3));
    s->append(mkatom("C", 1.5, 0, 0, 1, 0.2));
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmax(5);
    b->selectAnchorSite(0);
    b->rewind();
    vp_check(!b->finished(), "bond");
    vp_check_eq(p->calculate(*b), p->getDoubleAttr("width"), 0, "constant: calculate");
    vp_check_eq(p->maxWidth(s, 0, 5), p->getDoubleAttr("width"), 0, "constant: maxWidth");
    vp_reach("constant");
}

static void debye()
{
    // widths of a bond with one symbolic displacement or coordinate
    const bool jeong = vp_choose("jeong", 2);
    PeakWidthModelPtr p = PeakWidthModel::createByType(jeong ? "jeong" : "debye-waller");
    const int sym = vp_choose("symbolic", 3);
    AtomicStructureAdapterPtr s = mkstru();
    const bool line = jeong && sym == 2;
    s->append(line ? mkatom("C", 0) : mkatom("C", 0.1, -0.2, 0.05));
    s->append(line ? mkatom("O", vp_sym("x", 0.6, 2.8)) : mkatom("O", sym == 2 ? vp_sym("x", 0.6, 2.8) : 0.9, 0.4, 0.7));
    double u[2];
    for (int i = 0; i < 2; ++i)
    {
        u[i] = sym == 0 || (sym == 1 && i == 0) ? vp_sym("u", -0.1, 0.3) : 0.03 * (1 + i);
        R3::Matrix& U = (*s)[i].uij_cartn;
        (*s)[i].anisotropy = sym && !line && i == 0;
        U = R3::identity(); U *= u[i];
        if (sym && !line && i == 0) { U(0, 1) = U(1, 0) = 0.01; U(1, 1) = 0.05; U(0, 2) = U(2, 0) = -0.02; U(1, 2) = U(2, 1) = sym == 1 ? vp_sym("u12", -0.02, 0.02) : 0.015; }
    }
    double d1 = 0, d2 = 0, qb = 0, qs = 0;
    if (jeong)
    {
        vp_check(p->getDoubleAttr("delta1") == 0 && p->getDoubleAttr("delta2") == 0 && p->getDoubleAttr("qbroad") == 0 && p->getDoubleAttr("qbroad_seperable") == 0, "jeong: defaults");
        const int k = vp_choose("parameters", line ? 5 : sym ? 2 : 6);
        if (line) { if (k == 1) d1 = 1; if (k == 2) d2 = 1; if (k == 3) qb = 0.5; if (k == 4) qs = 0.5; }
        else if (k == 1) { d1 = 0.3; d2 = 0.4; qb = 0.1; qs = 0.2; }
        if (!line && k == 2) { d1 = vp_sym("delta1", -3, 3); }
        if (!line && k == 3) { d2 = vp_sym("delta2", -3, 3); d1 = 0.3; }
        if (!line && k == 4) { qb = vp_sym("qbroad", -1, 1); d2 = 2; }
        if (!line && k == 5) { qs = vp_sym("qbroad_seperable", -1, 1); qb = 0.1; }
        diffpy::eventticker::EventTicker t = p->ticker();
        p->setDoubleAttr("delta1", d1); vp_check(newer(p, t) == (d1 != 0), "jeong: ticker");
        p->setDoubleAttr("delta2", d2); vp_check(newer(p, t) == (d2 != 0), "jeong: ticker");
        p->setDoubleAttr("qbroad", qb); vp_check(newer(p, t) == (qb != 0), "jeong: ticker");
        p->setDoubleAttr("qbroad_seperable", qs); vp_check(newer(p, t) == (qs != 0), "jeong: ticker");
        vp_check_eq(p->getDoubleAttr("delta1"), d1, 0, "jeong: attribute");
        vp_check_eq(p->getDoubleAttr("delta2"), d2, 0, "jeong: attribute");
        vp_check_eq(p->getDoubleAttr("qbroad"), qb, 0, "jeong: attribute");
        vp_check_eq(p->getDoubleAttr("qbroad_seperable"), qs, 0, "jeong: attribute");
        if (k && vp_choose("clone", 2)) { PeakWidthModelPtr q = p->clone(); p->setDoubleAttr("delta1", 9); p->setDoubleAttr("qbroad", 9); p = q; }
    }
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmax(9);
    const int anchor = vp_choose("anchor", 2);
    b->selectAnchorSite(anchor);
    int n = 0;
    for (b->rewind(); !b->finished(); b->next(), ++n)
    {
        R3::Vector v = (*s)[0].xyz_cartn - (*s)[1].xyz_cartn;
        const double vv = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
        double m = 0;
        for (int a = 0; a < 2; ++a) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            m += v[i] * v[j] * ((*s)[a].anisotropy ? (*s)[a].uij_cartn(i, j) : (i == j) * (*s)[a].uij_cartn(0, 0));
        m /= vv;
        const double w = p->calculate(*b);
        const double r = line ? (*s)[1].xyz_cartn[0] : sqrt(vv);
        vp_assume(fabs(m) > 1e-6);
        const double corr = jeong ? 1 - d1 / r - d2 / vv + qb * qb * vv : 1;
        if (jeong) vp_assume(fabs(corr) > 1e-6);
        vp_check_le(0, w, 1e-12, "width is not negative");
        if (jeong && corr <= 0) { vp_check_eq(w, 0, 1e-12, "jeong: no width for negative correction"); vp_reach("negative correction"); continue; }
        const double q = w - qs * qs * vv;
        if (m < 0) { vp_check_eq(q, 0, 1e-7, "no width for negative displacement"); vp_reach("negative displacement"); }
        else { vp_check_le(0, q, 1e-9, "width formula"); vp_check_eq(q * q, S2 * m * corr, 1e-7, "width formula"); vp_reach(jeong ? "jeong" : "debye-waller"); }
    }
    vp_check(n == 1, "one bond");
}

static void maxwidth()
{
    // no bond within the limits is wider than the maximum width
    const bool jeong = vp_choose("jeong", 2);
    PeakWidthModelPtr p = PeakWidthModel::createByType(jeong ? "jeong" : "debye-waller");
    if (jeong)
    {
        const int k = vp_choose("parameters", 5);
        if (k == 1) p->setDoubleAttr("delta1", 0.5);
        if (k == 2) p->setDoubleAttr("delta2", -0.5);
        if (k == 3) p->setDoubleAttr("qbroad", 0.3);
        if (k == 4) { p->setDoubleAttr("delta2", 0.5); p->setDoubleAttr("qbroad", 0.2); p->setDoubleAttr("qbroad_seperable", 0.3); }
    }
    AtomicStructureAdapterPtr s = mkstru();
    const int n = 3;
    double x[n];
    x[0] = 0; x[1] = vp_choose("sym", 2) ? vp_sym("x", 0.8, 6) : 2; x[2] = 3.5;
    for (int i = 0; i < n; ++i) s->append(mkatom("C", x[i], 0, 0, 1, x[1] == 2 ? vp_sym("u", 0.001, 0.5) : 0.1 * (1 + i)));
    const double lo = 0.7, hi = 5;
    const double M = p->maxWidth(s, lo, hi);
    BaseBondGeneratorPtr b = s->createBondGenerator();
    b->setRmin(lo); b->setRmax(hi);
    for (int a = 0; a < n; ++a)
    {
        b->selectAnchorSite(a);
        for (b->rewind(); !b->finished(); b->next()) { vp_check_le(p->calculate(*b), M, 1e-9, "maximum width"); vp_reach("maximum"); }
    }
    // displacements in any direction
    AtomicStructureAdapterPtr t = mkstru();
    static const double dir[4][3] = {{1, 1, 0}, {1, -1, 1}, {0, 1, 2}, {1, 0, 0}};
    const double* v = dir[vp_choose("direction", 4)];
    const double u12 = vp_sym("u12", -0.05, 0.05);
    t->append(mkatom("C", 0, 0, 0, 1, 0.02));
    t->append(mkatom("C", v[0], v[1], v[2]));
    (*t)[1].anisotropy = true;
    (*t)[1].uij_cartn = R3::Matrix(0.05, u12, 0.01, u12, 0.06, -u12, 0.01, -u12, 0.02);
    const double Mt = p->maxWidth(t, lo, hi);
    BaseBondGeneratorPtr bt = t->createBondGenerator();
    bt->setRmin(lo); bt->setRmax(hi);
    bt->selectAnchorSite(0);
    for (bt->rewind(); !bt->finished(); bt->next()) { vp_check_le(p->calculate(*bt), Mt, 1e-9, "maximum width"); vp_reach("anisotropic maximum"); }
    vp_check_eq(p->maxWidth(mkstru(), lo, hi), jeong ? pow(p->getDoubleAttr("qbroad_seperable") * hi, 2) : 0, 1e-12, "maximum width of nothing");
}

void vp_main()
{
    switch (vp_choose("what", 3)) {
        case 0: constant(); break;
        case 1: debye(); break;
        case 2: maxwidth(); break;
    }
}
