// Bond generators: every pair within the limits once, with the right geometry.
#include "crystal.hpp"
#include <set>

static const double EPS = 1e-6;

// in range, or so close to a limit that it may go either way
static bool definitely(double d2, double lo, double hi) { return d2 > (lo + EPS) * (lo + EPS) && d2 < (hi - EPS) * (hi - EPS) && d2 > EPS * EPS; }
static void inrange(const BaseBondGenerator& b, double lo, double hi)
{
    double d = b.distance();
    vp_check_le(lo, d, EPS, "distance not below rmin");
    vp_check_le(d, hi, EPS, "distance not above rmax");
    double n2 = 0;
    for (int k = 0; k < 3; ++k)
    {
        vp_check_eq(b.r01()[k], b.r1()[k] - b.r0()[k], 1e-9, "r01=r1-r0");
        double t = b.r1()[k] - b.r0()[k];
        n2 += t * t;
    }
    vp_check_eq(d * d, n2, 1e-7, "distance=|r01|");
}

// n^T U n
static double project(const R3::Matrix& U, const R3::Vector& d)
{
    double s = 0, n2 = 0;
    for (int i = 0; i < 3; ++i) { n2 += d[i] * d[i]; for (int j = 0; j < 3; ++j) s += d[i] * U(i, j) * d[j]; }
    return s / n2;
}

// selection of sites by one of the three means; the selected indices in order
static SiteIndices select(BaseBondGenerator& b, int n)
{
    SiteIndices all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    switch (vp_choose("select", 4)) {
        case 0: return all;
        case 1: { int lo = vp_choose("first", n), hi = lo + vp_choose("count", n - lo + 1);
            b.selectSiteRange(lo, hi); return SiteIndices(all.begin() + lo, all.begin() + hi); }
        case 2: { SiteIndices s; s.push_back(n - 1); s.push_back(0); b.selectSites(s); return s; }
        case 3: { static SiteIndices s; s.assign(1, vp_choose("one", n)); b.selectSites(s.begin(), s.end()); return s; }
    }
    return all;
}

static void isolated()
{
    AtomicStructureAdapterPtr a = mkstru();
    a->append(mkatom("C", 0, 0, 0, 1, 0.01));
    a->append(mkatom("O", vp_sym("x", -3, 3), vp_sym("y", -3, 3), 0.5, 1, 0.02));
    Atom t = mkatom("N", 1, 2, VP_T(1.5, vp_sym("z", -3, 3)));
    t.anisotropy = true;
    double u = vp_sym("U", -0.1, 0.1);
    t.uij_cartn = R3::Matrix(0.05, u, 0.01, u, 0.07, -0.02, 0.01, -0.02, 0.11);
    a->append(t);
    BaseBondGeneratorPtr b = a->createBondGenerator();
    const int i0 = vp_choose("anchor", 3);
    double lo = vp_sym("rmin", 0, 5), hi = vp_sym("rmax", 0, 5);
    b->selectAnchorSite(i0);
    SiteIndices sel = select(*b, 3);
    b->setRmin(lo);
    b->setRmax(hi);
    vp_check_eq(b->getRmin(), lo, 0, "getRmin");
    vp_check_eq(b->getRmax(), hi, 0, "getRmax");
    for (int pass = 0; pass < 2; ++pass)
    {
        vector<int> hits(3, 0);
        for (b->rewind(); !b->finished(); b->next())
        {
            inrange(*b, lo, hi);
            int j = b->site1();
            vp_check(b->site0() == i0, "site0");
            vp_check(j != i0, "no self pair");
            vp_check(std::count(sel.begin(), sel.end(), j) == 1, "selected sites only");
            vp_check(b->multiplicity() == 1, "multiplicity");
            hits[j] += 1;
            double msd = 0;
            int ends[2] = {i0, j};
            for (int e = 0; e < 2; ++e)
                msd += ends[e] == 2 ? project(t.uij_cartn, b->r01()) : (*a)[ends[e]].uij_cartn(0, 0);
            if (pass == 0) vp_check_eq(b->msd(), msd, 1e-7, "msd");
            for (int k = 0; k < 3; ++k)
            {
                vp_check_eq(b->r0()[k], (*a)[i0].xyz_cartn[k], 0, "r0");
                vp_check_eq(b->r1()[k], (*a)[j].xyz_cartn[k], 0, "r1");
            }
        }
        for (size_t k = 0; k < sel.size(); ++k)
        {
            int j = sel[k];
            vp_check(hits[j] <= 1, "no duplicates");
            if (j == i0 || hits[j]) continue;
            R3::Vector dj = (*a)[i0].xyz_cartn - (*a)[j].xyz_cartn;
            vp_assume_lt(EPS, hi);
            vp_check(!definitely(R3::dot(dj, dj), lo, hi), "complete");
        }
    }
    vp_reach("isolated");
}

// periodic structures and crystals
static void periodic(bool crystal)
{
    const int gi = crystal ? 1 + vp_choose("group", NGROUPS - 1) : VP_T(0, vp_choose("group", NGROUPS));
    const Group& g = GROUPS[gi];
    const int which = vp_choose("sites", VP_T(3, 4)), i0 = which % 2;
    // either the limits or a coordinate is free
    const bool freelimits = VP_T(crystal && gi != 2, 0) || vp_choose("free", 2);
    PeriodicStructureAdapterPtr s;
    if (crystal) s = mkcrystal(g);
    else { s = boost::make_shared<PeriodicStructureAdapter>(); s->setLatPar(g.lat[0], g.lat[1], g.lat[2], g.lat[3], g.lat[4], g.lat[5]); }
    const Lattice& L = s->getLattice();
    const int n = 2;
    vector<R3::Vector> u;
    u.push_back(R3::Vector(freelimits ? 1.21 : vp_sym("x", VP_T(0.92, -1.2), VP_T(1.08, 1.2)), 0.23, -0.35));
    u.push_back(R3::Vector(0.71, 0.62, 0.1));
    for (int i = 0; i < n; ++i)
    {
        Atom a = mkatom(i ? "C" : "O", 0, 0, 0, 1);
        a.xyz_cartn = L.cartesian(u[i]);
        a.anisotropy = true;
        a.uij_cartn = i ? R3::Matrix(0.05, 0.02, 0.01, 0.02, 0.07, -0.03, 0.01, -0.03, 0.11)
            : R3::Matrix(0.15, -0.01, 0.04, -0.01, 0.03, 0.03, 0.04, 0.03, 0.06);
        s->append(a);
    }
    const double top = VP_T(crystal ? 3.2 : 3.6, 5);
    double lo = 0.75 * vp_choose("rmin", 2), hi = top - VP_T(0.6, 0);
    if (freelimits) { if (lo > 0) lo = vp_sym("rmin", 0, 2.0); else hi = vp_sym("rmax", top - VP_T(0.6, 1.5), top); }
    BaseBondGeneratorPtr b = s->createBondGenerator();
    // the limits may change after a use
    b->setRmin(which == 1 ? 15 : 0);
    b->setRmax(which == 1 ? hi : 1.5);
    b->selectAnchorSite(0);
    b->rewind();
    b->setRmin(lo);
    b->setRmax(hi);
    b->selectAnchorSite(i0);
    const bool onesite = which >= 2;
    if (onesite) b->selectSiteRange(1, 2);
    const int nops = crystal ? g.n : 1;
    static const Op identity = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0}};
    typedef vector<int> Key;     // site, image, translation
    std::set<Key> seen;
    const R3::Vector r0 = b->r0(), f0 = L.fractional(r0);
    int op0 = -1;
    for (int k = 0; k < nops && op0 < 0; ++k)
        if (L.norm(reduced(image(crystal ? g.op[k] : identity, u[i0]), f0)) < 1e-6) op0 = k;
    vp_check(op0 >= 0, "r0 is an image of the anchor");
    for (b->rewind(); !b->finished(); b->next())
    {
        inrange(*b, lo, hi);
        vp_check(b->site0() == i0, "site0");
        vp_check(b->multiplicity() == s->siteMultiplicity(i0), "multiplicity");
        int j = b->site1();
        vp_check(!onesite || j == 1, "selected sites only");
        for (int k = 0; k < 3; ++k) vp_check_eq(b->r0()[k], r0[k], 0, "r0 constant");
        R3::Vector f = L.fractional(b->r1());
        Key key(5);
        key[0] = j; key[1] = -1;
        for (int k = 0; k < nops; ++k)
        {
            const R3::Vector im = image(crystal ? g.op[k] : identity, u[j]), df = reduced(im, f);
            if (!(L.dot(df, df) < 1e-12)) continue;
            key[1] = k;
            for (int c = 0; c < 3; ++c) key[2 + c] = int(floor(f[c] - im[c] + 0.5));
            break;
        }
        vp_check(key[1] >= 0, "r1 is an image of the site");
        if (key[1] < 0) return;
        vp_check(seen.insert(key).second, "no duplicates");
        R3::Matrix U0 = imageU(crystal ? g.op[op0] : identity, L, (*s)[i0].uij_cartn);
        R3::Matrix U1 = imageU(crystal ? g.op[key[1]] : identity, L, (*s)[j].uij_cartn);
        if (freelimits) vp_check_eq(b->msd(), project(U0, b->r01()) + project(U1, b->r01()), 1e-6, "msd");
    }
    // a missing pair has to be out of the limits
    const int M = VP_T(2, 3);
    for (int j = onesite; j < n; ++j) for (int k = 0; k < nops; ++k)
    {
        const R3::Vector im = image(crystal ? g.op[k] : identity, u[j]);
        Key key(5);
        key[0] = j; key[1] = k;
        R3::Vector d0 = im - f0, c0;
        for (int c = 0; c < 3; ++c) c0[c] = floor(d0[c] + 0.5);
        for (int m = -M; m <= M; ++m) for (int o = -M; o <= M; ++o) for (int p = -M; p <= M; ++p)
        {
            R3::Vector t(m - c0[0], o - c0[1], p - c0[2]);
            for (int c = 0; c < 3; ++c) key[2 + c] = int(t[c]);
            if (seen.count(key)) continue;
            R3::Vector dt(d0 + t);
            vp_check(!definitely(L.dot(dt, dt), lo, hi), "complete");
        }
    }
    vp_reach(crystal ? "crystal" : "periodic");
}

// cells with each of the four diagonals the longest, and sites by its two ends
static void skewed()
{
    const int d = vp_choose("diagonal", 4);
    const bool up[3] = {true, d != 1 && d != 3, d != 2 && d != 3};
    const double ang[3] = {up[1] == up[2] ? 62. : 118., up[0] == up[2] ? 65. : 115., up[0] == up[1] ? 68. : 112.};
    PeriodicStructureAdapterPtr s(new PeriodicStructureAdapter);
    s->setLatPar(3, 3.2, VP_T(3.1, 5.3), ang[0], ang[1], ang[2]);
    const Lattice& L = s->getLattice();
    R3::Vector u[2];
    for (int k = 0; k < 3; ++k) { u[0][k] = up[k] ? 0.01 : 0.99; u[1][k] = 1 - u[0][k]; }
    for (int i = 0; i < 2; ++i)
    {
        Atom a = mkatom("C", 0, 0, 0, 1);
        a.xyz_cartn = L.cartesian(u[i]);
        s->append(a);
    }
    const int i0 = vp_choose("anchor", 2);
    const double width = VP_T(0.4, 0.8);
    const double hi = vp_sym("rmax", VP_T(3.0, 2.8), VP_T(3.3, 5.0)), lo = hi - width;
    BaseBondGeneratorPtr b = s->createBondGenerator();
    // only one of the limits changes after a use
    b->setRmin(i0 ? 14 : lo);
    b->setRmax(i0 ? hi : 0.1);
    b->selectAnchorSite(i0);
    b->rewind();
    if (i0) b->setRmin(lo); else b->setRmax(hi);
    b->selectSiteRange(1 - i0, 2 - i0);
    std::set<vector<int> > seen;
    const int M = VP_T(3, 5);
    for (b->rewind(); !b->finished(); b->next())
    {
        inrange(*b, lo, hi);
        vp_check(b->site1() == 1 - i0, "selected sites only");
        R3::Vector f = L.fractional(b->r1()) - u[1 - i0];
        vector<int> t(3);
        for (int k = 0; k < 3; ++k) t[k] = int(floor(f[k] + 0.5));
        R3::Vector df(f[0] - t[0], f[1] - t[1], f[2] - t[2]);
        vp_check(L.dot(df, df) < 1e-12, "r1 is an image of the site");
        vp_check(seen.insert(t).second, "no duplicates");
    }
    for (int m = -M; m <= M; ++m) for (int o = -M; o <= M; ++o) for (int p = -M; p <= M; ++p)
    {
        vector<int> t(3);
        t[0] = m; t[1] = o; t[2] = p;
        if (seen.count(t)) continue;
        R3::Vector x = u[1 - i0] - u[i0] + R3::Vector(m, o, p);
        vp_check(!definitely(L.dot(x, x), lo, hi), "complete");
    }
    vp_reach("skewed");
}

void vp_main()
{
    switch (VP_KIND) {
        case 0: isolated(); break;
        case 1: periodic(false); break;
        case 2: periodic(true); break;
        case 3: skewed(); break;
    }
}
