// Atom overlaps: every reported quantity against direct sums over neighbours,
// exchange differences against re-evaluation, gradients, neighbourhoods.
#include "crystal.hpp"
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <unordered_set>

static const char* T[3] = {"C", "O", "N"};
struct Pair { int i, j; double r, olp; R3::Vector d; };

static double rad[3];
static int type[4];
static double occ[4];

static StructureAdapterPtr make(const Cell& c)
{
    AtomicStructureAdapterPtr a;
    if (!c.g) a = mkstru();
    else if (c.g == GROUPS)
    {
        PeriodicStructureAdapterPtr p = boost::make_shared<PeriodicStructureAdapter>();
        p->setLatPar(c.g->lat[0], c.g->lat[1], c.g->lat[2], c.g->lat[3], c.g->lat[4], c.g->lat[5]);
        a = p;
    }
    else a = mkcrystal(*c.g);
    for (size_t i = 0; i < c.u.size(); ++i)
    {
        R3::Vector r = c.cart(i);
        a->append(mkatom(T[type[i]], r[0], r[1], r[2], occ[i]));
    }
    return a;
}

static void setup(OverlapCalculator& olc, int mask)
{
    AtomRadiiTablePtr t = boost::make_shared<ConstantRadiiTable>();
    for (int k = 0; k < 3; ++k) t->setCustom(T[k], rad[k]);
    olc.setAtomRadiiTable(t);
    if (mask) olc.setPairMask(0, 1, false);
}

void vp_main()
{
    const int kind = vp_choose("structure", VP_T(5, 6));
    const int groups[6] = {-1, -1, 0, 1, 3, 6};
    Cell c(groups[kind] < 0 ? 0 : GROUPS + groups[kind]);
    bool symx = false;
    switch (kind)
    {
        case 0:     // along a line, one coordinate free
            symx = true;
            c.u.push_back(R3::Vector(0, 0, 0));
            c.u.push_back(R3::Vector(vp_sym("x", 0.2, 3.3), 0, 0));
            c.u.push_back(R3::Vector(3.5, 0, 0));
            break;
        case 1:
            c.u.push_back(R3::Vector(0, 0, 0)); c.u.push_back(R3::Vector(1.2, 0.5, -0.4));
            c.u.push_back(R3::Vector(-0.7, 1, 1.1)); c.u.push_back(R3::Vector(2, 1, 0.6));
            break;
        default:    // the first site in a special position
            c.u.push_back(R3::Vector(0, 0, 0)); c.u.push_back(R3::Vector(0.31, 0.12, 0.45));
    }
    const int n = c.u.size();
    const bool symr = !symx || VP_T(1, 1);
    rad[0] = symr ? vp_sym("rC", 0.3, 1.1) : 0.8;
    rad[1] = symr && (kind == 1 || VP_T(0, kind < 2)) ? vp_sym("rO", 0.2, 1.3) : 1.05;
    rad[2] = 0.9;
    for (int i = 0; i < n; ++i)
    {
        type[i] = i == 3 ? 2 : i % 2;
        occ[i] = VP_T(0, kind == 1 && i < 2) || (kind == 2 && i < 2) ? vp_sym("occ", 0.1, 1.5) : 1.0 - 0.3 * i;
    }
    const int mask = vp_choose("mask", 2);
    OverlapCalculator olc;
    setup(olc, mask);
    StructureAdapterPtr s = make(c);
    olc.eval(s);
    // expected pairs
    vector<Pair> pairs;
    vector<double> sq(n, 0), crd(n, 0);
    vector<R3::Vector> grad(n, R3::Vector(0, 0, 0));
    vector<vector<bool> > conn(n, vector<bool>(n, false));
    for (int i = 0; i < n; ++i)
    {
        conn[i][i] = true;
        vector<Neighbor> nb;
        if (symx) for (int j = 0; j < n; ++j)
        {
            if (j == i) continue;
            Neighbor b; b.j = j; b.d = c.u[j] - c.u[i]; b.r = fabs(b.d[0]);
            nb.push_back(b);
        }
        else nb = c.neighbors(i, 2.7);
        for (size_t k = 0; k < nb.size(); ++k)
        {
            const int j = nb[k].j;
            if (mask && i + j == 1) continue;
            double olp = rad[type[i]] + rad[type[j]] - nb[k].r;
            if (!(olp > 0)) continue;
            Pair p = {i, j, nb[k].r, olp, nb[k].d};
            pairs.push_back(p);
            sq[i] += olp * olp * occ[j] / 2;
            crd[i] += occ[j];
            for (int q = 0; q < 3; ++q) grad[j][q] += -2 * olp * nb[k].d[q] / nb[k].r;
            conn[i][j] = conn[j][i] = true;
        }
    }
    check_same(olc.siteSquareOverlaps(), sq, 1e-7, "siteSquareOverlaps");
    check_same(olc.coordinations(), crd, 1e-7, "coordinations");
    double total = 0, totocc = 0;
    for (int i = 0; i < n; ++i) { total += sq[i] * occ[i] * c.multiplicity(i); totocc += occ[i] * c.multiplicity(i); }
    vp_check_eq(olc.totalSquareOverlap(), total, 1e-7, "totalSquareOverlap");
    vp_check_eq(olc.meanSquareOverlap() * totocc, total, 1e-7, "meanSquareOverlap");
    // reported pairs: each expected one has its entry
    vector<double> ov = olc.overlaps(), ds = olc.distances();
    vector<R3::Vector> dir = olc.directions();
    vector<int> s0 = olc.sites0(), s1 = olc.sites1();
    vector<string> t0 = olc.types0(), t1 = olc.types1();
    const size_t np = pairs.size();
    vp_check(ov.size() == np && ds.size() == np && dir.size() == np && s0.size() == np && s1.size() == np && t0.size() == np && t1.size() == np, "number of overlapping pairs");
    if (ov.size() != np || ds.size() != np || s0.size() != np || s1.size() != np) return;
    double sumsq = 0, expsq = 0;
    for (size_t k = 0; k < np; ++k)
    {
        vp_check(t0[k] == T[type[s0[k]]] && t1[k] == T[type[s1[k]]], "types of sites");
        vp_check_eq(ov[k], rad[type[s0[k]]] + rad[type[s1[k]]] - ds[k], 1e-9, "overlap of the pair");
        if (!symx) vp_check_eq(R3::norm(dir[k]), ds[k], 1e-9, "direction");
        else vp_check_eq(dir[k][0], c.u[s1[k]][0] - c.u[s0[k]][0], 1e-9, "direction");
        sumsq += ov[k] * ov[k] * (1 + s0[k] + 3 * s1[k]);
        expsq += pairs[k].olp * pairs[k].olp * (1 + pairs[k].i + 3 * pairs[k].j);
    }
    vp_check_eq(sumsq, expsq, 1e-7, "set of overlapping pairs");
    if (kind < 3)
    {
        vector<R3::Vector> g = olc.gradients();
        vp_check(int(g.size()) == n, "gradients size");
        for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) vp_check_eq(g[i][k], grad[i][k], 1e-7, "gradients");
    }
    // neighbours
    for (int i = 0; i < n; ++i)
    {
        std::unordered_set<int> nb = olc.getNeighborSites(i), ex;
        std::unordered_map<string, double> ct = olc.coordinationByTypes(i), et;
        for (size_t k = 0; k < np; ++k) if (pairs[k].i == i) { ex.insert(pairs[k].j); et[T[type[pairs[k].j]]] += occ[pairs[k].j]; }
        vp_check(nb == ex, "getNeighborSites");
        vp_check(ct.size() == et.size(), "coordinationByTypes keys");
        for (int k = 0; k < 3; ++k) vp_check_eq(ct.count(T[k]) ? ct[T[k]] : 0.0, et.count(T[k]) ? et[T[k]] : 0.0, 1e-9, "coordinationByTypes");
    }
    // neighbourhoods are the connected components
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (conn[i][k] && conn[k][j]) conn[i][j] = true;
    vector<std::unordered_set<int> > hoods = olc.neighborhoods();
    vector<int> member(n, -1);
    for (size_t h = 0; h < hoods.size(); ++h) for (int i : hoods[h]) { vp_check(member[i] < 0, "neighborhoods are disjoint"); member[i] = h; }
    for (int i = 0; i < n; ++i)
    {
        if (mask && n == 2 && kind >= 2) { }    // with every other pair masked a site may be left out
        else vp_check(member[i] >= 0, "every site has its neighborhood");
        for (int j = 0; j < i; ++j) if (member[i] >= 0 && member[j] >= 0) vp_check((member[i] == member[j]) == conn[i][j], "neighborhoods are connected components");
    }
    // exchange of two sites
    {
        const int i = vp_choose("i", n), j = vp_choose("j", n);
        double fd = olc.flipDiffTotal(i, j), fm = olc.flipDiffMean(i, j);
        std::swap(type[i], type[j]);
        OverlapCalculator o2;
        setup(o2, mask);
        StructureAdapterPtr f = make(c);
        o2.eval(f);
        vp_check_eq(fd, o2.totalSquareOverlap() - olc.totalSquareOverlap(), 1e-7, "flipDiffTotal");
        vp_check_eq(fm * totocc, fd, 1e-7, "flipDiffMean");
        // the calculator is not changed by that
        vp_check_eq(olc.totalSquareOverlap(), total, 1e-7, "unchanged by exchange");
        vp_reach("exchanged");
    }
    vp_reach(kind < 2 ? "isolated" : kind == 2 ? "periodic" : "crystal");
}
