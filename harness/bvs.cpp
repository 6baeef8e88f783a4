// Bond valence sums against the defining sum over all neighbours.
#include "crystal.hpp"
#include <diffpy/srreal/BVSCalculator.hpp>
#include <map>

// types, their valences and custom parameters (Ro symbolic or as given)
static const char* T[4] = {"Na1+", "Cl1-", "Zz2+", "Qq"};
static const int V[4] = {1, -1, 2, 0};

static bool like;     // whether ions of the same kind have parameters

static bool params(int a, int b, const double Ro[2], double& R0, double& B)
{
    // Na-Cl and Zz-Cl have parameters
    if (a > b) std::swap(a, b);
    if (a == 0 && b == 1) { R0 = Ro[0]; B = 0.37; return true; }
    if (a == 1 && b == 1 && like) { R0 = 3.2; B = 0.37; return true; }
    if (a == 1 && b == 2) { R0 = Ro[1]; B = 0.3; return true; }
    return false;
}

void vp_main()
{
    const int kind = vp_choose("structure", NGROUPS + 1);
    const Group* g = kind ? &GROUPS[kind - 1] : 0;
    const int sym = g ? 0 : vp_choose("symbolic", 3);         // occupancies, Ro, coordinate
    const int assign = vp_choose("types", 3);
    static const int types[3][4] = {{0, 1, 2, 1}, {1, 0, 0, 3}, {1, 1, 2, 0}};
    const int n = g ? 2 : 4;
    const bool special = g && vp_choose("special", 2);
    Cell c(g);
    vector<double> occ;
    c.u.push_back(R3::Vector(0.07, 0.03, 0.1));
    c.u.push_back(R3::Vector(0.31, 0.12, 0.45));
    c.u.push_back(R3::Vector(0.6, 0.9, 0.2));
    c.u.push_back(R3::Vector(0.5, 0.6, 0.7));
    if (special) c.u[0] = (kind == 3) ? R3::Vector(0.25, 0, 0) : R3::Vector(0, 0, 0);
    c.u.resize(n);
    if (!g) for (int i = 0; i < n; ++i) c.u[i] *= 5.0;
    const double x0 = c.u[0][0];
    if (sym > 0) { for (int i = 0; i < n; ++i) c.u[i] = R3::Vector(2.0 * i, 0, 0); }
    if (sym == 2) c.u[0][0] = vp_sym("x", -6, -1);
    for (int i = 0; i < n; ++i) occ.push_back(sym == 0 && i < VP_T(2, 3) ? vp_sym("occ", i ? 0.1 : 0, 1) : 0.3 + 0.2 * i);
    (void) x0;
    double Ro[2] = {2.15, 1.9};
    like = (sym == 0 || assign == 2) && vp_choose("like", 2);
    if (sym == 1) { Ro[0] = vp_sym("Ro", 1, 2.4); if (VP_T(0, 1)) Ro[1] = vp_sym("Ro1", 1, 2.4); }
    const double eps = vp_choose("precision", 2) ? 1e-5 : 0.02;
    const double rmax = vp_choose("rmax", 2) ? 100 : 4.1;

    AtomicStructureAdapterPtr s;
    if (!g) s = mkstru(); else s = mkcrystal(*g);
    for (int i = 0; i < n; ++i)
    {
        R3::Vector r = c.cart(i);
        s->append(mkatom(T[types[assign][i]], r[0], r[1], r[2], occ[i], 0.01));
    }
    BVSCalculator bvs;
    if (vp_choose("history", 2))
    {
        // an earlier structure and configuration must not matter
        AtomicStructureAdapterPtr o = mkstru();
        o->append(mkatom("Fe3+", 0)); o->append(mkatom("O2-", 2)); o->append(mkatom("O2-", 0, 2));
        bvs.setValencePrecision(0.5);
        bvs.eval(o);
    }
    bvs.getBVParamTable()->setCustom("Na", 1, "Cl", -1, Ro[0], 0.37);
    bvs.getBVParamTable()->setCustom("Cl", -1, "Zz", 2, Ro[1], 0.3);
    if (like) bvs.getBVParamTable()->setCustom("Cl", -1, "Cl", -1, 3.2, 0.37);
    bvs.setRmax(rmax);
    bvs.setValencePrecision(eps);
    bvs.eval(s);

    // range of the sum: the longest distance at which any bond type of the
    // structure reaches the precision, unless rmax is shorter
    double used = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        double R0, B;
        if (!params(types[assign][i], types[assign][j], Ro, R0, B)) continue;
        double d = R0 - B * log(eps);
        if (used < d) used = d;
    }
    if (rmax < used) used = rmax;
    vp_check_eq(bvs.getRmaxUsed(), used, 1e-9, "rmaxused");
    vp_check_eq(bvs.getDoubleAttr("rmaxused"), used, 1e-9, "rmaxused attribute");

    QuantityType v = bvs.value(), vo = bvs.valences(), bd = bvs.bvdiff();
    vp_check(int(v.size()) == n && int(vo.size()) == n && int(bd.size()) == n, "sizes");
    double sq = 0, tot = 0;
    for (int i = 0; i < n; ++i)
    {
        const int ti = types[assign][i];
        double sum = 0;
        vector<Neighbor> nb;
        if (sym > 0)
        {
            for (int j = 0; j < n; ++j) if (j != i)
            {
                Neighbor b;
                b.j = j; b.r = i < j ? c.u[j][0] - c.u[i][0] : c.u[i][0] - c.u[j][0];
                nb.push_back(b);
            }
        }
        else nb = c.neighbors(i, 7.5, 4);
        bool edge = false;
        for (size_t k = 0; k < nb.size(); ++k)
        {
            double R0, B;
            const int tj = types[assign][nb[k].j];
            if (!params(ti, tj, Ro, R0, B)) continue;
            if (fabs(nb[k].r - used) < 1e-7) edge = true;       // at the very limit either way
            if (nb[k].r <= used) sum += exp((R0 - nb[k].r) / B) * occ[nb[k].j];
        }
        vp_assume(!edge);
        if (V[ti] < 0) sum = -sum;
        vp_check_eq(v[i], sum, 1e-8, "valence sum");
        vp_check(vo[i] == V[ti], "expected valence");
        const double diff = (V[ti] < 0 ? -V[ti] : V[ti]) - (sum < 0 ? -sum : sum);
        vp_check_eq(bd[i], diff, 1e-8, "bvdiff");
        const int m = c.multiplicity(i);
        sq += m * occ[i] * bd[i] * bd[i];
        tot += m * occ[i];
        if (sum != 0) vp_reach("bonded");
    }
    if (tot > 0.01) vp_check_eq(bvs.bvmsdiff() * tot, sq, 1e-7, "bvmsdiff");
    if (sym != 1 || VP_T(0, 1))
    {
        const double rms = bvs.bvrmsdiff();
        vp_check_eq(rms * rms, bvs.bvmsdiff(), 1e-7, "bvrmsdiff");
        vp_check(rms >= 0, "bvrmsdiff sign");
    }
    if (sym == 2)
    {
        // nothing is there
        AtomicStructureAdapterPtr e = mkstru();
        e->append(mkatom("Na1+", 0, 0, 0, 0)); e->append(mkatom("Cl1-", 2, 0, 0, 0));
        bvs.eval(e);
        vp_check(bvs.bvmsdiff() == 0 && bvs.bvrmsdiff() == 0, "zero occupancy");
        bvs.eval(mkstru());
        vp_check(bvs.bvmsdiff() == 0 && bvs.bvrmsdiff() == 0 && bvs.bvdiff().empty() && bvs.getRmaxUsed() == 0, "empty structure");
    }
    vp_reach(sym == 0 ? "occupancies" : sym == 1 ? "parameters" : "coordinate");
    if (g) vp_reach("crystal");
}
