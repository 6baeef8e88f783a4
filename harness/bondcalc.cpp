// Bond lists: content, order, geometry and cone filters.
#include "crystal.hpp"
#include <diffpy/srreal/BondCalculator.hpp>

static const char* T[2] = {"C", "O"};

struct Expect { int i, j; R3::Vector d; double r; };

static double dist(double a, double b) { return a < b ? b - a : a - b; }

void vp_main()
{
    const int kind = vp_choose("structure", NGROUPS + 2);       // 0, 1: isolated
    const Group* g = kind > 1 ? &GROUPS[kind - 2] : 0;
    const int n = g ? 2 : 4;
    Cell c(g);
    double rmin = 0.5, rmax = 4.2, cone = 40;
    c.u.push_back(R3::Vector(0, 0, 0));
    c.u.push_back(R3::Vector(0.25, 0.25, 0.25));
    c.u.push_back(R3::Vector(-0.25, 0, 0));
    c.u.push_back(R3::Vector(0.5, 0.2, 0.1));
    c.u.resize(n);
    if (!g) for (int i = 0; i < n; ++i) c.u[i] *= 8.0;
    const bool line = kind == 1;
    if (line)
    {
        for (int i = 0; i < n; ++i) c.u[i] = R3::Vector(2.5 * i, 0, 0);
        c.u[0][0] = vp_sym("x", -3, 8);
        for (int i = 1; i < n; ++i) vp_assume(dist(c.u[0][0], c.u[i][0]) > 1e-3);
    }
    const int what = line ? 0 : vp_choose("symbolic", g ? 2 : 3);
    if (what == 1) cone = vp_sym("degrees", 0, 185);
    if (what == 2) rmax = vp_sym("rmax", 2, 6);
    const int filters = line ? vp_choose("filters", 2) : what == 1 ? 1 + vp_choose("filters", 3) : vp_choose("filters", 4);
    // axis of the cones, the first one parallel to bonds
    const R3::Vector axes[2] = {g ? R3::Vector(3.0 * (c.cart(1) - c.cart(0))) : R3::Vector(1, 1, 1), R3::Vector(-2, 0, 0.5)};

    AtomicStructureAdapterPtr s;
    if (!g) s = mkstru(); else s = mkcrystal(*g);
    for (int i = 0; i < n; ++i)
    {
        R3::Vector r = c.cart(i);
        s->append(mkatom(T[i % 2], r[0], r[1], r[2]));
    }
    BondCalculator bc;
    bc.setRmin(rmin);
    bc.setRmax(rmax);
    if (vp_choose("history", 2))
    {
        // an earlier evaluation with other filters must not matter
        bc.filterCone(R3::Vector(0, 1, 0), 10);
        bc.eval(s);
        bc.filterOff();
        if (vp_choose("bad", 2)) try { bc.filterCone(R3::Vector(0, 0, 0), 30); vp_check(0, "zero axis is refused"); } catch (std::invalid_argument&) { }
    }
    if (filters == 1) bc.filterCone(axes[0], cone);
    if (filters == 2) { bc.filterCone(axes[1], cone); }
    if (filters == 3) { bc.filterCone(axes[1], 20); bc.filterCone(axes[0], cone); }
    QuantityType v = bc.eval(s), ds = bc.distances();
    vector<R3::Vector> dir = bc.directions();
    SiteIndices s0 = bc.sites0(), s1 = bc.sites1();
    vector<string> t0 = bc.types0(), t1 = bc.types1();
    const size_t np = v.size();
    vp_check(ds.size() == np && dir.size() == np && s0.size() == np && s1.size() == np && t0.size() == np && t1.size() == np, "sizes");

    for (size_t k = 0; k < np; ++k)
    {
        vp_check_eq(v[k], ds[k], 0, "value");
        if (k) vp_check_le(ds[k - 1], ds[k], 0, "sorted by distance");
        vp_check(s0[k] >= 0 && s0[k] < n && s1[k] >= 0 && s1[k] < n, "site indices");
        vp_check(t0[k] == T[s0[k] % 2] && t1[k] == T[s1[k] % 2], "types");
    }
    for (int i = 0; i < n; ++i)
    {
        vector<int> mine;
        for (size_t k = 0; k < np; ++k) if (s0[k] == i) mine.push_back(k);
        // the anchor may be any of the symmetry images of the site
        vector<R3::Vector> im;
        if (g) im = c.images(i); else im.push_back(c.u[i]);
        string why;
        for (size_t a = 0; a < im.size(); ++a)
        {
            why = "";
            vector<Expect> ex;
            vector<Neighbor> nb;
            if (line)
            {
                for (int j = 0; j < n; ++j) if (j != i)
                {
                    Neighbor b;
                    b.j = j; b.d = c.u[j] - c.u[i]; b.r = dist(c.u[i][0], c.u[j][0]);
                    nb.push_back(b);
                }
            }
            else nb = c.neighborsFrom(im[a], 6.5, 3);
            for (size_t k = 0; k < nb.size(); ++k)
            {
                const Neighbor& b = nb[k];
                // exactly at a limit either way
                vp_assume(dist(b.r, rmin) > 1e-6);
                vp_assume(dist(b.r, rmax) > 1e-6);
                if (b.r < rmin || b.r > rmax) continue;
                bool in = filters == 0;
                for (int f = 0; f < 2; ++f)
                {
                    if (!(filters & (f ? 2 : 1))) continue;
                    const double deg = (filters == 3 && f) ? 20 : cone;
                    if (deg >= 180) { in = true; continue; }
                    double cs;
                    if (line) cs = (f ? (b.d[0] > 0 ? -1.0 : 1.0) : (b.d[0] > 0 ? 1.0 : -1.0)) * (f ? 2 / sqrt(4.25) : 1 / sqrt(3));
                    else cs = R3::dot(axes[f], b.d) / b.r / R3::norm(axes[f]);
                    const double an = acos(std::min(1.0, std::max(-1.0, cs))) * 180 / M_PI;
                    vp_assume(dist(an, deg) > 1e-5);
                    if (an < deg) in = true;
                }
                Expect e = {i, b.j, b.d, b.r};
                if (in) ex.push_back(e);
            }
            if (ex.size() != mine.size()) { why = "number of bonds"; continue; }
            // every bond is one of the expected ones, each used once
            vector<int> used(ex.size(), 0), match(ex.size(), 0);
            for (size_t q = 0; q < mine.size() && why.empty(); ++q)
            {
                const int k = mine[q];
                int found = -1;
                for (size_t m = 0; m < ex.size() && found < 0; ++m)
                {
                    if (used[m] || ex[m].j != s1[k]) continue;
                    if (!line && R3::distance(ex[m].d, dir[k]) > 1e-6) continue;
                    found = m;
                }
                if (found < 0) { why = "expected bond"; break; }
                used[found] = 1;
                match[q] = found;
            }
            if (!why.empty()) continue;
            for (size_t q = 0; q < mine.size(); ++q)
            {
                vp_check_eq(ds[mine[q]], ex[match[q]].r, 1e-8, "distance");
                for (int x = 0; x < 3; ++x) vp_check_eq(dir[mine[q]][x], ex[match[q]].d[x], 1e-8, "direction");
            }
            break;
        }
        vp_check(why.empty(), why.empty() ? "bonds of the site" : why.c_str());
    }
    if (np) vp_reach(filters ? "filtered" : "unfiltered");
    if (g && np) vp_reach("crystal");
    if (line) vp_reach("line");
}
