// Symmetry operations and reference expansion shared by the crystal harnesses.
#ifndef VP_CRYSTAL_HPP
#define VP_CRYSTAL_HPP
#include "common.hpp"
#include <diffpy/srreal/Lattice.hpp>

struct Op { double R[9]; double t[3]; };
struct Group { const char* name; double lat[6]; int n; Op op[8]; };

static const Group GROUPS[] = {
    {"P1", {3, 4, 5, 80, 95, 110}, 1, {{{1,0,0,0,1,0,0,0,1}, {0,0,0}}}},
    {"P-1", {3, 4, 5, 80, 95, 110}, 2, {{{1,0,0,0,1,0,0,0,1}, {0,0,0}}, {{-1,0,0,0,-1,0,0,0,-1}, {0,0,0}}}},
    // the identity is not the first operation
    {"P-1 reversed", {3, 4, 5, 80, 95, 110}, 2, {{{-1,0,0,0,-1,0,0,0,-1}, {0.5,0,0}}, {{1,0,0,0,1,0,0,0,1}, {0,0,0}}}},
    {"P21/c", {3, 4, 5, 90, 105, 90}, 4, {{{1,0,0,0,1,0,0,0,1}, {0,0,0}}, {{-1,0,0,0,1,0,0,0,-1}, {0,0.5,0.5}},
        {{-1,0,0,0,-1,0,0,0,-1}, {0,0,0}}, {{1,0,0,0,-1,0,0,0,1}, {0,0.5,0.5}}}},
    // a glide and a screw axis first, identity last
    {"P3 reversed", {4, 4, 5, 90, 90, 120}, 3, {{{0,-1,0,1,-1,0,0,0,1}, {0,0,0}}, {{-1,1,0,-1,0,0,0,0,1}, {0,0,0}},
        {{1,0,0,0,1,0,0,0,1}, {0,0,0}}}},
    {"P41", {4, 4, 5, 90, 90, 90}, 4, {{{1,0,0,0,1,0,0,0,1}, {0,0,0}}, {{0,-1,0,1,0,0,0,0,1}, {0,0,0.25}},
        {{-1,0,0,0,-1,0,0,0,1}, {0,0,0.5}}, {{0,1,0,-1,0,0,0,0,1}, {0,0,0.75}}}},
    // mirror x -> -x in an oblique primitive setting of a centred rectangular cell
    {"Cm primitive", {4, 4.47213595499957939, 5, 90, 90, 116.565051177077989}, 2, {{{1,0,0,0,1,0,0,0,1}, {0,0,0}}, {{-1,1,0,0,1,0,0,0,1}, {0,0,0}}}},
};
static const int NGROUPS = sizeof(GROUPS) / sizeof(GROUPS[0]);

inline R3::Matrix opR(const Op& o) { R3::Matrix r; std::copy(o.R, o.R + 9, r.data().begin()); return r; }
inline R3::Vector opt(const Op& o) { return R3::Vector(o.t[0], o.t[1], o.t[2]); }

inline CrystalStructureAdapterPtr mkcrystal(const Group& g)
{
    CrystalStructureAdapterPtr s = boost::make_shared<CrystalStructureAdapter>();
    s->setLatPar(g.lat[0], g.lat[1], g.lat[2], g.lat[3], g.lat[4], g.lat[5]);
    for (int i = 0; i < g.n; ++i) s->addSymOp(opR(g.op[i]), opt(g.op[i]));
    return s;
}

// image of fractional position u
inline R3::Vector image(const Op& o, const R3::Vector& u)
{
    R3::Vector v;
    for (int i = 0; i < 3; ++i) v[i] = o.R[3 * i] * u[0] + o.R[3 * i + 1] * u[1] + o.R[3 * i + 2] * u[2] + o.t[i];
    return v;
}

// Cartesian (row vector convention) rotation: x' = x Q
inline R3::Matrix cartrot(const Op& o, const Lattice& L)
{
    R3::Matrix q;
    const R3::Matrix B = L.base(), I = L.recbase();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0;
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += I(i, k) * o.R[3 * l + k] * B(l, j);
        q(i, j) = s;
    }
    return q;
}

// displacement tensor of the image
inline R3::Matrix imageU(const Op& o, const Lattice& L, const R3::Matrix& U)
{
    R3::Matrix q = cartrot(o, L), r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0;
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += q(k, i) * U(k, l) * q(l, j);
        r(i, j) = s;
    }
    return r;
}

// fractional difference reduced to the nearest translation
inline R3::Vector reduced(const R3::Vector& a, const R3::Vector& b)
{
    R3::Vector d = a - b;
    for (int k = 0; k < 3; ++k) d[k] -= floor(d[k] + 0.5);
    return d;
}

// All neighbours of site i (concrete positions u) below rmax by direct
// enumeration of images and translations.
struct Neighbor { int j; R3::Vector d; double r; };
struct Cell
{
    const Group* g;         // 0 for an isolated set of atoms with Cartesian u
    Lattice L;
    vector<R3::Vector> u;
    Cell(const Group* grp) : g(grp) { if (g) L.setLatPar(g->lat[0], g->lat[1], g->lat[2], g->lat[3], g->lat[4], g->lat[5]); }
    R3::Vector cart(int i) const { return g ? L.cartesian(u[i]) : u[i]; }
    vector<R3::Vector> images(int j) const
    {
        vector<R3::Vector> rv;
        for (int k = 0; k < g->n; ++k)
        {
            R3::Vector v = image(g->op[k], u[j]);
            bool dup = false;
            for (size_t m = 0; m < rv.size(); ++m) if (L.norm(reduced(v, rv[m])) < 1e-5) dup = true;
            if (!dup) rv.push_back(v);
        }
        return rv;
    }
    int multiplicity(int j) const { return g ? images(j).size() : 1; }
    vector<Neighbor> neighbors(int i, double rmax, int M = 3) const { return neighborsFrom(u[i], rmax, M); }
    vector<Neighbor> neighborsFrom(const R3::Vector& ui, double rmax, int M = 3) const
    {
        vector<Neighbor> rv;
        for (int j = 0; j < int(u.size()); ++j)
        {
            vector<R3::Vector> im;
            if (g) im = images(j); else im.push_back(u[j]);
            for (size_t k = 0; k < im.size(); ++k)
                for (int m = g ? -M : 0; m <= (g ? M : 0); ++m) for (int n = g ? -M : 0; n <= (g ? M : 0); ++n) for (int o = g ? -M : 0; o <= (g ? M : 0); ++o)
                {
                    R3::Vector f = im[k] - ui + R3::Vector(m, n, o);
                    Neighbor b;
                    b.j = j; b.d = g ? L.cartesian(f) : f; b.r = R3::norm(b.d);
                    if (b.r > 1e-6 && b.r <= rmax) rv.push_back(b);
                }
        }
        return rv;
    }
};
#endif
