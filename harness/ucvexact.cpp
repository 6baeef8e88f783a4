// Reduction of fractional coordinates to the unit cell, decided over all IEEE
// doubles with their rounding.
#include <cstring>
#include <diffpy/srreal/Lattice.hpp>
#include "vp.h"
#ifdef VP_THOROUGH
#define VP_T(q, t) (t)
#else
#define VP_T(q, t) (q)
#endif
using namespace diffpy::srreal;

static double number(const char* name)
{
    const long b = vp_symbits(name, 64);
    double x; memcpy(&x, &b, 8);
    return x;
}

extern "C" void vp_main()
{
    // no member of the lattice takes part in the reduction
    static char room[sizeof(Lattice)] __attribute__((aligned(16)));
    const Lattice& L = *reinterpret_cast<const Lattice*>(room);
    const double x = number("x");
    const double big = VP_T(1048576.0, 1125899906842624.0);
    vp_assume((-big < x) & (x < big));
    const int k = vp_choose("axis", 3);
    R3::Vector u(0.25, -0.25, 3.0);
    const double e[3] = {0.25, 0.75, 0.0};
    u[k] = x;
    const R3::Vector r = L.ucvFractional(u);
    for (int i = 0; i < 3; ++i) if (i != k) vp_check(r[i] == e[i], "other axes");
    const double y = r[k];
    vp_check((0.0 <= y) & (y < 1.0), "within the cell");
    if (y == 0.0) { vp_reach("face"); return; }
    // a position within the cell stays where it is
    if ((0.0 <= x) & (x < 0.9999)) { vp_check(y == x, "position in the cell is kept"); vp_reach("inside"); return; }
    R3::Vector v(0.0, 0.0, 0.0);
    v[k] = y;
    vp_check(L.ucvFractional(v)[k] == y, "reduced once and for all");
    vp_reach("outside");
}
