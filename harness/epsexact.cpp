// Tolerant comparisons decided over all IEEE doubles with their rounding.
#include <cstring>
#include <diffpy/mathutils.hpp>
#include "vp.h"
using namespace diffpy::mathutils;

static double number(const char* name)
{
    const long b = vp_symbits(name, 64);
    double x; memcpy(&x, &b, 8);
    return x;
}

extern "C" void vp_main()
{
    const double x = number("x"), y = number("y"), big = 1e300;
    vp_assume((-big < x) & (x < big) & (-big < y) & (y < big));
    switch (vp_choose("what", 3))
    {
        case 0:
        {
            const bool g = eps_gt(x, y), l = eps_lt(x, y);
            vp_check(!(g & l), "not greater and less");
            vp_check(!g | (x > y), "greater by more than the tolerance");
            vp_check(!l | (x < y), "less by more than the tolerance");
            vp_reach("order");
            break;
        }
        case 1:
            vp_check(!eps_gt(x, y) | !eps_gt(y, x), "greater is one-sided");
            vp_check(!eps_lt(x, y) | !eps_lt(y, x), "less is one-sided");
            vp_check(!eps_gt(x, x) & !eps_lt(x, x) & eps_eq(x, x), "equal to itself");
            vp_reach("one-sided");
            break;
        case 2:
            vp_check(eps_gt(x, y, 0.0) == (x > y), "greater without tolerance");
            vp_check(eps_lt(x, y, 0.0) == (x < y), "less without tolerance");
            vp_check(eps_eq(x, y, 0.0) == (x == y), "equal without tolerance");
            vp_reach("exact");
            break;
    }
}
