// Degree trigonometry and round-off aware comparisons.
#include "common.hpp"
#include <diffpy/mathutils.hpp>
using namespace diffpy::mathutils;

static double S(int k)   // exact cos(30 deg * k)
{
    static const double c[12] = {1, 0.86602540378443864676, 0.5, 0, -0.5, -0.86602540378443864676,
        -1, -0.86602540378443864676, -0.5, 0, 0.5, 0.86602540378443864676};
    k %= 12;
    return c[k < 0 ? k + 12 : k];
}

static void trig()
{
    const double lim = VP_T(400.0, 800.0);
    double x = vp_sym("x", -lim, lim);
    vp_mode("trigperiod");
    bool usecos = vp_choose("cos", 2);
    // multiples of 30 degrees give the exact values
    for (int k = int(-lim / 30); k <= int(lim / 30); ++k)
        if (x == 30.0 * k)
        {
            double e = 30.0 * k;
            double v = usecos ? cosd(e) : sind(e);
            double r = usecos ? S(k) : S(k - 3);
            vp_check_eq(v, r, 1e-12, "exact-multiples");
            if (r == 0 || fabs(r) == 1 || fabs(r) == 0.5) vp_check(v == r, "exact-multiples-bits");
            return;
        }
    if (usecos) vp_check_eq(cosd(x), cos(x / 180.0 * M_PI), 1e-8, "cosd");
    else vp_check_eq(sind(x), cos(M_PI / 2 - x / 180.0 * M_PI), 1e-8, "sind");
    vp_reach("trig");
}

static void inverse()
{
    double x = vp_sym("x", -1.0, 1.0);
    double ac = acosd(x), as = asind(x);
    vp_check_eq(ac, acos(x) * 180.0 / M_PI, 1e-9, "acosd");
    vp_check_eq(as, asin(x) * 180.0 / M_PI, 1e-9, "asind");
    vp_check_eq(ac + as, 90.0, 1e-9, "acosd+asind");
    if (x == 0.5) vp_check(acosd(0.5) == 60.0 && asind(0.5) == 30.0, "exact-inverse");
    vp_reach("inverse");
}

static void comparisons()
{
    double eps = vp_sym("eps", 1e-9, 1.0);
    double x = vp_sym("x", -10, 10), y = vp_sym("y", -10, 10), z = vp_sym("z", -10, 10);
    bool eq = eps_eq(x, y, eps), lt = eps_lt(x, y, eps), gt = eps_gt(x, y, eps);
    vp_check(int(eq) + int(lt) + int(gt) == 1, "trichotomy");
    vp_check(eq == eps_eq(y, x, eps), "eq symmetric");
    vp_check(lt == eps_gt(y, x, eps), "lt and gt mirror");
    if (lt && eps_lt(y, z, eps)) vp_check(eps_lt(x, z, eps), "lt transitive");
    EpsilonLess L(eps); EpsilonEqual E(eps);
    vp_check(L(x, y) == lt && E(x, y) == eq, "functors");
    vp_reach("comparisons");
}

static void sequences()
{
    double eps = 0.125;
    EpsilonLess L(eps); EpsilonEqual E(eps);
    int n = vp_choose("n", 3), m = vp_choose("m", 3);
    vector<double> u, v;
    for (int i = 0; i < n; ++i) u.push_back(vp_sym("u", -1, 1));
    for (int i = 0; i < m; ++i) v.push_back(vp_sym("v", -1, 1));
    bool uv = L(u, v), vu = L(v, u), eq = E(u, v);
    vp_check(!(uv && vu), "less antisymmetric");
    vp_check(!(eq && (uv || vu)), "equal excludes less");
    vp_check(eq || uv || vu, "total");
    vp_check(eq == E(v, u), "equal symmetric");
    vp_check(!L(u, u) && E(u, u), "reflexive");
    bool expect = n == m;
    for (int i = 0; expect && i < n; ++i) expect = fabs(u[i] - v[i]) <= eps;
    vp_check(eq == expect, "equal is elementwise");
    R3::Vector a(vp_sym("a", -1, 1), vp_sym("a", -1, 1), 0), b(vp_sym("b", -1, 1), 0.25, vp_sym("b", -1, 1));
    bool ve = fabs(a[0] - b[0]) <= eps && fabs(a[1] - b[1]) <= eps && fabs(a[2] - b[2]) <= eps;
    vp_check(E(a, b) == ve, "R3 vector equality");
    vp_check(int(L(a, b)) + int(L(b, a)) + int(ve) == 1, "R3 vector trichotomy");
    vp_reach("sequences");
}

void vp_main()
{
    switch (vp_choose("part", 4)) {
        case 0: trig(); break;
        case 1: inverse(); break;
        case 2: comparisons(); break;
        case 3: sequences(); break;
    }
}
