// Peak profile functions: values, symmetry, bounds and precision.
#include "common.hpp"
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/mathutils.hpp>

using diffpy::mathutils::DOUBLE_EPS;

static const double PREC[] = {3.33e-6, 0.01, 0.5, 1, 2, 0, 1e-12};

void vp_main()
{
    const bool cropped = vp_choose("cropped", 2);
    PeakProfilePtr p = PeakProfile::createByType(cropped ? "croppedgaussian" : "gaussian");
    vp_check(p->type() == (cropped ? "croppedgaussian" : "gaussian"), "type");
    // the default precision is that of doubles
    vp_check_eq(p->getPrecision(), DOUBLE_EPS, 0, "default precision");
    // any change of precision must be visible in the ticker and in clones
    const int kp = vp_choose("precision", 8);
    if (kp == 7)
    {
        const double e = vp_sym("eps", 0.001, 0.999);
        p->setPrecision(e);
        vp_check_eq(p->getPrecision(), e, 0, "precision");
        const double b = p->xboundhi(2.5);
        vp_check_eq(b * b * 4 * M_LN2 / 6.25, -log(e), 1e-9, "bound from precision");
        vp_check_le(0, b, 0, "bound from precision");
        vp_check_eq(p->xboundlo(2.5), -b, 0, "bound from precision");
        vp_reach("symbolic precision");
        return;
    }
    const double eps = std::max(PREC[kp], DOUBLE_EPS);
    diffpy::eventticker::EventTicker t0 = p->ticker();
    p->setPrecision(PREC[kp]);
    vp_check((eps != DOUBLE_EPS) == (t0 < p->ticker()), "ticker");
    vp_check_eq(p->getPrecision(), eps, 0, "precision");
    vp_check_eq(p->getDoubleAttr("peakprecision"), eps, 0, "precision");
    t0 = p->ticker();
    p->setPrecision(PREC[kp]);
    vp_check(!(t0 < p->ticker()), "ticker");
    switch (vp_choose("object", 3)) {
        case 1: { PeakProfilePtr q = p->clone(); p->setPrecision(0.3); p = q; break; }
        case 2: { PeakProfilePtr q = p->create(); vp_check_eq(q->getPrecision(), DOUBLE_EPS, 0, "create"); q->setPrecision(PREC[kp]); p = q; break; }
        default: break;
    }
    const PeakProfile& f = *p;
    vp_check_eq(f.getPrecision(), eps, 0, "precision");
    const double w = vp_sym("fwhm", -0.5, 3);
    const double x = vp_sym("x", -12, 12);
    const double y = f(x, w);
    const double hi = f.xboundhi(w), lo = f.xboundlo(w);
    vp_check_eq(lo, -hi, 0, "symmetric bounds");
    if (w <= 0)
    {
        vp_check_eq(y, 0, 0, "zero for no width");
        vp_check_eq(f(0, w), 0, 0, "zero for no width");
        vp_check_eq(hi, 0, 0, "no bounds for no width");
        vp_reach("no width");
        return;
    }
    vp_assume(w > 0.01);
    const double h = eps < 1 ? sqrt(-log(eps) / (4 * M_LN2)) : 0;
    vp_check_eq(hi, h * w, 1e-9, "bounds");
    // scale that keeps the area of a cropped profile
    const double sc = cropped && eps < 1 ? 1 / erf(sqrt(-log(eps))) : 1;
    const double c = sc * 2 * sqrt(M_LN2 / M_PI);
    const double v = x / w;
    const double e = c * exp(-4 * M_LN2 * v * v);
    const bool out = fabs(v) > h + 1e-9, in = fabs(v) < h - 1e-9;
    vp_check_le(0, y, 0, "nonnegative");
    if (!cropped || in) { vp_check_eq(y * w, e, 1e-9, "profile function"); vp_reach("inside"); }
    if (out)
    {
        if (cropped) vp_check_eq(y, 0, 0, "zero beyond bounds");
        else if (eps < 1) { vp_check_le(-4 * M_LN2 * v * v, log(eps), 1e-7, "relative height beyond bounds is below the precision"); }
        vp_reach("outside");
    }
    vp_check_eq(f(-x, w), y, 1e-9, "symmetric");
}
