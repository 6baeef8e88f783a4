// PointsInSphere and the reflection generators: complete, no duplicates,
// nothing outside of the limits.
#include "common.hpp"
#include <set>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>

static const double LAT[][6] = {
    {1, 1, 1, 90, 90, 90}, {1, 1, 2, 90, 90, 120}, {1, 2, 1.5, 90, 105, 90}, {1.5, 1.25, 1, 80, 95, 110},
    {1, 1, 1, 60, 60, 60}};
static const double EPS = 1e-7;

template <class It>
static void compare(It& sph, const int* idx, double lo, double hi, const vector<double>& r2of, int M, bool firstvalid)
{
    std::set< vector<int> > seen;
    for (; !sph.finished(); sph.next())
    {
        vector<int> mno(idx, idx + 3);
        vp_check(seen.insert(mno).second, "no duplicates");
        bool inbox = true;
        for (int k = 0; k < 3; ++k) inbox = inbox && abs(mno[k]) <= M;
        vp_check(inbox, "index range");
        double r2 = r2of[(mno[0] + M) * (2 * M + 1) * (2 * M + 1) + (mno[1] + M) * (2 * M + 1) + mno[2] + M];
        double r = sqrt(r2);
        vp_check_le(lo, r, EPS, "not below the lower limit");
        vp_check_le(r, hi, EPS, "not above the upper limit");
    }
    // completeness
    std::set<double> missing;
    int i = 0;
    for (int m = -M; m <= M; ++m) for (int n = -M; n <= M; ++n) for (int o = -M; o <= M; ++o, ++i)
    {
        int mno[3] = {m, n, o};
        if (!seen.count(vector<int>(mno, mno + 3))) missing.insert(round(sqrt(r2of[i]) * 1e9) / 1e9);
    }
    for (std::set<double>::iterator r = missing.begin(); r != missing.end(); ++r)
    {
        if (!(lo + EPS < *r)) continue;
        // the first missing point above the lower limit
        vp_check(*r >= hi - EPS, "complete");
        break;
    }
    vp_reach("compared");
}

void vp_main()
{
#ifdef VP_THOROUGH
    const int which = vp_choose("lattice", 5), kind = vp_choose("kind", 2);
#else
    static const int SEL[3][2] = {{0, 0}, {3, 0}, {1, 1}};
    const int sel = vp_choose("case", 3), which = SEL[sel][0], kind = SEL[sel][1];
#endif
    const double* p = LAT[which];
    double a = p[0];
    const double top = VP_T(1.8, 2.6);
    const int M = VP_T(3, 4);
    switch (kind) {
        case 0: {
            Lattice L(a, p[1], p[2], p[3], p[4], p[5]);
            vector<double> r2;
            for (int m = -M; m <= M; ++m) for (int n = -M; n <= M; ++n) for (int o = -M; o <= M; ++o)
            {
                R3::Vector v(m, n, o);
                r2.push_back(L.dot(v, v));
            }
            double lo = vp_sym("Rmin", 0, top), hi = vp_sym("Rmax", 0, top);
            bool tmpl = which % 2;
            PointsInSphere s1(lo, hi, a, p[1], p[2], p[3], p[4], p[5]);
            PointsInSphere s2(lo, hi, L);
            PointsInSphere& s = tmpl ? s2 : s1;
            if (!s.finished())
            {
                double r = s.r();
                R3::Vector v(s.m(), s.n(), s.o());
                vp_check_eq(r * r, L.dot(v, v), 1e-7, "r");
                vp_check(s.mno()[0] == s.m() && s.mno()[1] == s.n() && s.mno()[2] == s.o(), "mno");
            }
            compare(s, s.mno(), lo, hi, r2, M, true);
            s.rewind();
            PointsInSphere& t = tmpl ? s1 : s2;
            for (; !s.finished() && !t.finished(); s.next(), t.next())
                vp_check(std::equal(s.mno(), s.mno() + 3, t.mno()), "rewind and constructors agree");
            vp_check(s.finished() && t.finished(), "rewind and constructors agree");
            break; }
        case 1: {
            // lattice scaled so that a few reflections fall in the Q range
            const double sc = 6.25;
            Lattice L(a * sc, p[1] * sc, p[2] * sc, p[3], p[4], p[5]);
            vector<double> q2;
            for (int m = -M; m <= M; ++m) for (int n = -M; n <= M; ++n) for (int o = -M; o <= M; ++o)
            {
                R3::Vector g = m * L.var() + n * L.vbr() + o * L.vcr();
                q2.push_back(4 * M_PI * M_PI * R3::dot(g, g));
            }
            const double qtop = VP_T(1.5, 1.7);
            double lo = vp_sym("Qmin", 0, qtop), hi = vp_sym("Qmax", 0.01, qtop);
            ReflectionsInQminQmax ref(lo, hi, L);
            if (!ref.finished() && (ref.h() || ref.k() || ref.l()))
                vp_check_eq(ref.Q() * ref.d(), 2 * M_PI, 1e-9, "Q*d=2*pi");
            compare(ref, ref.hkl(), lo, hi, q2, M, true);
            vp_reach("reflections");
            break; }
    }
}
