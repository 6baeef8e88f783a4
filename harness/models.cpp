// Exact models of the GSL routines used by R3linalg (GSL is a binary library
// and cannot be encoded).  Compiled with the same instrumentation.
#include <gsl/gsl_linalg.h>
#include <gsl/gsl_fft_complex.h>
#include <dlfcn.h>
#include <cfenv>
#include <cmath>
#include <vector>
#ifndef VP_NATIVE
// The library's gsl_sf_erf raises FE_INVALID for a NaN or an infinity.  That is
// its own matter: the harness has to see and judge what it returns.
extern "C" double gsl_sf_erf(double x)
{
    typedef double (*Erf)(double);
    static const Erf real = reinterpret_cast<Erf>(dlsym(RTLD_NEXT, "gsl_sf_erf"));
    fexcept_t flags;
    fegetexceptflag(&flags, FE_INVALID);
    const double y = real(x);
    fesetexceptflag(&flags, FE_INVALID);
    return y;
}
// The LU factorisation is modelled as an opaque copy of the matrix: the code
// under test only passes it on to LU_det, LU_solve and LU_invert.
static double vp_at(const gsl_matrix* m, int i, int j) { return m->data[i * m->tda + j]; }
static double vp_cof(const gsl_matrix* m, int i, int j)
{
    int r0 = (i + 1) % 3, r1 = (i + 2) % 3, c0 = (j + 1) % 3, c1 = (j + 2) % 3;
    return vp_at(m, r0, c0) * vp_at(m, r1, c1) - vp_at(m, r0, c1) * vp_at(m, r1, c0);
}
extern "C" int gsl_linalg_LU_decomp(gsl_matrix* A, gsl_permutation* p, int* signum)
{
    *signum = 1;
    for (size_t i = 0; i < p->size; ++i) p->data[i] = i;
    return 0;
}
static double vp_det(const gsl_matrix* m)
{
    return vp_at(m, 0, 0) * vp_cof(m, 0, 0) + vp_at(m, 0, 1) * vp_cof(m, 0, 1) + vp_at(m, 0, 2) * vp_cof(m, 0, 2);
}
extern "C" double gsl_linalg_LU_det(gsl_matrix* LU, int signum)
{
    // the real factorisation divides by a zero pivot for rank one and less
    bool rank1 = true;
    for (int i = 0; i < 3 && rank1; ++i) for (int j = 0; j < 3 && rank1; ++j) rank1 = (vp_cof(LU, i, j) == 0);
    if (rank1) return NAN;
    return signum * vp_det(LU);
}
extern "C" int gsl_linalg_LU_invert(const gsl_matrix* LU, const gsl_permutation* p, gsl_matrix* inv)
{
    double d = vp_det(LU);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        inv->data[i * inv->tda + j] = vp_cof(LU, j, i) / d;
    return 0;
}
extern "C" int gsl_linalg_LU_svx(const gsl_matrix* LU, const gsl_permutation* p, gsl_vector* x)
{
    double d = vp_det(LU), r[3];
    for (int i = 0; i < 3; ++i) {
        r[i] = 0;
        for (int j = 0; j < 3; ++j) r[i] += vp_cof(LU, j, i) * x->data[j * x->stride];
        r[i] /= d;
    }
    for (int i = 0; i < 3; ++i) x->data[i * x->stride] = r[i];
    return 0;
}
// Discrete Fourier transformation by its definition.  The twiddle factors are
// exactly symmetric.
extern "C" int gsl_fft_complex_radix2_inverse(gsl_complex_packed_array data, const size_t stride, const size_t n)
{
    if (!n || (n & (n - 1))) return 1;
    std::vector<double> c(n), s(n), re(n), im(n);
    for (size_t m = 0; m < n; ++m)
    {
        // reduce to the first octant
        size_t k = m; double sc = 1, ss = 1;
        if (2 * k > n) { k = n - k; ss = -ss; }             // angle 0..pi
        if (4 * k > n) { k = n / 2 - k; sc = -sc; }         // angle 0..pi/2
        const bool mid = 4 * k == n;
        c[m] = mid ? 0.0 : sc * std::cos(2 * M_PI * k / n);
        s[m] = k == 0 ? 0.0 : ss * (mid ? 1.0 : std::sin(2 * M_PI * k / n));
    }
    for (size_t j = 0; j < n; ++j) { re[j] = data[2 * stride * j]; im[j] = data[2 * stride * j + 1]; }
    for (size_t k = 0; k < n; ++k)
    {
        double a = 0, b = 0;
        for (size_t j = 0; j < n; ++j)
        {
            const size_t m = (k * j) % n;
            a += re[j] * c[m] - im[j] * s[m];
            b += re[j] * s[m] + im[j] * c[m];
        }
        data[2 * stride * k] = a / n;
        data[2 * stride * k + 1] = b / n;
    }
    return 0;
}
#endif
