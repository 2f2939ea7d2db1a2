// Reference values of special functions in 80-bit extended precision (Boost.Math), independent of russell.
#include <boost/math/special_functions.hpp>
#include <boost/math/policies/policy.hpp>
#include <limits>
#include <math.h>
using namespace boost::math::policies;
typedef policy<domain_error<ignore_error>, pole_error<ignore_error>, overflow_error<ignore_error>,
               underflow_error<ignore_error>, denorm_error<ignore_error>, rounding_error<ignore_error>,
               evaluation_error<ignore_error>, promote_double<false>, max_series_iterations<1000000>>
    P;
typedef long double L;
extern "C" double vp_ref(int which, double a, double b, double c) {
    P p;
    try {
        switch (which) {
        case 0: return (double)boost::math::erf((L)a, p);
        case 1: return (double)boost::math::erfc((L)a, p);
        case 2: return (double)boost::math::erf_inv((L)a, p);
        case 3: return (double)boost::math::erfc_inv((L)a, p);
        case 4: return (double)boost::math::tgamma((L)a, p);
        case 5: return (double)boost::math::lgamma((L)a, p);
        case 6: { int s = 1; boost::math::lgamma((L)a, &s, p); return (double)s; }
        case 7: if (a >= 2) return (double)jnl((int)a, (L)b);
            return (double)boost::math::cyl_bessel_j((int)a, (L)b, p);
        case 8: return (double)boost::math::cyl_neumann((int)a, (L)b, p);
        case 9: return (double)boost::math::cyl_bessel_i((int)a, (L)b, p);
        case 10: return (double)boost::math::cyl_bessel_k((int)a, (L)b, p);
        // elliptic integrals: a = phi, b = m = k*k (k computed in extended precision), c = n
        case 11: return (double)boost::math::ellint_1(sqrtl((L)b), (L)a, p);
        case 12: return (double)boost::math::ellint_2(sqrtl((L)b), (L)a, p);
        case 13: return (double)boost::math::ellint_3(sqrtl((L)b), (L)c, (L)a, p);
        // the same integrals through Carlson's symmetric forms (accurate for small phi and m > 1)
        case 21: { L s = sinl((L)a), c = cosl((L)a); return (double)(s * boost::math::ellint_rf(c * c, 1 - b * s * s, (L)1, p)); }
        case 22: { L s = sinl((L)a), c = cosl((L)a), q = b * s * s;
            return (double)(s * (boost::math::ellint_rf(c * c, 1 - q, (L)1, p) - q * boost::math::ellint_rd(c * c, 1 - q, (L)1, p) / 3)); }
        case 23: { L s = sinl((L)a), k = cosl((L)a), q = b * s * s, n = c * s * s;
            return (double)(s * (boost::math::ellint_rf(k * k, 1 - q, (L)1, p) + n * boost::math::ellint_rj(k * k, 1 - q, (L)1, 1 - n, p) / 3)); }
        // principal value for n > 1/sin(phi)^2 (Abramowitz and Stegun 17.7.7)
        case 24: { L s = sinl((L)a), t = tanl((L)a), m = b, n = c, d = sqrtl(1 - m * s * s), p1 = sqrtl((n - 1) * (1 - m / n));
            L pi = boost::math::ellint_3(sqrtl(m), m / n, (L)a, p), f = boost::math::ellint_1(sqrtl(m), (L)a, p);
            return (double)(-pi + f + logl(fabsl((d + p1 * t) / (d - p1 * t))) / (2 * p1)); }
        case 14: if (a > 0 && b > 0) { L v = boost::math::beta((L)a, (L)b, p); if (v > 1e-4900L && v < 1e4900L) return (double)logl(v); if (a + b > 1e6) break; }
            return (double)(boost::math::lgamma((L)a, p) + boost::math::lgamma((L)b, p) - boost::math::lgamma((L)a + (L)b, p));
        case 15: return (double)boost::math::beta((L)a, (L)b, p);
        }
    } catch (...) {
    }
    return std::numeric_limits<double>::quiet_NaN();
}

// Chebyshev (kind 0: T, 1: U) and Legendre (kind 2) polynomials by their recurrences in quadruple precision;
// returns the value and its first and second derivatives
extern "C" void vp_poly(int kind, int n, double x_, double *out) {
    typedef __float128 Q;
    Q x = x_;
    Q p0 = 1, d0 = 0, e0 = 0, p1 = (kind == 1) ? 2 * x : x, d1 = (kind == 1) ? 2 : 1, e1 = 0;
    if (n == 0) { out[0] = 1; out[1] = 0; out[2] = 0; return; }
    for (int k = 1; k < n; k++) {
        Q a = (kind == 2) ? (Q)(2 * k + 1) / (Q)(k + 1) : (Q)2, b = (kind == 2) ? (Q)k / (Q)(k + 1) : (Q)1;
        Q p2 = a * x * p1 - b * p0, d2 = a * (p1 + x * d1) - b * d0, e2 = a * (2 * d1 + x * e1) - b * e0;
        p0 = p1; p1 = p2; d0 = d1; d1 = d2; e0 = e1; e1 = e2;
    }
    out[0] = (double)p1; out[1] = (double)d1; out[2] = (double)e1;
}
