//@ property P14
//@ file mode=math
// Contracts of the numerical solvers: quadratic equations, root finding within a bracket, signs.
#include <functional>
#include <stdexcept>
#include <limits>
#include <cmath>
#include <utility>
#include <type_traits>
#include <marc/Mathematics.h>
#include "vspec.h"
#include <marc/root_find.cpp>

// b < 0: the root of smaller size comes second; b > 0: likewise (both have the sign of -b/a or are complex conjugate)
static void quadratic(bool negative) {
    double const a = nd_f64_in("a", -1e3, 1e3), b = nd_f64_in("b", -1e3, 1e3), c = nd_f64_in("c", -1e3, 1e3);
    v_assume(v_symbolic() ? a != 0 : (a > 1e-3) | (a < -1e-3));
    v_assume(negative == (b < 0));
    double const d = b * b - 4 * a * c;
    if (!v_symbolic()) v_assume((d > 1e-2) | (d < -1e-2));
    std::pair<double, double> k{7, 8};
    bool const real = MaRC::quadratic_roots(a, b, c, k);
    v_assert(real == (d >= 0), "roots exactly when the discriminant is not negative");
    if (real) {
        double const r = std::sqrt(d);
        // in terms of the formula (-b -+ sqrt(d)) / 2a
        double const s = v_symbolic() ? 1 : 1 / (1e3 + k.first * k.first + k.second * k.second);   // scale of the tolerance
        v_eq(2 * a * k.first * s, (negative ? -b + r : -b - r) * s, 1e-9, "first root");
        v_eq(2 * a * k.second * s, (negative ? -b - r : -b + r) * s, 1e-9, "second root");
        v_cover("real");
    } else
        v_cover("complex");
}
//@ fn h_quadratic_negative
HARNESS(h_quadratic_negative) { quadratic(true); }
//@ fn h_quadratic_positive
HARNESS(h_quadratic_positive) { quadratic(false); }
//@ fn h_zero_double_root
HARNESS(h_zero_double_root) {
    double const a = nd_f64_in("a", -1e3, 1e3);
    v_assume(a != 0);
    std::pair<double, double> k{7, 8};
    v_assert(MaRC::quadratic_roots(a, 0, 0, k), "real roots");
    v_assert((k.first == 0) & (k.second == 0), "both roots are zero");
    v_cover("end");
}
//@ fn h_signs mode=bits
HARNESS(h_signs) {
    double const x = nd_f64("x");
    v_assert(MaRC::sgn(x) == (x >= 0 ? 1 : x < 0 ? -1 : 0), "sgn");
    v_assert(MaRC::signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "signum");
    int const i = nd_i32("i");
    v_assert(MaRC::sgn(i) == (i >= 0 ? 1 : -1), "integer sgn");
    v_assert(MaRC::signum(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "integer signum");
    v_cover("end");
}

// an arbitrary function of x (natively: rising or falling cubics)
static double g_xl, g_xh, g_y, g_c[3];
static double cubic(double x, double) { return g_c[0] * (x - g_c[1]) * (x - g_c[1]) * (x - g_c[1]) + g_c[2] * x; }
static double f(double x) { return v_uf("f", cubic, x, 0); }
static double g_yl, g_yh;
static void bracket(bool rising) {
    g_xl = nd_f64_in("xl", -10, 10), g_xh = nd_f64_in("xh", -10, 10), g_y = nd_f64_in("y", -10, 10);
    v_assume(g_xl < g_xh);
    if (!v_symbolic()) {
        g_c[0] = nd_f64_in("c0", 0, 1), g_c[1] = nd_f64_in("c1", -5, 5), g_c[2] = nd_f64_in("c2", 0, 1);
        if (!rising) g_c[0] = -g_c[0], g_c[2] = -g_c[2];
    }
    g_yl = f(g_xl), g_yh = f(g_xh);
    v_assume(rising ? g_yl <= g_yh : g_yl > g_yh);
}
static void root(bool rising) {
    bracket(rising);
    bool const ok = !((g_yl > g_y) & (g_yh > g_y)) & !((g_yl < g_y) & (g_yh < g_y));
    double x = 0;
    try {
        x = MaRC::root_find(g_y, g_xl, g_xh, f);
        v_assert(ok, "a bracket that does not enclose the ordinate is rejected");
        v_le(g_xl, x, 1e-12, "the root is not below the bracket");
        v_le(x, g_xh, 1e-12, "the root is not above the bracket");
        if (!v_symbolic()) v_eq(f(x), g_y, 1e-6, "the function takes the ordinate");
        v_cover("found");
    } catch (std::invalid_argument const&) {
        v_assert(!ok, "a suitable bracket is not rejected");
        v_cover("rejected");
    } catch (std::runtime_error const&) {
        v_assert(ok, "unsuitable brackets are reported as such");
        v_cover("diverging");
    }
}
//@ fn h_root_rising merge
HARNESS(h_root_rising) { root(true); }
//@ fn h_root_falling merge
HARNESS(h_root_falling) { root(false); }
