//@ property P12
//@ file mode=math merge pi
// Contracts of the body geometry: radii, latitudes, angles, line of sight.
#include <memory>
#include <stdexcept>
#include <cmath>
#include <vector>
#include <array>
#include <initializer_list>
#include <algorithm>
#include <type_traits>
#include <limits>
#define private public
#include <marc/OblateSpheroid.h>
#undef private
#include "vspec.h"
#ifdef VERIF_SYMBOLIC
// Contract of the quadratic solver (checked on its own, under P14): for a > 0, b < 0 it finds roots exactly when
// b*b >= 4ac, and the second is the smaller.
#define quadratic_roots quadratic_roots_
#include <marc/Mathematics.h>
#undef quadratic_roots
static double g_a, g_b, g_c, g_second;
static bool g_found;
namespace MaRC {
inline bool quadratic_roots(double a, double b, double c, std::pair<double, double>& roots) {
    g_a = a; g_b = b; g_c = c;
    v_assert(a > 0, "quadratic term");
    v_assert(b < 0, "linear term");
    g_found = nd_bool("meets the body");
    if (!g_found) return false;
    roots.first = nd_f64("first"); roots.second = g_second = nd_f64("second");
    v_assume(roots.second <= roots.first);
    return true;
}
}
#endif
#include <marc/OblateSpheroid.cpp>

static double const pi = 3.141592653589793;
struct B {
    double a = nd_f64_in("eq", 1000, 100000), c = nd_f64_in("pol", 1000, 100000);
    B() { v_assume(a >= c); v_assume(c > a * 0.5); }
};
static double angle_in(char const* n, double lim) { return nd_f64_in(n, -lim, lim); }

//@ fn h_accessors
HARNESS(h_accessors) {
    B b;
    bool const pro = nd_bool("prograde");
    MaRC::OblateSpheroid o(pro, b.a, b.c);
    v_assert(o.prograde() == pro, "rotation sense");
    v_eq(o.eq_rad(), b.a, 0, "equatorial radius");
    v_eq(o.pol_rad(), b.c, 0, "polar radius");
    double const e = o.first_eccentricity();
    v_eq(e * e, 1 - (b.c / b.a) * (b.c / b.a), 1e-9, "first eccentricity");
    v_le(0, e, 0, "first eccentricity is not negative");
    v_cover("end");
}
//@ fn h_centric_radius
HARNESS(h_centric_radius) {
    B b;
    double const lat = angle_in("lat", 1.5);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    double const r = o.centric_radius(lat);
    double const x = r * std::cos(lat) / b.a, z = r * std::sin(lat) / b.c;
    v_eq(x * x + z * z, 1, 1e-9, "the radius reaches the surface");
    v_le(0, r, 0, "the radius is positive");
    v_cover("end");
}
//@ fn h_latitudes
HARNESS(h_latitudes) {
    B b;
    double const lat = angle_in("lat", 1.5);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    double const g = o.graphic_latitude(lat), c = o.centric_latitude(lat);
    v_eq(std::tan(g) * b.c * b.c, std::tan(lat) * b.a * b.a, 1, "planetographic latitude is that of the surface normal");
    v_eq(std::tan(c) * b.a * b.a, std::tan(lat) * b.c * b.c, 1, "planetocentric latitude is that of the radius");
    v_le(g, pi / 2, 1e-15, "planetographic latitude below the pole");
    v_le(-pi / 2, g, 1e-15, "planetographic latitude above the pole");
    v_le(c, pi / 2, 1e-15, "planetocentric latitude below the pole");
    v_le(-pi / 2, c, 1e-15, "planetocentric latitude above the pole");
    v_cover("end");
}
//@ fn h_latitude_round_trip
HARNESS(h_latitude_round_trip) {
    B b;
    double const lat = angle_in("lat", 1.5);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    v_eq(o.centric_latitude(o.graphic_latitude(lat)), lat, 1e-9, "centric(graphic(latitude)) is the latitude");
    v_eq(o.graphic_latitude(o.centric_latitude(lat)), lat, 1e-9, "graphic(centric(latitude)) is the latitude");
    v_cover("end");
}
// point on the surface, its normal, and the observer, from first principles
struct V { double x, y, z; };
static V dir(double lat, double lon) { return {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)}; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

// lemma: the observer is away from the surface
static void outside(B const& b, double olat, double olon, double lat, double lon, double range, double r) {
    if (!v_symbolic()) return;
    V const s = dir(olat, olon), p = dir(lat, lon);
    V const e = {s.x - p.x, s.y - p.y, s.z - p.z};
    double const rc = r * std::cos(lat), rs = r * std::sin(lat);
    v_lemma(rc * rc + rs * rs == r * r, "radius");
    v_lemma(rs * rs / (b.c * b.c) >= rs * rs / (b.a * b.a), "polar part");
    v_lemma(r * r <= b.a * b.a, "radius squared");
    v_lemma(r <= b.a, "radius is at most the equatorial one");
    v_lemma(range - r >= 100000, "above the surface");
    v_lemma(2 - 2 * dot(s, p) == dot(e, e), "angle between the directions");
    v_lemma(e.x * e.x >= 0, "square");
    v_lemma(e.y * e.y >= 0, "square");
    v_lemma(e.z * e.z >= 0, "square");
    v_lemma(e.x * e.x + e.y * e.y + e.z * e.z >= 0, "squares");
    v_lemma(1 - dot(s, p) >= 0, "cosine at most one");
    v_lemma(dot(s, p) <= 1, "cosine at most one");
    v_lemma(range * r * (1 - dot(s, p)) >= 0, "chord");
    v_lemma((range - r) * (range - r) > 0, "altitude");
    v_lemma((range - r) * (range - r) + 2 * (range * r * (1 - dot(s, p))) > 0, "distance");
    v_lemma(range * range + r * r - 2 * range * r * dot(s, p) > 0, "distance");
}
//@ fn h_mu
HARNESS(h_mu) {
    B b;
    double const slat = angle_in("slat", 1.5), slon = angle_in("slon", 3), lat = angle_in("lat", 1.5), lon = angle_in("lon", 3);
    double const range = nd_f64_in("range", 200000, 1e9);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    outside(b, slat, slon, lat, lon, range, o.centric_radius(lat));
    double const mu = o.mu(slat, slon, lat, lon, range);
    double const r = o.centric_radius(lat);
    V const n = dir(o.graphic_latitude(lat), lon), p0 = dir(lat, lon), s0 = dir(slat, slon);
    V const d = {range * s0.x - r * p0.x, range * s0.y - r * p0.y, range * s0.z - r * p0.z};   // point to observer
    v_eq(mu * std::sqrt(dot(d, d)), dot(n, d), 1e-3, "mu is the cosine of the emission angle");
    v_cover("end");
}
//@ fn h_mu0
HARNESS(h_mu0) {
    B b;
    double const slat = angle_in("slat", 1.5), slon = angle_in("slon", 3), lat = angle_in("lat", 1.5), lon = angle_in("lon", 3);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    V const n = dir(o.graphic_latitude(lat), lon), s = dir(slat, slon);
    v_eq(o.mu0(slat, slon, lat, lon), dot(n, s), 1e-9, "mu0 is the cosine of the incidence angle");
    v_cover("end");
}
//@ fn h_cos_phase
HARNESS(h_cos_phase) {
    B b;
    double const olat = angle_in("olat", 1.5), olon = angle_in("olon", 3), slat = angle_in("slat", 1.5), slon = angle_in("slon", 3);
    double const lat = angle_in("lat", 1.5), lon = angle_in("lon", 3), range = nd_f64_in("range", 200000, 1e9);
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    outside(b, olat, olon, lat, lon, range, o.centric_radius(lat));
    double const phase = o.cos_phase(olat, olon, slat, slon, lat, lon, range);
    double const r = o.centric_radius(lat);
    V const p0 = dir(lat, lon), s0 = dir(olat, olon), s = dir(slat, slon);
    V const d = {range * s0.x - r * p0.x, range * s0.y - r * p0.y, range * s0.z - r * p0.z};
    v_eq(phase * std::sqrt(dot(d, d)), dot(s, d), 1e-3, "cosine of the phase angle");
    v_cover("end");
}
//@ fn h_curvature
HARNESS(h_curvature) {
    B b;
    double const lat = angle_in("lat", 1.5);
    MaRC::OblateSpheroid o(true, b.a, b.c);
    double const g = o.graphic_latitude(lat);
    double const q = b.a * b.a * std::cos(g) * std::cos(g) + b.c * b.c * std::sin(g) * std::sin(g);
    double const N = o.N(lat), M = o.M(lat);
    v_eq(N / b.a * (N / b.a) * (q / (b.a * b.a)), 1, 1e-9, "radius of curvature in the prime vertical");
    v_le(0, N, 0, "N is positive");
    v_eq((M / b.a) * (M / b.a) * (q / (b.a * b.a)) * (q / (b.a * b.a)) * (q / (b.a * b.a)),
         (b.c / b.a) * (b.c / b.a) * (b.c / b.a) * (b.c / b.a), 1e-9, "radius of curvature in the meridian");
    v_le(0, M, 0, "M is positive");
    v_cover("end");
}
// line of sight: from an observer outside the body, towards it
//@ fn h_intersection div0=assume
HARNESS(h_intersection) {
    B b;
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    MaRC::DVector v, d;
    double p[3], q[3];
    p[0] = nd_f64_in("vx", -3e6, 3e6), p[1] = nd_f64_in("vy", -3e6, 3e6), p[2] = nd_f64_in("vz", -3e6, 3e6);
    q[0] = nd_f64_in("dx", -1, 1), q[1] = nd_f64_in("dy", -1, 1), q[2] = nd_f64_in("dz", -1, 1);
    [[maybe_unused]] double const s = nd_bool("short direction vector") ? 1e-12 : 1e-6;
    if (!v_symbolic()) {   // aim close to the body
        for (int i = 0; i < 3; ++i) q[i] = (q[i] * 60000 - p[i]) * s;
    }
    for (int i = 0; i < 3; ++i) { v[i] = p[i]; d[i] = q[i]; }
    double const A = (q[0] / b.a) * (q[0] / b.a) + (q[1] / b.a) * (q[1] / b.a) + (q[2] / b.c) * (q[2] / b.c);
    double const H = (q[0] / b.a) * (p[0] / b.a) + (q[1] / b.a) * (p[1] / b.a) + (q[2] / b.c) * (p[2] / b.c);
    double const C = (p[0] / b.a) * (p[0] / b.a) + (p[1] / b.a) * (p[1] / b.a) + (p[2] / b.c) * (p[2] / b.c) - 1;
    v_assume(A > 0);
    v_assume(C > (v_symbolic() ? 0 : 1e-3));
    v_assume(H < 0);
    [[maybe_unused]] double const D = H * H - A * C;
    if (!v_symbolic()) v_assume(D > 1e-6 * H * H || D < -1e-6 * H * H);     // leave out grazing lines
    double lat = 0, lon = 0;
    int const r = o.ellipse_intersection(v, d, lat, lon);
#ifdef VERIF_SYMBOLIC
    v_eq(g_a * H * 2, g_b * A, 0, "line of sight equation: linear term");
    v_eq(g_a * C, g_c * A, 0, "line of sight equation: constant term");
    v_assert(r == (g_found ? 0 : 1), "found exactly when the line of sight meets the body");
    double const k = g_second;
#else
    v_assert(r == (D < 0 ? 1 : 0), "found exactly when the line of sight meets the body");
    double const k = r == 0 ? (-H - std::sqrt(D)) / A : 0;     // nearer intersection
#endif
    if (r == 0) {
        double const x = p[0] + k * q[0], y = p[1] + k * q[1], z = p[2] + k * q[2];
        v_assume(x * x + y * y > 1e-3);
        v_eq(lat, std::atan(z / std::hypot(x, y)), 1e-5, "latitude of the nearer intersection");
        v_eq(lon, std::atan2(x, -y), 1e-4, "longitude of the nearer intersection");
        v_cover("hit");
    } else
        v_cover("miss");
}
//@ fn h_null_direction
HARNESS(h_null_direction) {
    B b;
    MaRC::OblateSpheroid const o(true, b.a, b.c);
    MaRC::DVector v, d;
    v[0] = nd_f64_in("vx", -3e6, 3e6), v[1] = nd_f64_in("vy", -3e6, 3e6), v[2] = nd_f64_in("vz", -3e6, 3e6);
    d[0] = d[1] = d[2] = 0;
    double lat = 3, lon = 4;
    v_assert(o.ellipse_intersection(v, d, lat, lon) == -1, "a null line of sight is refused");
    v_assert(lat == 3 && lon == 4, "nothing is returned");
    v_cover("end");
}
