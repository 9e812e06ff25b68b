//@ property P13
//@ file mode=math merge pi
//@ assume the set up of the camera orientation, which selects among candidate rotations numerically, is executed on sampled geometries (bounded), not proved
// Contracts of the rotations, and of locating points through the public interface.
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <stdexcept>
#include <cmath>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include "vspec.h"
#include <marc/NullGeometricCorrection.cpp>
#include <marc/Geometry.cpp>
#include <marc/Log.h>
// messages are not part of the contracts
void MaRC::details::debug(char const*, fmt::format_args) {}
void MaRC::details::info(char const*, fmt::format_args) {}
void MaRC::details::warn(char const*, fmt::format_args) {}
void MaRC::details::error(char const*, fmt::format_args) {}
#include <marc/OblateSpheroid.cpp>
#include <marc/ViewingGeometry.cpp>

static double const deg = 3.141592653589793 / 180;

static void rotation(int axis) {
    double const t = nd_f64_in("angle", -6, 6);
    MaRC::DVector const v(nd_f64_in("x", -1e3, 1e3), nd_f64_in("y", -1e3, 1e3), nd_f64_in("z", -1e3, 1e3));
    MaRC::DVector r(0, 0, 0);
    if (axis == 0) MaRC::Geometry::RotX(t, v, r);
    else if (axis == 1) MaRC::Geometry::RotY(t, v, r);
    else MaRC::Geometry::RotZ(t, v, r);
    MaRC::DMatrix const m = axis == 0 ? MaRC::Geometry::RotXMatrix(t) : axis == 1 ? MaRC::Geometry::RotYMatrix(t) : MaRC::Geometry::RotZMatrix(t);
    MaRC::DVector const w = m * v, b = MaRC::transpose(m) * w;
    int const j = (axis + 1) % 3, k = (axis + 2) % 3;
    double const c = std::cos(t), s = std::sin(t);
    v_eq(r[axis], v[axis], 1e-9, "the axis is fixed");
    v_eq(r[j], c * v[j] + s * v[k], 1e-9, "rotation about the axis");
    v_eq(r[k], c * v[k] - s * v[j], 1e-9, "rotation about the axis");
    for (int i = 0; i < 3; ++i) {
        v_eq(w[i], r[i], 1e-9, "matrix and rotation agree");
        v_eq(b[i], v[i], 1e-9, "the transposed matrix undoes the rotation");
    }
    v_cover("end");
}
//@ fn h_rotate_x
HARNESS(h_rotate_x) { rotation(0); }
//@ fn h_rotate_y
HARNESS(h_rotate_y) { rotation(1); }
//@ fn h_rotate_z
HARNESS(h_rotate_z) { rotation(2); }
//@ fn h_matrices
HARNESS(h_matrices) {
    MaRC::DMatrix a, b;
    double x[3][3], y[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) { a(i, j) = x[i][j] = nd_f64_in("a", -9, 9); b(i, j) = y[i][j] = nd_f64_in("b", -9, 9); }
    MaRC::DVector const u(nd_f64_in("u", -9, 9), nd_f64_in("u", -9, 9), nd_f64_in("u", -9, 9)), v(nd_f64_in("v", -9, 9), nd_f64_in("v", -9, 9), nd_f64_in("v", -9, 9));
    auto const p = a * b;
    auto const t = MaRC::transpose(a);
    auto const w = a * u, d = u - v, e = u + v, n = 3.0 * u;
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            v_eq(p(i, j), x[i][0] * y[0][j] + x[i][1] * y[1][j] + x[i][2] * y[2][j], 1e-9, "product of matrices");
            v_eq(t(i, j), x[j][i], 0, "transposed matrix");
        }
        v_eq(w[i], x[i][0] * u[0] + x[i][1] * u[1] + x[i][2] * u[2], 1e-9, "product of matrix and vector");
        v_eq(d[i], u[i] - v[i], 0, "difference of vectors");
        v_eq(e[i], u[i] + v[i], 0, "sum of vectors");
        v_eq(n[i], 3 * u[i], 1e-9, "multiple of a vector");
    }
    v_eq(MaRC::dot_product(u, v), u[0] * v[0] + u[1] * v[1] + u[2] * v[2], 1e-9, "inner product");
    v_cover("end");
}
static void magnitude(double x, double y, double z) {
    double const m = MaRC::DVector(x, y, z).magnitude();
    v_eq(m * m, x * x + y * y + z * z, 1e-9, "magnitude");
    v_le(0, m, 0, "magnitude is not negative");
    v_cover("end");
}
//@ fn h_magnitude
HARNESS(h_magnitude) {
    double const x = nd_f64_in("x", -9, 9), y = nd_f64_in("y", -9, 9), z = nd_f64_in("z", -9, 9);
    double const a = x < 0 ? -x : x, b = y < 0 ? -y : y, c = z < 0 ? -z : z;
    if (a < b) { if (b < c) magnitude(x, y, z); else magnitude(x, y, z); }
    else if (a < c) magnitude(x, y, z);
    else magnitude(x, y, z);
}

// ---- the whole chain, executed
struct V { double x, y, z; };
static V operator-(V a, V b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
static V operator*(double f, V a) { return { f * a.x, f * a.y, f * a.z }; }
static double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static V unit(V a) { return 1 / std::sqrt(dot(a, a)) * a; }

struct Scene {
    bool prograde = nd_bool("prograde");
    double a = nd_f64_in("eq", 1000, 80000), c = a * nd_f64_in("pol", 0.85, 1);
    std::shared_ptr<MaRC::OblateSpheroid> body = std::make_shared<MaRC::OblateSpheroid>(prograde, a, c);
    MaRC::ViewingGeometry g{body};
    double olat = nd_f64_in("observer latitude", -60, 60), olon = nd_f64_in("observer longitude", -359, 359);
    double range = a * nd_f64_in("range", 4, 1000), pa = nd_f64_in("position angle", -180, 180);
    uint64_t samples = 2 + nd_u64_in("samples", 0, 60), lines = 2 + nd_u64_in("lines", 0, 60);
    double k = a / nd_f64_in("pixels per radius", 2, 30);
    double cs, cl, os, ol;
    V o;                                    // observer
    V point(double lat, double lon) const { // in the frame of longitudes
        double const r = body->centric_radius(lat), l = prograde ? -lon : lon;
        return { r * std::cos(lat) * std::sin(l), -r * std::cos(lat) * std::cos(l), r * std::sin(lat) };
    }
    Scene() {
        g.sub_observ(olat, olon);
        g.sub_solar(0, 0);
        g.range(range);
        g.position_angle(pa);
        double const l = (prograde ? -olon : olon) * deg;
        o = range * V{ std::cos(olat * deg) * std::sin(l), -std::cos(olat * deg) * std::cos(l), std::sin(olat * deg) };
    }
};
// any point on the near side
static bool near_side(Scene& s, double& lat, double& lon, double& x, double& z) {
    lat = nd_f64_in("latitude", -1.5, 1.5), lon = s.olon * deg + nd_f64_in("longitude", -1.5, 1.5);
    return s.g.latlon2pix(lat, lon, x, z);
}
static void match(Scene& s, double f) {
    // angles between points, as seen by the observer, are those between their pixels
    double lat1, lon1, lat2, lon2, x1, z1, x2, z2;
    if (!near_side(s, lat1, lon1, x1, z1) || !near_side(s, lat2, lon2, x2, z2)) return;
    V const p1 = unit(s.point(lat1, lon1) - s.o), p2 = unit(s.point(lat2, lon2) - s.o);
    V const q1 = unit({ x1 - s.os, f, s.ol - z1 }), q2 = unit({ x2 - s.os, f, s.ol - z2 });
    V const dp = p1 - p2, dq = q1 - q2;
    v_eq(std::sqrt(dot(dp, dp)) * f, std::sqrt(dot(dq, dq)) * f, 1e-3 + 1e-6 * f, "angles in the photo are those seen by the observer");
    double const ax = f * dot(cross(p1, p2), unit(s.o)), bx = f * dot(cross(q1, q2), unit({ s.os - s.cs, -f, s.cl - s.ol }));
    v_eq(ax, bx, 1e-3 + 1e-6 * f, "the photo is not mirrored");
    v_cover("matched");
}
//@ fn h_photo_of_body mode=bounded
HARNESS(h_photo_of_body) {
    Scene s;
    s.os = s.cs = s.samples / 2.0; s.ol = s.cl = s.lines / 2.0;
    bool const off = nd_bool("axis off the body");
    if (off) { s.cs += nd_f64_in("dx", -20, 20); s.cl += nd_f64_in("dy", -20, 20); }
    if (nd_bool("axis given")) {
        if (off) { s.os += nd_f64_in("ax", -5, 5); s.ol += nd_f64_in("ay", -5, 5); }
        s.g.optical_axis(s.os, s.ol);
    }
    s.g.body_center(s.cs, s.cl);
    int const how = int(nd_u64_in("how", 0, 2));
    double f;
    double const away = std::hypot(s.os - s.cs, s.ol - s.cl);
    v_assume(away * s.k < 0.3 * s.range * std::cos(s.olat * deg));      // otherwise no orientation may fit
    if (how == 0) s.g.km_per_pixel(s.k);
    else if (how == 1) s.g.arcsec_per_pixel(s.k / s.range / deg * 3600);
    else {
        f = s.range / s.k;
        s.g.focal_length(f / 80);
        s.g.scale(80);
        s.k = s.range / std::hypot(f, away);
    }
    f = std::sqrt(s.range / s.k * (s.range / s.k) - away * away);
    s.g.finalize_setup(s.samples, s.lines);
    double x = 0, z = 0;
    v_assert(s.g.latlon2pix(s.olat * deg, s.olon * deg, x, z), "the sub-observation point is visible");
    v_eq(x, s.cs, 1e-4 + 1e-6 * f, "the sub-observation point is at the centre of the body: sample");
    v_eq(z, s.cl, 1e-4 + 1e-6 * f, "the sub-observation point is at the centre of the body: line");
    match(s, f);
    double lat, lon;
    if (near_side(s, lat, lon, x, z)) {
        double la = 9, lo = 9;
        // away from the limb, where pixels hardly determine a point
        if (s.body->mu(s.olat * deg, s.olon * deg, lat, lon, s.range) > 0.05) {
            v_assert(s.g.pix2latlon(x, z, la, lo), "the pixel of a visible point is on the body");
            double const tol = 30 * (1e-4 + 1e-6 * f) * s.k / s.a;
            v_eq(la, lat, tol, "latitude of the pixel of a point");
            v_eq(std::sin((lo - lon) / 2), 0, tol / std::cos(lat), "longitude of the pixel of a point");
        }
        if (!off && std::hypot(x - s.cs, z - s.cl) > 1e-3) {
            // right, forward, up, for north up; then turned
            V const fwd = unit(-1 * s.o), right = unit(cross(fwd, { 0, 0, 1 })), up = cross(right, fwd), d = s.point(lat, lon) - s.o;
            double const r = dot(d, right) / dot(d, fwd) * f, u = dot(d, up) / dot(d, fwd) * f, t = s.pa * deg;
            v_eq(x - s.cs, std::cos(t) * r - std::sin(t) * u, 1e-4 + 1e-6 * f, "north is at the position angle: sample");
            v_eq(s.cl - z, std::cos(t) * u + std::sin(t) * r, 1e-4 + 1e-6 * f, "north is at the position angle: line");
        }
    }
    auto const mask = s.g.body_mask(s.samples, s.lines);
    v_assert(mask.size() == s.samples * s.lines, "size of the mask");
    uint64_t const i = nd_u64("i") % s.samples, j = nd_u64("j") % s.lines;
    v_assert(mask[j * s.samples + i] == s.g.pix2latlon(double(i), double(j), lat, lon), "the mask holds exactly the pixels on the body");
    v_cover("end");
}
//@ fn h_photo_of_point mode=bounded
HARNESS(h_photo_of_point) {
    Scene s;
    s.os = nd_f64_in("axis sample", 0, 60); s.ol = nd_f64_in("axis line", 0, 60);
    s.g.optical_axis(s.os, s.ol);
    s.g.km_per_pixel(s.k);
    double const lat = nd_f64_in("centre latitude", -50, 50), lon = s.olon * 0.99 + nd_f64_in("centre longitude", -0.9, 0.9) / deg * 0.9;
    v_assume((lon > -359) & (lon < 359));
    s.g.lat_lon_center(lat, lon);
    V const p = s.point(lat * deg, lon * deg);
    s.g.finalize_setup(s.samples, s.lines);
    double x = 0, z = 0;
    if (!s.g.latlon2pix(lat * deg, lon * deg, x, z)) return;
    v_eq(x, s.os, 1e-4 + 1e-6 * s.range / s.k, "the centre is on the optical axis: sample");
    v_eq(z, s.ol, 1e-4 + 1e-6 * s.range / s.k, "the centre is on the optical axis: line");
    V const u = unit(p - s.o);
    double const n = -dot(s.o, u), f = n / s.k;
    (void) f;
    v_cover("end");
}
