//@ property P13
//@ file mode=math merge pi optional
// Contracts of locating points of the body in a photo, and photo pixels on the body, for any camera orientation.
// The state set up once per photo is private: without it, locating is decided by locate.cpp alone.
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <stdexcept>
#include <cmath>
#include <limits>
#include <algorithm>
#include <type_traits>
#define private public
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <marc/GeometricCorrection.h>
#undef private
#include "vspec.h"
#include <marc/NullGeometricCorrection.cpp>
#include <marc/Geometry.cpp>
#include <marc/Log.h>
// messages are not part of the contracts
void MaRC::details::debug(char const*, fmt::format_args) {}
void MaRC::details::info(char const*, fmt::format_args) {}
void MaRC::details::warn(char const*, fmt::format_args) {}
void MaRC::details::error(char const*, fmt::format_args) {}
#include <marc/ViewingGeometry.cpp>

// ---- contract of the body as seen by the viewing geometry (see P12): any answer
static double g_mu, g_mu0, g_radius, g_lat, g_lon, g_olat, g_olon, g_slat, g_slon, g_range, g_ilat, g_ilon;
static int g_meets;
static double g_dir[3];
static double const deg = 3.141592653589793 / 180, two_pi = 6.283185307179586;

MaRC::OblateSpheroid::OblateSpheroid(bool p, double a, double c) : BodyData(p), eq_rad_(a), pol_rad_(c), first_eccentricity_(0) {}
double MaRC::OblateSpheroid::centric_radius(double lat) const { v_eq(lat, g_lat, 1e-12, "radius at the latitude"); return g_radius; }
double MaRC::OblateSpheroid::centric_latitude(double) const { return 0; }
double MaRC::OblateSpheroid::graphic_latitude(double) const { return 0; }
double MaRC::OblateSpheroid::mu(double olat, double olon, double lat, double lon, double range) const {
    v_eq(olat, g_olat, 1e-12, "sub-observation latitude");
    v_eq(olon, g_olon, 1e-12, "sub-observation longitude");
    v_eq(lat, g_lat, 1e-12, "latitude");
    v_eq(lon, g_lon, 1e-12, "longitude");
    v_eq(range, g_range, 1e-12, "range");
    return g_mu;
}
double MaRC::OblateSpheroid::mu0(double slat, double slon, double lat, double lon) const {
    v_eq(slat, g_slat, 1e-12, "sub-solar latitude");
    v_eq(slon, g_slon, 1e-12, "sub-solar longitude");
    v_eq(lat, g_lat, 1e-12, "latitude");
    v_eq(lon, g_lon, 1e-12, "longitude");
    return g_mu0;
}
double MaRC::OblateSpheroid::cos_phase(double, double, double, double, double, double, double) const { return 0; }
int MaRC::OblateSpheroid::ellipse_intersection(DVector const& v, DVector const& d, double& lat, double& lon) const {
    v_eq(v[0], 0, 1e-9, "line of sight from the observer");
    v_eq(v[1], -g_range * std::cos(g_olat), 1e-4, "line of sight from the observer");
    v_eq(v[2], g_range * std::sin(g_olat), 1e-4, "line of sight from the observer");
    for (int i = 0; i < 3; ++i) g_dir[i] = d[i];
    lat = g_ilat;
    lon = g_ilon;
    return g_meets;
}
static MaRC::ViewingGeometry& geometry(bool prograde) {
    auto* g = new MaRC::ViewingGeometry(std::make_shared<MaRC::OblateSpheroid>(prograde, 71492, 66854));
    double const olat = nd_f64_in("observer latitude", -89, 89), olon = nd_f64_in("observer longitude", 0, 359);
    double const slat = nd_f64_in("solar latitude", -89, 89), slon = nd_f64_in("solar longitude", 0, 359);
    g_range = nd_f64_in("range", 200000, 1e9);
    g_olat = olat * deg; g_olon = olon * deg; g_slat = slat * deg; g_slon = slon * deg;
    v_lemma(g_olon >= 0, "positive angle"); v_lemma(g_slon >= 0, "positive angle");
    g->sub_observ(olat, olon);
    g->sub_solar(slat, slon);
    g->range(g_range);
    g_lat = nd_f64_in("latitude", -1.5, 1.5); g_lon = nd_f64_in("longitude", -7, 7);
    return *g;
}
//@ fn h_visible
HARNESS(h_visible) {
    auto& g = geometry(true);
    double const limit = nd_f64_in("limit", -90, 90);
    bool const limited = nd_bool("limited"), terminator = nd_bool("terminator");
    if (limited) g.emi_ang_limit(limit);
    g.use_terminator(terminator);
    g_mu = nd_f64_in("mu", -1, 1); g_mu0 = nd_f64_in("mu0", -1, 1);
    bool const v = g.is_visible(g_lat, g_lon);
    if (v) {
        v_le(limited ? std::cos(limit * deg) : 0, g_mu, 1e-12, "no point beyond the emission angle limit is visible");
        v_assert(!terminator || g_mu0 > 0, "no point beyond the terminator is visible");
        v_cover("visible");
    } else {
        v_assert(g_mu <= (limited ? std::cos(limit * deg) + 1e-12 : 0) || (terminator && g_mu0 <= 0), "all others are");
        v_cover("invisible");
    }
}
struct Lens final : MaRC::GeometricCorrection {
    mutable double line = 0, sample = 0;
    double dl = 0, ds = 0;
    void image_to_object(double& l, double& s) const override { line = l; sample = s; l += dl; s += ds; }
    void object_to_image(double& l, double& s) const override { line = l; sample = s; l += dl; s += ds; }
};
struct Camera {
    double m[3][3];         // body to observer
    double f, os, ol, cs, cl, k;
    Lens* lens;
};
static Camera camera(MaRC::ViewingGeometry& g) {
    Camera c;
    char const* const n[3][3] = { { "m00", "m01", "m02" }, { "m10", "m11", "m12" }, { "m20", "m21", "m22" } };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) { c.m[i][j] = nd_f64_in(n[i][j], -1, 1); g.body2observ_(i, j) = c.m[i][j]; g.observ2body_(j, i) = c.m[i][j]; }
    c.f = nd_f64_in("focal length", 100, 1e6);
    c.os = nd_f64_in("axis sample", -1000, 1000); c.ol = nd_f64_in("axis line", -1000, 1000);
    c.cs = nd_f64_in("center sample", -1000, 1000); c.cl = nd_f64_in("center line", -1000, 1000);
    c.k = nd_f64_in("scale", 1, 1000);
    g.focal_length_pixels_ = c.f;
    g.optical_axis(c.os, c.ol);
    g.body_center(c.cs, c.cl);
    g.km_per_pixel(c.k);
    g.range_b_[0] = 0; g.range_b_[1] = -g_range * std::cos(g_olat); g.range_b_[2] = g_range * std::sin(g_olat);
    auto l = std::make_unique<Lens>();
    l->dl = nd_f64_in("lens line", -9, 9); l->ds = nd_f64_in("lens sample", -9, 9);
    c.lens = l.get();
    g.geometric_correction(std::move(l));
    return c;
}
//@ fn h_latlon2pix
HARNESS(h_latlon2pix) {
    bool const prograde = nd_bool("prograde");
    auto& g = geometry(prograde);
    Camera const c = camera(g);
    g_mu = nd_f64_in("mu", -1, 1);
    g_radius = nd_f64_in("radius", 60000, 80000);
    // the point of the body, seen from the observer, in the frame of the camera
    double const dl = prograde ? g_olon - g_lon : g_lon - g_olon;
    double const p[3] = { g_radius * std::cos(g_lat) * std::sin(dl), g_range * std::cos(g_olat) - g_radius * std::cos(g_lat) * std::cos(dl),
                          g_radius * std::sin(g_lat) - g_range * std::sin(g_olat) };
    double v[3];
    for (int i = 0; i < 3; ++i) v[i] = c.m[i][0] * p[0] + c.m[i][1] * p[1] + c.m[i][2] * p[2];
    v_assume(v[1] > 0); v_assume(v[1] > 1000);      // in front of the camera
    double x = 1, z = 2;
    bool const r = g.latlon2pix(g_lat, g_lon, x, z);
    v_assert(r == (g_mu > 0), "located exactly if visible");
    if (r) {
        v_eq(c.lens->sample * v[1], v[0] * c.f, 1, "perspective: sample");
        v_eq(c.lens->line * v[1], v[2] * c.f, 1, "perspective: line");
        v_eq((x - c.os - c.lens->ds) * v[1], v[0] * c.f, 1, "sample from the optical axis, after correction");
        v_eq((c.ol - z - c.lens->dl) * v[1], v[2] * c.f, 1, "line from the optical axis, downward, after correction");
        v_cover("visible");
    } else {
        v_eq(x, 1, 0, "untouched"); v_eq(z, 2, 0, "untouched");
        v_cover("invisible");
    }
}
//@ fn h_pix2latlon
HARNESS(h_pix2latlon) {
    bool const prograde = nd_bool("prograde");
    auto& g = geometry(prograde);
    Camera const c = camera(g);
    double const s = nd_f64_in("sample", -1000, 1000), l = nd_f64_in("line", -1000, 1000);
    g_ilat = nd_f64_in("body latitude", -1.5, 1.5); g_ilon = nd_f64_in("body longitude", -3.1, 3.1);
    g_meets = nd_bool("meets the body") ? 0 : 1;
    double lat = 8, lon = 9;
    bool const r = g.pix2latlon(s, l, lat, lon);
    v_assert(r == (g_meets == 0), "on the body exactly if the line of sight meets it");
    v_eq(c.lens->sample, s - c.cs, 1e-9, "sample from the centre of the body is corrected");
    v_eq(c.lens->line, c.cl - l, 1e-9, "line from the centre of the body is corrected");
    // the pixel, in the plane through the centre of the body, as seen from the observer
    double const u = (s - c.cs + c.lens->ds) * c.k, w = (c.cl - l + c.lens->dl) * c.k;
    v_eq(g_dir[0], c.m[0][0] * u + c.m[2][0] * w, 1e-3, "line of sight");
    v_eq(g_dir[1], c.m[0][1] * u + c.m[2][1] * w + g_range * std::cos(g_olat), 1e-3, "line of sight");
    v_eq(g_dir[2], c.m[0][2] * u + c.m[2][2] * w - g_range * std::sin(g_olat), 1e-3, "line of sight");
    if (r) {
        v_eq(lat, g_ilat, 0, "latitude");
        v_eq(lon, prograde ? g_olon - g_ilon : g_olon + g_ilon, 1e-9, "longitude from that of the observer, in the sense of rotation");
        v_cover("met");
    } else
        v_cover("missed");
}
