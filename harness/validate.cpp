//@ property P03
// Contracts: rejection and acceptance of angles, radii and viewing geometry parameters.
#include <memory>
#include <vector>
#include <string>
#include <array>
#include <optional>
#include <stdexcept>
#include <cmath>
#define private public          // stored values are read back by the contracts
#include <marc/ViewingGeometry.h>
#undef private
#include "vspec.h"
#include <marc/OblateSpheroid.cpp>
#include <marc/NullGeometricCorrection.cpp>
#include <marc/Geometry.cpp>
#include <marc/Log.cpp>
#include <marc/ViewingGeometry.cpp>
#include <marc/Validate.h>
#include <limits>

static double const deg = 0.017453292519943295;
static double const two_pi = 6.283185307179586;

template <typename F> bool rejects(F f) {
    try { f(); } catch (std::invalid_argument const&) { return true; } catch (std::domain_error const&) { return true; }
    return false;
}
// equal, or equal up to rounding (angles may be converted to radians in another order)
static bool near(double a, double b) { return a == b || (a - b <= 1e-9 && b - a <= 1e-9); }
static bool within(double v, double lim) { return v >= -lim && v <= lim; }

//@ fn h_latitude
HARNESS(h_latitude) {
    double v = nd_f64("lat"), r = 0;
    bool const bad = rejects([&] { r = MaRC::validate_latitude(v); });
    v_assert(bad == !within(v, 90), "latitude accepted exactly within [-90,90]");
    if (!bad) v_assert(near(r, v * deg), "accepted latitude in radians");
    v_cover("end");
}
//@ fn h_longitude
HARNESS(h_longitude) {
    double v = nd_f64("lon"), r = 0;
    bool const bad = rejects([&] { r = MaRC::validate_longitude(v); });
    v_assert(bad == !within(v, 360), "longitude accepted exactly within [-360,360]");
    if (!bad) v_assert(near(r, v * deg), "accepted longitude in radians");
    v_cover("end");
}
//@ fn h_position_angle
HARNESS(h_position_angle) {
    double v = nd_f64("angle"), r = 0;
    bool const bad = rejects([&] { r = MaRC::validate_position_angle(v); });
    v_assert(bad == !within(v, 360), "position angle accepted exactly within [-360,360]");
    if (!bad) v_assert(near(r, v * deg), "accepted position angle in radians");
    v_cover("end");
}
//@ fn h_radii
HARNESS(h_radii) {
    double e = nd_f64("eq"), p = nd_f64("pol");
    bool const pro = nd_bool("prograde");
    bool const ok = e > 0 && p > 0 && e >= p;
    bool const bad = rejects([&] {
        MaRC::OblateSpheroid b(pro, e, p);
        v_assert(b.eq_rad() == e && b.pol_rad() == p && b.prograde() == pro, "a body keeps its radii and rotation");
    });
    v_assert(bad == !ok, "radii accepted exactly when positive and equatorial >= polar");
    v_cover("end");
}

struct VG {
    MaRC::ViewingGeometry g;
    VG() : g(std::make_shared<MaRC::OblateSpheroid>(true, 71492.0, 66854.0)) {}
};
static double lon_of(double v) { double r = v * deg; if (r < 0) r += two_pi; return r; }

#define SETTER(NAME, CALL, FIELD, OK, STORED)                                                  \
HARNESS(NAME) {                                                                               \
    VG o;                                                                                      \
    double v = nd_f64("value");                                                                \
    bool const bad = rejects([&] { o.g.CALL(v); });                                            \
    v_assert(bad == !(OK), "accepted exactly when within the documented range");               \
    if (!bad) v_assert(near(o.g.FIELD, STORED), "an accepted value is stored");                  \
    else v_assert(o.g.FIELD != o.g.FIELD, "a rejected value is not stored");                   \
    v_cover("end");                                                                            \
}
//@ fn h_sub_observ_lat
SETTER(h_sub_observ_lat, sub_observ_lat, sub_observ_lat_, within(v, 90), v * deg)
//@ fn h_sub_observ_lon
SETTER(h_sub_observ_lon, sub_observ_lon, sub_observ_lon_, within(v, 360), lon_of(v))
//@ fn h_sub_solar_lat
SETTER(h_sub_solar_lat, sub_solar_lat, sub_solar_lat_, within(v, 90), v * deg)
//@ fn h_sub_solar_lon
SETTER(h_sub_solar_lon, sub_solar_lon, sub_solar_lon_, within(v, 360), lon_of(v))
//@ fn h_vg_position_angle
SETTER(h_vg_position_angle, position_angle, position_angle_, within(v, 360), v * deg)
//@ fn h_lat_at_center
SETTER(h_lat_at_center, lat_at_center, lat_at_center_, within(v, 90), v * deg)
//@ fn h_lon_at_center
SETTER(h_lon_at_center, lon_at_center, lon_at_center_, within(v, 360), lon_of(v))
//@ fn h_km_per_pixel
SETTER(h_km_per_pixel, km_per_pixel, km_per_pixel_, v > 0, v)
//@ fn h_focal_length
SETTER(h_focal_length, focal_length, focal_length_, v > 0, v)
//@ fn h_scale
SETTER(h_scale, scale, scale_, v > 0, v)
//@ fn h_body_center_sample
SETTER(h_body_center_sample, body_center_sample, sample_center_, v == v, v)
//@ fn h_body_center_line
SETTER(h_body_center_line, body_center_line, line_center_, v == v, v)
//@ fn h_optical_axis_sample
SETTER(h_optical_axis_sample, optical_axis_sample, OA_s_, v == v, v)
//@ fn h_optical_axis_line
SETTER(h_optical_axis_line, optical_axis_line, OA_l_, v == v, v)
//@ fn h_range
SETTER(h_range, range, range_, v > 66854.0 && v < 1.3407807929942596e154, v)

//@ fn h_two_coordinate_setters
HARNESS(h_two_coordinate_setters) {
    VG o;
    double a = nd_f64("a"), b = nd_f64("b");
    v_assume(within(a, 90) && within(b, 360));
    o.g.sub_observ(a, b);
    v_assert(near(o.g.sub_observ_lat_, a * deg) && near(o.g.sub_observ_lon_, lon_of(b)), "sub-observation point");
    o.g.sub_solar(a, b);
    v_assert(near(o.g.sub_solar_lat_, a * deg) && near(o.g.sub_solar_lon_, lon_of(b)), "sub-solar point");
    o.g.lat_lon_center(a, b);
    v_assert(near(o.g.lat_at_center_, a * deg) && near(o.g.lon_at_center_, lon_of(b)), "point at the image centre");
    o.g.body_center(a, b);
    v_assert(o.g.sample_center_ == a && o.g.line_center_ == b, "body centre");
    o.g.optical_axis(a, b);
    v_assert(o.g.OA_s_ == a && o.g.OA_l_ == b, "optical axis");
    v_cover("end");
}
//@ fn h_arcsec
HARNESS(h_arcsec) {
    VG o;
    double r = nd_f64("range"), v = nd_f64("value");
    v_assume(r > 66854.0 && r < 1e15);
    bool unset = false;
    try { o.g.arcsec_per_pixel(1); } catch (std::logic_error const&) { unset = true; }
    v_assert(unset, "arcseconds per pixel need the range");
    o.g.range(r);
    bool const bad = rejects([&] { o.g.arcsec_per_pixel(v); });
    v_assert(bad == !(v > 0), "accepted exactly when positive");
    v_cover("end");
}
//@ fn h_emission
HARNESS(h_emission) {
    VG o;
    double v = nd_f64("value");
    v_assert(o.g.mu_limit_ == 0, "the default emission angle limit is 90 degrees");
    bool const bad = rejects([&] { o.g.emi_ang_limit(v); });
    v_assert(bad == !within(v, 90), "emission angle limit accepted exactly within 90 degrees");
    if (bad) v_assert(o.g.mu_limit_ == 0, "a rejected limit changes nothing");
    else v_assert(near(o.g.mu_limit_, std::cos(v * deg)), "the limit is stored as a cosine");
    v_cover("end");
}
//@ fn h_null_correction
HARNESS(h_null_correction) {
    VG o;
    bool const bad = rejects([&] { o.g.geometric_correction(nullptr); });
    v_assert(bad, "a missing geometric correction is rejected");
    v_assert(o.g.geometric_correction_ != nullptr, "the previous correction stays");
    v_cover("end");
}
