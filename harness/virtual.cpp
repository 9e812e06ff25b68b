//@ property P11
//@ file mode=math merge pi
// Contracts of the images computed from the body: latitude, longitude and cosine planes.
#include <memory>
#include <vector>
#include <string>
#include <stdexcept>
#include <cmath>
#include <limits>
#include <algorithm>
#include <marc/BodyData.h>
#include <marc/VirtualImage.h>
#include <marc/LatitudeImage.h>
#include <marc/LongitudeImage.h>
#include <marc/MuImage.h>
#include <marc/Mu0Image.h>
#include <marc/CosPhaseImage.h>
#include "vspec.h"
#include <marc/SourceImage.cpp>
#include <marc/VirtualImage.cpp>
#include <marc/LatitudeImage.cpp>
#include <marc/LongitudeImage.cpp>
#include <marc/MuImage.cpp>
#include <marc/Mu0Image.cpp>
#include <marc/CosPhaseImage.cpp>

static double const pi = 3.141592653589793, deg = pi / 180;
static double g_lat, g_lon, g_value, g_olat, g_olon, g_slat, g_slon, g_range, g_scale, g_offset;
static unsigned g_asked;

// contract of the body (see P12): any answer to the right question
struct Body final : MaRC::BodyData {
    Body() : BodyData(true) {}
    void at(double lat, double lon) const { v_eq(lat, g_lat, 1e-12, "asked at the latitude"); v_eq(lon, g_lon, 1e-12, "asked at the longitude"); }
    void observer(double lat, double lon, double range) const {
        v_eq(lat, g_olat * deg, 1e-12, "sub-observation latitude"); v_eq(lon, g_olon * deg, 1e-12, "sub-observation longitude");
        v_eq(range, g_range, 0, "range");
    }
    void sun(double lat, double lon) const { v_eq(lat, g_slat * deg, 1e-12, "sub-solar latitude"); v_eq(lon, g_slon * deg, 1e-12, "sub-solar longitude"); }
    double centric_radius(double) const override { g_asked |= 16; return 1; }
    double centric_latitude(double) const override { g_asked |= 16; return 1; }
    double graphic_latitude(double lat) const override { g_asked |= 1; v_eq(lat, g_lat, 1e-12, "asked at the latitude"); return g_value; }
    double mu(double a, double b, double lat, double lon, double r) const override { g_asked |= 2; observer(a, b, r); at(lat, lon); return g_value; }
    double mu0(double a, double b, double lat, double lon) const override { g_asked |= 4; sun(a, b); at(lat, lon); return g_value; }
    double cos_phase(double a, double b, double c, double d, double lat, double lon, double r) const override {
        g_asked |= 8; observer(a, b, r); sun(c, d); at(lat, lon); return g_value;
    }
};
static void setup() {
    g_lat = nd_f64_in("lat", -2, 2); g_lon = nd_f64_in("lon", -20, 20);
    g_value = nd_f64_in("value", -1 - 1e-9, 1 + 1e-9);  // rounding may exceed a cosine's range
    g_olat = nd_f64_in("olat", -90, 90); g_olon = nd_f64_in("olon", -360, 360);
    g_slat = nd_f64_in("slat", -90, 90); g_slon = nd_f64_in("slon", -360, 360);
    g_range = nd_f64_in("range", 1, 1e9);
    g_scale = nd_f64_in("scale", -1e6, 1e6); g_offset = nd_f64_in("offset", -1e6, 1e6);
    g_asked = 0;
}
static double read(MaRC::SourceImage const& i, bool& r) {
    double d = 5;
    if (nd_bool("weighted")) {
        double w = 3;
        r = i.read_data(g_lat, g_lon, d, w, nd_bool("scan"));
        v_eq(w, 3, 0, "computed data have no weight of their own");
    } else
        r = i.read_data(g_lat, g_lon, d);
    return d;
}
static double cosine() { return g_value > 1 ? 1 : g_value < -1 ? -1 : g_value; }
//@ fn h_latitude
HARNESS(h_latitude) {
    setup();
    bool const graphic = nd_bool("graphic");
    MaRC::LatitudeImage const i(std::make_shared<Body>(), graphic, g_scale, g_offset);
    bool r;
    double const d = read(i, r);
    v_assert(!r || (g_lat >= -pi / 2 && g_lat <= pi / 2), "no data beyond the poles");
    v_assert(r || g_lat < -pi / 2 || g_lat > pi / 2, "data at all latitudes");
    if (r) {
        v_assert(g_asked == (graphic ? 1 : 0), "planetographic exactly if asked for");
        v_eq(d, (graphic ? g_value : g_lat) / deg * g_scale + g_offset, 1e-6, "latitude in degrees, scaled");
        v_cover("data");
    } else
        v_cover("none");
}
//@ fn h_longitude
HARNESS(h_longitude) {
    setup();
    v_assume((g_scale == 1) & (g_offset == 0));
    MaRC::LongitudeImage const i(1, 0);
    bool r;
    double const d = read(i, r);
    v_assert(r, "data at all longitudes");
    v_le(0, d, 0, "at least 0 degrees");
    v_le(d, 360, 0, "at most 360 degrees");
    if (v_symbolic()) {
        double const turns = (g_lon / deg - d) / 360;
        v_assert(turns == std::trunc(turns), "the longitude, in degrees, less whole turns");
    } else
        v_eq(std::sin((d * deg - g_lon) / 2), 0, 1e-9, "the longitude, in degrees, less whole turns");
    v_cover("data");
}
//@ fn h_longitude_scaled
HARNESS(h_longitude_scaled) {
    setup();
    MaRC::LongitudeImage const i(1, 0), k(g_scale, g_offset);
    bool r, s;
    double const d = read(i, r), e = read(k, s);
    v_assert(r && s, "data at all longitudes");
    v_eq(e, d * g_scale + g_offset, 1e-6, "scaled");
    v_cover("data");
}
//@ fn h_mu
HARNESS(h_mu) {
    setup();
    MaRC::MuImage const i(std::make_shared<Body>(), g_olat, g_olon, g_range, g_scale, g_offset);
    bool r;
    double const d = read(i, r);
    v_assert(r & (g_asked == 2), "data everywhere");
    if ((g_scale == 1) & (g_offset == 0)) {
        v_le(d, 1, 0, "a cosine");
        v_le(-1, d, 0, "a cosine");
    }
    v_eq(d, cosine() * g_scale + g_offset, 1e-6, "cosine of the emission angle, scaled");
    v_cover("data");
}
//@ fn h_mu0
HARNESS(h_mu0) {
    setup();
    MaRC::Mu0Image const i(std::make_shared<Body>(), g_slat, g_slon, g_scale, g_offset);
    bool r;
    double const d = read(i, r);
    v_assert(r & (g_asked == 4), "data everywhere");
    if ((g_scale == 1) & (g_offset == 0)) {
        v_le(d, 1, 0, "a cosine");
        v_le(-1, d, 0, "a cosine");
    }
    v_eq(d, cosine() * g_scale + g_offset, 1e-6, "cosine of the incidence angle, scaled");
    v_cover("data");
}
//@ fn h_cos_phase
HARNESS(h_cos_phase) {
    setup();
    MaRC::CosPhaseImage const i(std::make_shared<Body>(), g_olat, g_olon, g_slat, g_slon, g_range, g_scale, g_offset);
    bool r;
    double const d = read(i, r);
    v_assert(r & (g_asked == 8), "data everywhere");
    if ((g_scale == 1) & (g_offset == 0)) {
        v_le(d, 1, 0, "a cosine");
        v_le(-1, d, 0, "a cosine");
    }
    v_eq(d, cosine() * g_scale + g_offset, 1e-6, "cosine of the phase angle, scaled");
    v_cover("data");
}
