//@ property P04
//@ file mode=math merge products=0 noflt
// Contract of the Simple Cylindrical projection: which point of the body every map element shows.
#include "plot.h"
#define private public
#include <marc/SimpleCylindrical.h>
#undef private
#include <marc/MapFactory.cpp>
#include <marc/Log.cpp>
#include <marc/SimpleCylindrical.cpp>

static double const deg = 0.017453292519943295;
static double const two_pi = 6.283185307179586;

// the body's latitude conversions: any functions here (contracted in spheroid.cpp)
static double g_ratio;
static double to_centric(double x, double) { return std::atan(std::tan(x) / g_ratio); }
static double to_graphic(double x, double) { return std::atan(std::tan(x) * g_ratio); }
struct Body : MaRC::BodyData {
    explicit Body(bool p) : MaRC::BodyData(p) {}
    double centric_radius(double) const override { return 1; }
    double centric_latitude(double x) const override { return v_uf("centric", to_centric, x, 0); }
    double graphic_latitude(double x) const override { return v_uf("graphic", to_graphic, x, 0); }
    double mu(double, double, double, double, double) const override { return 0; }
    double mu0(double, double, double, double) const override { return 0; }
    double cos_phase(double, double, double, double, double, double, double) const override { return 0; }
};
static double g_lo_lat, g_hi_lat, g_lo_lon, g_hi_lon;   // radians
static bool g_prograde, g_graphic;
static MaRC::BodyData const* g_body;

static void plotted(double lat, double lon, std::size_t offset) {
    plot_begin(offset);
    // pixel centre of sample g_i, line g_k
    double elat = g_lo_lat + (double(g_k) + 0.5) * ((g_hi_lat - g_lo_lat) / double(g_lines));
    if (g_graphic) elat = g_body->centric_latitude(elat);
    v_eq(lat, elat, 1e-9, "latitude of the pixel centre");
    double const d = (double(g_i) + 0.5) * ((g_hi_lon - g_lo_lon) / double(g_samples));
    v_eq(lon, g_prograde ? g_hi_lon - d : g_lo_lon + d, 1e-9, "longitude of the pixel centre");
    plot_end();
}

template <bool prograde, bool graphic, int order> void run() {
    map_size();
    g_ratio = nd_f64_in("ratio", 1, 4);
    double const lo_lat = nd_f64_in("lo_lat", -90, 90), hi_lat = nd_f64_in("hi_lat", -90, 90);
    double const lo_lon = nd_f64_in("lo_lon", -360, 360);
    double const hi_lon = order == 0 ? lo_lon : nd_f64_in("hi_lon", -360, 360);
    v_assume(order != 1 || lo_lon < hi_lon - 1e-3);
    v_assume(order != 2 || lo_lon > hi_lon + 1e-3);
    auto body = std::make_shared<Body>(prograde);
    g_body = body.get();
    g_prograde = prograde;
    g_graphic = graphic;
    g_lo_lat = lo_lat * deg;
    g_hi_lat = hi_lat * deg;
    if (graphic) {      // boundaries are planetocentric; lines are equally spaced in planetographic latitude
        g_lo_lat = body->graphic_latitude(g_lo_lat);
        g_hi_lat = body->graphic_latitude(g_hi_lat);
    }
    g_lo_lon = lo_lon * deg - (order == 2 ? two_pi : 0);
    g_hi_lon = hi_lon * deg + (order == 0 ? two_pi : 0);
    MaRC::SimpleCylindrical p(body, lo_lat, hi_lat, lo_lon, hi_lon, graphic);
    MaRC::MapFactory::plot_type const plot = plotted;
    map_start();
    MaRC::MapFactory const& f = p;
    f.plot_map(g_samples, g_lines, plot);
    map_done();
}
//@ fn h_pro
HARNESS(h_pro) { run<true, false, 1>(); }
//@ fn h_retro
HARNESS(h_retro) { run<false, false, 1>(); }
//@ fn h_pro_graphic
HARNESS(h_pro_graphic) { run<true, true, 1>(); }
//@ fn h_retro_graphic
HARNESS(h_retro_graphic) { run<false, true, 1>(); }
//@ fn h_same_longitudes
HARNESS(h_same_longitudes) { run<true, false, 0>(); }
//@ fn h_inverted_longitudes
HARNESS(h_inverted_longitudes) { run<false, false, 2>(); }
