//@ property P06
//@ file mode=math merge products=0 pi noflt
//@ assume the root finder returns a point inside the bracket where the function has the given value (contract of root_find, see P14)
// Contract of the Polar Stereographic projection: which point of the body every map element shows.
#include "plot.h"
#define private public
#include <marc/PolarStereographic.h>
#undef private
#include <marc/MapFactory.cpp>
#include <marc/OblateSpheroid.cpp>
#include <marc/PolarStereographic.cpp>

static double const pi = 3.141592653589793;
static double g_eq, g_pol, g_max;    // g_max: radians
static bool g_prograde, g_north;

// polar stereographic radius of a planetographic latitude (Snyder, true scale at the pole)
static double rho_of(double latg) {
    double const e = std::sqrt(1 - (g_pol / g_eq) * (g_pol / g_eq));
    double const t = e * std::sin(latg);
    return 2 * g_eq * std::pow(1 + e, -(1 - e) / 2) * std::pow(1 - e, -(1 + e) / 2)
        * std::tan(pi / 4 - latg / 2) * std::pow((1 + t) / (1 - t), e / 2);
}
static double g_rho_max;
static uint64_t g_min;   // the smaller dimension
static void plotted(double lat, double lon, std::size_t offset) {
    plot_begin(offset);
    double const X = double(g_k) + 0.5 - double(g_lines) / 2;
    double const Y = double(g_i) + 0.5 - double(g_samples) / 2;
    double const scale = 2 * g_rho_max / double(g_min);
    double const r2 = (g_pol / g_eq) * (g_pol / g_eq);
#ifdef VERIF_SYMBOLIC
    double const latg = g_root;
    v_eq(lat, std::atan(r2 * std::tan(g_north ? latg : -latg)), 1e-9, "planetocentric latitude of the element");
    double const rho = g_y;
#else
    double const latg = std::atan(std::tan(g_north ? lat : -lat) / r2);
    double const rho = rho_of(latg);
#endif
    v_eq(rho, scale * std::hypot(Y, X), 1e-6 * g_eq, "the distance from the pole is that of the pixel centre");
    bool const ccw = g_north == g_prograde;
    v_eq(lon, std::atan2(ccw ? Y : -Y, X), 1e-9, "longitude of the pixel centre");
    plot_end();
}
template <bool prograde, bool north, bool tall> void run() {
    map_size();
    v_assume(tall ? g_samples <= g_lines : g_lines < g_samples);
    g_min = tall ? g_samples : g_lines;
    g_prograde = prograde;
    g_north = north;
    g_eq = nd_f64_in("eq", 1000, 100000), g_pol = nd_f64_in("pol", 1000, 100000);
    v_assume(g_eq >= g_pol && g_pol > g_eq * 0.5);
    double const max_lat = nd_f64_in("max_lat", -80, 80);
    auto body = std::make_shared<MaRC::OblateSpheroid>(prograde, g_eq, g_pol);
    g_max = max_lat * (pi / 180);
    double const gl = std::atan((g_eq / g_pol) * (g_eq / g_pol) * std::tan(g_max));
    g_rho_max = rho_of(north ? gl : -gl);
    MaRC::PolarStereographic p(body, max_lat, north);
    MaRC::MapFactory::plot_type const plot = plotted;
    g_equation = rho_of;
    map_start();
    MaRC::MapFactory const& f = p;
    f.plot_map(g_samples, g_lines, plot);
    map_done();
}
//@ fn h_prograde_north_tall
HARNESS(h_prograde_north_tall) { run<true, true, true>(); }
//@ fn h_prograde_north_wide
HARNESS(h_prograde_north_wide) { run<true, true, false>(); }
//@ fn h_prograde_south_tall
HARNESS(h_prograde_south_tall) { run<true, false, true>(); }
//@ fn h_prograde_south_wide
HARNESS(h_prograde_south_wide) { run<true, false, false>(); }
//@ fn h_retrograde_north_tall
HARNESS(h_retrograde_north_tall) { run<false, true, true>(); }
//@ fn h_retrograde_north_wide
HARNESS(h_retrograde_north_wide) { run<false, true, false>(); }
//@ fn h_retrograde_south_tall
HARNESS(h_retrograde_south_tall) { run<false, false, true>(); }
//@ fn h_retrograde_south_wide
HARNESS(h_retrograde_south_wide) { run<false, false, false>(); }

//@ fn h_max_latitude
HARNESS(h_max_latitude) {
    auto body = std::make_shared<MaRC::OblateSpheroid>(true, 71000, 67000);
    double const max_lat = nd_f64_in("max_lat", -400, 400);
    bool rejected = false;
    try {
        MaRC::PolarStereographic p(body, max_lat, true);
    } catch (std::invalid_argument const&) {
        rejected = true;
    }
    v_assert(rejected == (max_lat >= 90 || max_lat <= -90), "a pole is not a usable maximum latitude");
    v_cover("end");
}
