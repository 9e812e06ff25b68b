//@ property P05
//@ file mode=math merge products=0 pi noflt
//@ assume the root finder returns a point of the bracket where the function has the given value (contract of root_find, see P14)
// Contract of the Mercator projection: which point of the body every map element shows.
#include "plot.h"
#define private public
#include <marc/Mercator.h>
#undef private
#include <marc/MapFactory.cpp>
#include <marc/OblateSpheroid.cpp>
#include <marc/Log.cpp>
#include <marc/Mercator.cpp>

static double const pi = 3.141592653589793;
static double g_eq, g_pol;
static bool g_prograde;

static double x_of(double latg) {
    double const e = std::sqrt(1 - (g_pol / g_eq) * (g_pol / g_eq));
    double const t = e * std::sin(latg);
    return std::log(std::tan(pi / 4 + latg / 2) * std::pow((1 - t) / (1 + t), e / 2));
}
static void plotted(double lat, double lon, std::size_t offset) {
    plot_begin(offset);
    double const xmax = double(g_lines) / double(g_samples) * pi;
    double const x = (double(g_k) + 0.5) / double(g_lines) * 2 * xmax - xmax;
#ifdef VERIF_SYMBOLIC
    double const latg = g_root;
    v_eq(lat, std::atan((g_pol / g_eq) * (g_pol / g_eq) * std::tan(latg)), 1e-9, "planetocentric latitude of the line");
    double const mx = g_y;
#else
    double const latg = std::atan(std::tan(lat) / ((g_pol / g_eq) * (g_pol / g_eq)));
    double const mx = x_of(latg);
#endif
    v_eq(mx, x, 1e-6, "the Mercator ordinate of the latitude is that of the line");
    double const d = (double(g_i) + 0.5) / double(g_samples) * (2 * pi);
    v_eq(lon, g_prograde ? 2 * pi - d : d, 1e-9, "longitude of the pixel centre");
    plot_end();
}
template <bool prograde> void run() {
    map_size();
    if (!v_symbolic() && g_lines > g_samples) g_lines = g_samples;
    g_prograde = prograde;
    g_eq = nd_f64_in("eq", 1000, 100000), g_pol = nd_f64_in("pol", 1000, 100000);
    v_assume(g_eq >= g_pol && g_pol > g_eq * 0.5);
    auto body = std::make_shared<MaRC::OblateSpheroid>(prograde, g_eq, g_pol);
    MaRC::Mercator p(body);
    MaRC::MapFactory::plot_type const plot = plotted;
    g_equation = x_of;
    map_start();
    MaRC::MapFactory const& f = p;
    f.plot_map(g_samples, g_lines, plot);
    map_done();
}
//@ fn h_prograde
HARNESS(h_prograde) { run<true>(); }
//@ fn h_retrograde
HARNESS(h_retrograde) { run<false>(); }
