//@ property P07
//@ file mode=math merge products=0 pi noflt trig_eq
//@ assume the solver of quadratic equations yields both roots exactly if they are real (contract of quadratic_roots, see P14)
// Contract of the Orthographic projection: which point of the body every map element shows.
#include "plot.h"
#define private public
#include <marc/Orthographic.h>
#undef private
#include <marc/Mathematics.h>
#include <marc/Log.h>
#include <marc/Validate.h>
#include <marc/Geometry.cpp>
#include <marc/MapFactory.cpp>
#include <marc/OblateSpheroid.cpp>
// messages are not part of the contract
void MaRC::details::debug(char const*, fmt::format_args) {}
void MaRC::details::info(char const*, fmt::format_args) {}
void MaRC::details::warn(char const*, fmt::format_args) {}
void MaRC::details::error(char const*, fmt::format_args) {}

static double const pi = 3.141592653589793, deg = pi / 180;
static double g_eq, g_pol, g_phi, g_olon, g_pa;      // radians; position angle of north
static double g_km, g_sc, g_lc;                      // scale; where the centre of the body is in the map
static double g_u, g_w;                              // the element's line of sight: in the frame with north up
static bool g_prograde;

// line of sight of an element, in the frame of the observer with the body's north up
static void sight(uint64_t i, uint64_t k) {
    double const x = (double(i) + 0.5 - g_sc) * g_km, z = (double(k) + 0.5 - g_lc) * g_km;
    double const c = std::cos(g_pa), s = std::sin(g_pa);
    g_u = x * c + z * s;
    g_w = z * c - x * s;
}
// the point at depth y on it, in the frame of the body
struct Point { double x, y, z; };
static Point at(double y) {
    double const c = std::cos(g_phi), s = std::sin(g_phi);
    return { g_u, y * c + g_w * s, g_w * c - y * s };
}
#ifdef VERIF_SYMBOLIC
static bool g_met, g_plotted;
static int g_order;         // of the roots: nearer second, nearer first, equal
static double g_near;
static bool inv_met() { return g_met == g_plotted; }
// contract of the solver, and what its callers must ask: where the element's line of sight meets the body
namespace MaRC {
static bool quadratic_hook(double a, double b, double c, std::pair<double, double>& roots) {
    v_assert(g_met == g_plotted, "the element before was plotted exactly if its line of sight meets the body");
    v_assert(g_k < g_lines, "no more elements than samples x lines");
    sight(v_same(g_i), v_same(g_k));
    plot_end();
    double const y = nd_f64("depth"), near = nd_f64("near"), far = nd_f64("far");
    Point const p = at(y);
    v_eq(a * y * y + b * y + c, g_pol * g_pol * (p.x * p.x + p.y * p.y) + g_eq * g_eq * p.z * p.z - g_eq * g_eq * g_pol * g_pol, 0,
         "equation of the spheroid along the line of sight");
    g_plotted = false;
    g_met = nd_bool("meets");
    v_assume(near < far);
    g_near = near;
    roots.first = g_order == 0 ? far : near;
    roots.second = g_order == 1 ? far : near;
    return g_met;
}
}
#define quadratic_roots quadratic_hook
#endif
#include <marc/Orthographic.cpp>
#undef quadratic_roots

static void plotted(double lat, double lon, std::size_t offset) {
    double const d = g_prograde ? g_olon - lon : lon - g_olon;
#ifdef VERIF_SYMBOLIC
    v_assert(g_met && !g_plotted, "plotted once, if the line of sight meets the body");
    v_assert(offset + 1 == g_off, "plotted at the element's place in the map");
    g_plotted = true;
    Point const p = at(g_near);
    double const h = std::hypot(p.x, p.y), r = std::hypot(p.z, h);
    v_eq(r * std::sin(lat), p.z, 0, "latitude of the point nearer to the observer");
    v_eq(r * std::cos(lat), h, 0, "latitude of the point nearer to the observer");
    v_eq(h * std::sin(d), p.x, 0, "longitude of the point, in the sense of rotation");
    v_eq(h * std::cos(d), -p.y, 0, "longitude of the point");
#else
    plot_begin(offset);
    sight(g_i, g_k);
    double const r = 1 / std::sqrt(std::pow(std::cos(lat) / g_eq, 2) + std::pow(std::sin(lat) / g_pol, 2));
    double const x = r * std::cos(lat) * std::sin(d), y = -r * std::cos(lat) * std::cos(d), z = r * std::sin(lat);
    v_eq(x, g_u, 1e-7 * g_eq, "the point shown is seen at the element");
    v_eq(y * std::sin(g_phi) + z * std::cos(g_phi), g_w, 1e-7 * g_eq, "the point shown is seen at the element");
    v_le(0, z / (g_pol * g_pol) * std::sin(g_phi) - y / (g_eq * g_eq) * std::cos(g_phi), 1e-6 / g_pol, "on the side of the observer");
#endif
}
enum { north = 1, south = -1 };
enum { middle, pixel, latlon };
template <bool prograde, int pole, int center, bool scaled, int order> void run() {
    map_size();
    if (!scaled) v_assume(g_samples <= g_lines);
    g_prograde = prograde;
    g_eq = nd_f64_in("eq", 1000, 100000), g_pol = nd_f64_in("pol", 1000, 100000);
    v_assume(g_eq >= g_pol && g_pol > g_eq * 0.5);
    double const lat = pole ? pole * 90 : nd_f64_in("observer latitude", -89, 89), lon = nd_f64_in("observer longitude", 0, 359),
                 pa = nd_f64_in("position angle", -180, 180);
    g_phi = pole ? pole * pi / 2 : lat * deg;
    g_olon = pole ? 0 : lon * deg;
    g_pa = pole ? (pole == north ? pi : 0) : pa * deg;      // at a pole, the prime meridian is up
    v_lemma(g_olon >= 0, "positive angle");
    double const km = nd_f64_in("km", 100, 10000);
    if (!v_symbolic() && scaled) v_assume(g_eq / km < 20);
    g_km = scaled ? km : 2 * g_eq / (0.9 * double(g_samples));
    g_sc = double(g_samples) / 2; g_lc = double(g_lines) / 2;
    MaRC::OrthographicCenter c;
    if (center == pixel) {
        c.geometry = MaRC::CENTER_GIVEN;
        c.sample_lat_center = g_sc = nd_f64_in("sample center", -20, 20);
        c.line_lon_center = g_lc = nd_f64_in("line center", -20, 20);
    } else if (center == latlon) {
        double const la = nd_f64_in("center latitude", -89, 89), lo = nd_f64_in("center longitude", 0, 359);
        c.geometry = MaRC::LAT_LON_GIVEN;
        c.sample_lat_center = la;
        c.line_lon_center = lo;
        double const l = la * deg, d = prograde ? g_olon - lo * deg : lo * deg - g_olon;
        double const r = g_eq * g_pol / std::hypot(g_pol * std::cos(l), g_eq * std::sin(l));
        double const u = r * std::cos(l) * std::sin(d), y = -r * std::cos(l) * std::cos(d), z = r * std::sin(l);
        double const w = y * std::sin(g_phi) + z * std::cos(g_phi);
        g_sc -= (u * std::cos(g_pa) - w * std::sin(g_pa)) / g_km;
        g_lc -= (u * std::sin(g_pa) + w * std::cos(g_pa)) / g_km;
        double const front = z / (g_pol * g_pol) * std::sin(g_phi) - y / (g_eq * g_eq) * std::cos(g_phi);
        if (!v_symbolic()) {
            bool rejected = false;
            try {
                MaRC::Orthographic q(std::make_shared<MaRC::OblateSpheroid>(prograde, g_eq, g_pol), lat, lon, pa, scaled ? km : -1, c);
            } catch (std::invalid_argument const&) { rejected = true; }
            v_assert(rejected ? front < 1e-9 / g_pol : front > -1e-9 / g_pol, "a point of the far side cannot be at the center");
            if (rejected) return;
        }
    }
    map_start();
#ifdef VERIF_SYMBOLIC
    g_met = g_plotted = false;
    g_order = order;
    v_inv(inv_met, "plotted exactly if met");
    try {
#else
    {
#endif
        MaRC::Orthographic p(std::make_shared<MaRC::OblateSpheroid>(prograde, g_eq, g_pol), lat, lon, pa, scaled ? km : -1, c);
        MaRC::MapFactory::plot_type const plot = plotted;
        MaRC::MapFactory const& f = p;
        f.plot_map(g_samples, g_lines, plot);
    }
#ifdef VERIF_SYMBOLIC
    catch (std::invalid_argument const&) {
        v_assert(center == latlon, "rejected for its center alone");
        return;
    }
    v_assert(g_met == g_plotted, "the last element was plotted exactly if its line of sight meets the body");
    v_assert(g_i == 0 && g_k == g_lines, "every element is looked at");
#else
    for (uint64_t k = 0; k < g_lines; ++k)
        for (uint64_t i = 0; i < g_samples; ++i) {
            sight(i, k);
            double const m = std::pow(g_u / g_eq, 2) + g_w * g_w / (std::pow(g_pol * std::cos(g_phi), 2) + std::pow(g_eq * std::sin(g_phi), 2));
            v_assert(g_seen[k * g_samples + i] ? m < 1 + 1e-9 : m > 1 - 1e-9, "plotted exactly if the line of sight meets the body");
        }
#endif
    v_cover("end");
}
//@ fn h_prograde
HARNESS(h_prograde) { run<true, 0, middle, false, 0>(); }
//@ fn h_retrograde
HARNESS(h_retrograde) { run<false, 0, middle, true, 1>(); }
//@ fn h_prograde_north
HARNESS(h_prograde_north) { run<true, north, middle, true, 0>(); }
//@ fn h_prograde_south
HARNESS(h_prograde_south) { run<true, south, pixel, true, 1>(); }
//@ fn h_retrograde_north
HARNESS(h_retrograde_north) { run<false, north, pixel, false, 0>(); }
//@ fn h_retrograde_south
HARNESS(h_retrograde_south) { run<false, south, middle, true, 1>(); }
//@ fn h_prograde_pixel
HARNESS(h_prograde_pixel) { run<true, 0, pixel, true, 2>(); }
//@ fn h_prograde_latlon mode=bounded
HARNESS(h_prograde_latlon) { run<true, 0, latlon, true, 0>(); }
//@ fn h_retrograde_latlon mode=bounded
HARNESS(h_retrograde_latlon) { run<false, 0, latlon, false, 1>(); }
//@ fn h_prograde_north_latlon mode=bounded
HARNESS(h_prograde_north_latlon) { run<true, north, latlon, true, 1>(); }
//@ fn h_retrograde_south_latlon mode=bounded
HARNESS(h_retrograde_south_latlon) { run<false, south, latlon, true, 0>(); }
//@ fn h_prograde_first
HARNESS(h_prograde_first) { run<true, 0, middle, false, 1>(); }
//@ fn h_retrograde_second
HARNESS(h_retrograde_second) { run<false, 0, middle, true, 0>(); }
