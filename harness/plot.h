// Shared part of the projection contracts: elements are plotted exactly once, and where.
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <optional>
#include <stdexcept>
#include <cmath>
#include <limits>
#include <algorithm>
#include <type_traits>
#define private public
#include <marc/MapFactory.h>
#include <marc/OblateSpheroid.h>
#include <marc/root_find.h>
#undef private
#include "vspec.h"

static uint64_t g_samples, g_lines, g_i, g_k, g_off, g_count;
static bool g_seen[100];

static bool inv_pos() { return g_i < g_samples; }
static bool inv_off() { return g_off == g_k * g_samples + g_i; }

static void plot_begin(std::size_t offset) {
    if (!v_symbolic()) {    // natively, any order will do
        v_assert(offset < g_samples * g_lines && !g_seen[offset], "each element is plotted once");
        g_seen[offset] = true;
        ++g_count;
        g_i = offset % g_samples;
        g_k = offset / g_samples;
        g_off = offset;
    }
    v_assert(offset == g_off, "elements are plotted one after the other, each once");
    v_assert(g_k < g_lines, "no more elements than samples x lines");
}
static void plot_end() {
    ++g_off;
    if (++g_i == g_samples) { g_i = 0; ++g_k; }
}
static void map_size() {
    g_samples = nd_u64_in("samples", 1, 65535);
    g_lines = nd_u64_in("lines", 1, 65535);
    if (!v_symbolic()) { g_samples = 1 + g_samples % 9; g_lines = 1 + g_lines % 9; }
}
static void map_start() {
    g_i = g_k = g_off = g_count = 0;
    for (bool& b : g_seen) b = false;
    v_inv(inv_pos, "sample within the line");
    v_inv(inv_off, "offset of the element");
}
static void map_done() {
    v_assert(v_symbolic() ? g_i == 0 && g_k == g_lines : g_count == g_samples * g_lines, "every element is plotted");
    v_cover("end");
}

#ifdef VERIF_SYMBOLIC
// Contract of the root finder (checked on its own under "root finding"): the value x returned is a point inside
// the search bracket (the projections are infinite at its ends) with f(x) = y.  Callers are checked for what f is
// (against the projection equation g_equation, at any point) and what y is (g_y, by the plotting contract).
static double g_root, g_y;
static double (*g_equation)(double);
double MaRC::root_find(double y, double xl, double xh, std::function<double(double)> const& f) {
    double const x = nd_f64("root");
    v_assume((x > xl) & (x < xh));
    v_eq(f(x), g_equation(x), 0, "projection equation");
    g_root = x;
    g_y = y;
    return x;
}
#else
[[maybe_unused]] static double (*g_equation)(double);
#include <marc/root_find.cpp>
#endif
