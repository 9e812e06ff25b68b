//@ property P09
//@ file mul_uf merge convcheck conv_uf conv_mono optional
// Contracts of the two searches for sky pixels.  They are private helpers: without them, weights are decided by photo.cpp
// (h_weight_read) alone.
#include "photo.h"

// ---- weights: j is any sample of the line, or any line of the sample
static uint64_t g_i, g_k, g_j;
static bool row_before() { return g_j >= g_i || mask_bit(g_k * g_samples + g_j); }
static bool row_after() { return g_j < g_i || mask_bit(g_k * g_samples + g_j); }
static bool column_before() { return g_j >= g_k || mask_bit(g_j * g_samples + g_i); }
static bool column_after() { return g_j < g_k || mask_bit(g_j * g_samples + g_i); }
static double far(uint64_t a, uint64_t b) { return double(a < b ? b - a : a - b); }

static void weight(bool row) {
    size();
    g_sky = true;
    v_assume((g_nl + g_nr < g_samples) & (g_nt + g_nb < g_lines));
    auto const& p = photo(new MaRC::PhotoImageParameters);
    g_i = nd_u64_in("sample", 0, 65535), g_k = nd_u64_in("line", 0, 65535), g_j = nd_u64_in("other", 0, 65535);
    if (!v_symbolic()) { g_i %= g_samples; g_k %= g_lines; g_j %= 10; }
    v_assume((g_i >= g_nl) & (g_i < g_samples - g_nr) & (g_k >= g_nt) & (g_k < g_lines - g_nb));
    v_assume(row ? (g_j >= g_nl) & (g_j < g_samples - g_nr) : (g_j >= g_nt) & (g_j < g_lines - g_nb));
    uint64_t const ix = row ? g_k * g_samples + g_j : g_j * g_samples + g_i;
    if (row) { v_inv_at(g_j, row_before, "on the body"); v_inv_at(g_j, row_after, "on the body"); }
    else { v_inv_at(g_j, column_before, "on the body"); v_inv_at(g_j, column_after, "on the body"); }
    double const before = double(nd_u64_in("before", 0, 70000));
    double w = before;
    if (row) p.scan_samples(g_i, g_k, w);
    else p.scan_lines(g_i, g_k, w);
    if (!mask_bit(ix)) v_assert(w <= far(row ? g_i : g_k, g_j), "the weight is at most the distance to any sky pixel");
    v_assert(w <= before, "the weight is not raised");
    v_cover("end");
}
//@ fn h_weight_row
HARNESS(h_weight_row) { weight(true); }
//@ fn h_weight_column
HARNESS(h_weight_column) { weight(false); }
