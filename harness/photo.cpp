//@ property P09
//@ file mul_uf merge convcheck
// Contracts of photo images: which pixel is read, when there is data, and how it is weighed.
#include "photo.h"

static void read(bool sky) {
    size();
    g_sky = sky;
    v_assume((g_nl + g_nr < g_samples) & (g_nt + g_nb < g_lines));
    auto const& p = photo(new MaRC::PhotoImageParameters);
    point();
    double const before = nd_f64("data before");
    double data = before;
    bool const found = p.read_data(g_lat, g_lon, data);
    bool inside = g_visible & (g_x >= 0) & (g_x < double(g_samples)) & (g_z >= 0) & (g_z < double(g_lines));
    uint64_t i = 0, k = 0;
    if (inside) {
        i = uint64_t(std::floor(g_x)), k = uint64_t(std::floor(g_z));
        inside = (i >= g_nl) & (i < g_samples - g_nr) & (k >= g_nt) & (k < g_lines - g_nb);
    }
    if (inside) {
        uint64_t const ix = k * g_samples + i;
        double const pixel = g_image[ix];
        bool want = pixel == pixel;
        if (sky) want &= mask_bit(ix);
        v_assert(found == want, "data exactly when the pixel holds a number and is not sky");
        if (found) {
            v_assert(data == pixel, "datum of the pixel at the location");
            v_cover("found");
        } else {
            v_assert(data == before || before != before, "data kept when there is none");
            v_cover("no data");
        }
    } else {
        v_assert(!found, "no data outside of the photo and in its nibbled margins");
        v_assert(data == before || before != before, "data kept when there is none");
        v_cover("outside");
    }
}
//@ fn h_read
HARNESS(h_read) { read(false); }
//@ fn h_read_sky
HARNESS(h_read_sky) { read(true); }
static uint64_t g_i, g_k;
static double far(uint64_t a, uint64_t b) { return double(a < b ? b - a : a - b); }
static void edges(double w) {
    v_assert((w <= double(g_i)) & (w <= double(g_k)) & (w <= double(g_samples - g_i)) & (w <= double(g_lines - g_k)),
             "the weight is at most the distance to any edge");
}
static void weight_plain() {
    size();
    g_sky = false;
    v_assume((g_nl + g_nr < g_samples) & (g_nt + g_nb < g_lines));
    auto const& p = photo(new MaRC::PhotoImageParameters);
    g_i = nd_u64_in("sample", 0, 65535), g_k = nd_u64_in("line", 0, 65535);
    if (!v_symbolic()) { g_i %= g_samples; g_k %= g_lines; }
    v_assume((g_i >= g_nl) & (g_i < g_samples - g_nr) & (g_k >= g_nt) & (g_k < g_lines - g_nb));
    double w = 1;
    p.data_weight(g_i, g_k, w);
    edges(w);
    v_assert((w == double(g_i)) | (w == double(g_k)) | (w == double(g_samples - g_i)) | (w == double(g_lines - g_k)),
             "without sky removal, the weight is the distance to the closest edge");
    v_cover("end");
}
//@ fn h_weight conv_uf conv_mono
HARNESS(h_weight) { weight_plain(); }
// the weight as seen by users, against a search of the whole photo
//@ fn h_weight_read mode=bounded
HARNESS(h_weight_read) {
    size();
    v_assume((g_nl + g_nr < g_samples) & (g_nt + g_nb < g_lines));
    auto const& p = photo(new MaRC::PhotoImageParameters);
    point();
    g_visible = true;
    double data = 0, w = -1;
    if (!p.read_data(g_lat, g_lon, data, w, true)) return;
    uint64_t const i = uint64_t(g_x), k = uint64_t(g_z);
    double want = double(std::min(std::min(i, g_samples - i), std::min(k, g_lines - k)));
    if (g_sky) {
        for (uint64_t s = g_nl; s < g_samples - g_nr; ++s) if (!mask_bit(k * g_samples + s)) want = std::min(want, far(s, i));
        for (uint64_t l = g_nt; l < g_lines - g_nb; ++l) if (!mask_bit(l * g_samples + i)) want = std::min(want, far(l, k));
    }
    v_assert(w == want, "weight is the distance to the closest edge or sky pixel");
    w = -1;
    v_assert(p.read_data(g_lat, g_lon, data, w, false) && w == -1, "weight left alone when not asked for");
    v_cover("end");
}
// ---- interpolation: between the smallest and the largest of the four pixels around the location
//@ fn h_bilinear mode=math
HARNESS(h_bilinear) {
    size();
    v_assume((g_nl + g_nr < g_samples) & (g_nt + g_nb < g_lines));
    uint64_t const n = g_samples * g_lines;
    double* const d = static_cast<double*>(v_alloc("image", n, 8));
    if (!v_symbolic()) for (uint64_t i = 0; i < n; ++i) d[i] = nd_f64_in("pixel", -100, 100);
    uint64_t i = nd_u64_in("sample", 0, 65534), k = nd_u64_in("line", 0, 65534);
    if (!v_symbolic()) { i %= g_samples; k %= g_lines; }
    v_assume((i < g_samples) & (k < g_lines));
    double const fx = nd_f64_in("dx", 0, 0.999), fz = nd_f64_in("dz", 0, 0.999);
    MaRC::BilinearInterpolation const b(g_samples, g_lines, g_nl, g_nr, g_nt, g_nb);
    double datum = 7;
    bool const r = b.interpolate(d, double(i) + fx, double(k) + fz, datum);
    bool const in = (i >= g_nl) & (i + 1 < g_samples - g_nr) & (k >= g_nt) & (k + 1 < g_lines - g_nb);
    v_assert(r == in, "interpolated exactly where all four pixels are in the photo and outside of its margins");
    if (r) {
        double const p = d[k * g_samples + i], q = d[k * g_samples + i + 1], s = d[(k + 1) * g_samples + i], t = d[(k + 1) * g_samples + i + 1];
        double const lo = nd_f64("lo"), hi = nd_f64("hi");       // any bounds of the four pixels
        if (v_symbolic()) {
            v_assume((lo <= p) & (lo <= q) & (lo <= s) & (lo <= t) & (hi >= p) & (hi >= q) & (hi >= s) & (hi >= t));
            double const* const e[4][2] = { { &p, &q }, { &s, &t }, { &p, &s }, { &q, &t } };
            for (int m = 0; m < 4; ++m) {           // along each of the four edges
                double const f = m < 2 ? fx : fz, u = *e[m][0], v = *e[m][1];
                v_lemma((v - lo) * f >= 0, "edge"); v_lemma((u - lo) * (1 - f) >= 0, "edge");
                v_lemma((hi - v) * f >= 0, "edge"); v_lemma((hi - u) * (1 - f) >= 0, "edge");
            }
            v_le(lo, datum, 0, "not below the smallest pixel");
            v_le(datum, hi, 0, "not above the largest pixel");
        } else {
            v_le(std::min(std::min(p, q), std::min(s, t)), datum, 1e-9, "not below the smallest pixel");
            v_le(datum, std::max(std::max(p, q), std::max(s, t)), 1e-9, "not above the largest pixel");
        }
        v_cover("in");
    } else
        v_cover("out");
}
// ---- strategies: any interpolation, any photometric correction
static double g_interpolated, g_corrected;
static bool g_iok, g_cok;
struct Interpolation final : MaRC::InterpolationStrategy {
    bool interpolate(double const* data, double x, double z, double& datum) const override {
        v_assert((data == g_image) & (x == g_x) & (z == g_z), "interpolated at the location, in the photo");
        datum = g_interpolated;
        return g_iok;
    }
};
struct Correction final : MaRC::PhotometricCorrection {
    bool correct(MaRC::ViewingGeometry const& g, double& data) override {
        v_assert((unsigned char const*) &g == g_geometry, "corrected for the viewing geometry of the photo");
        v_assert((data == g_interpolated) | (g_interpolated != g_interpolated), "the interpolated datum is corrected");
        data = g_corrected;
        return g_cok;
    }
};
//@ fn h_strategies
HARNESS(h_strategies) {
    size();
    g_sky = false;
    g_nl = g_nr = g_nt = g_nb = 0;
    auto* c = new MaRC::PhotoImageParameters;
    c->interpolation_strategy(std::make_unique<Interpolation>());
    c->photometric_correction(std::make_unique<Correction>());
    auto const& p = photo(c);
    point();
    g_interpolated = nd_f64("interpolated"), g_corrected = nd_f64("corrected");
    g_iok = nd_bool("interpolation succeeds"), g_cok = nd_bool("correction succeeds");
    double const before = nd_f64_in("data before", -1, 1);
    double data = before;
    bool const found = p.read_data(g_lat, g_lon, data);
    if (found) {
        v_assert(g_visible & (g_x >= 0) & (g_x < double(g_samples)) & (g_z >= 0) & (g_z < double(g_lines)), "data in the photo only");
        v_assert(g_iok & g_cok & (data == g_corrected), "the corrected datum is read");
        v_cover("found");
    } else {
        v_assert(data == before, "data kept when there is none");
        v_cover("none");
    }
}
//@ fn h_nibble
HARNESS(h_nibble) {
    size();
    bool const ok = g_nl + g_nr < g_samples && g_nt + g_nb < g_lines;
    MaRC::PhotoImageParameters c;
    c.nibble_left(g_nl); c.nibble_right(g_nr); c.nibble_top(g_nt); c.nibble_bottom(g_nb);
    try {
        c.validate_parameters(g_samples, g_lines);
        v_assert(ok, "margins that leave nothing of the photo are rejected");
        v_cover("accepted");
    } catch (std::invalid_argument const&) {
        v_assert(!ok, "margins that leave some of the photo are accepted");
        v_cover("rejected");
    }
}
