//@ property P10
// Contracts of the compositing strategies and of MosaicImage, for any number of images.
#include "vspec.h"
#include <cstring>
#include <marc/first_read.cpp>
#include <marc/unweighted_average.cpp>
#include <marc/weighted_average.cpp>
#include <marc/MosaicImage.cpp>
#include <marc/SourceImage.cpp>

static double g_lat, g_lon;      // requested point
static int32_t g_count;          // images with data so far
static double g_first, g_last;   // first and last datum
static double g_sum, g_wsum, g_wdsum;
static double g_min, g_max;
static uint64_t g_reads;         // images read

static bool g_bounded;
static double g_lo, g_hi, g_alo, g_ahi;    // bounds of the data; weighted distances to them

static bool take(double lat, double lon, double& data, double* weight) {
    v_assert(lat == g_lat && lon == g_lon, "every image is read at the requested point");
    ++g_reads;
    double d = nd_f64_in("datum", -1e6, 1e6), w = 1;
    if (weight) w = double(nd_u64_in("weight", 0, 10000));  // weights are distances in pixels
    if (!nd_bool("found")) return false;    // contract of a source image: data is left alone when there is none
    data = d;
    if (weight) *weight = w;
    if (g_count == 0) { g_first = d; g_min = d; g_max = d; }
    if (d < g_min) g_min = d;
    if (d > g_max) g_max = d;
    g_last = d;
    ++g_count;
    g_sum += d;
    g_wsum += w;
    g_wdsum += w * d;
    if (g_bounded) { v_assume(d >= g_lo && d <= g_hi); g_alo += w * (d - g_lo); g_ahi += w * (g_hi - d); }
    return true;
}
struct Source final : MaRC::SourceImage {
    bool read_data(double lat, double lon, double& data) const override { return take(lat, lon, data, nullptr); }
    bool read_data(double lat, double lon, double& data, double& weight, bool scan) const override {
        return take(lat, lon, data, scan ? &weight : nullptr);
    }
};
using list_type = MaRC::compositing_strategy::list_type;
struct Images {     // a list of n source images, n arbitrary
    alignas(list_type) unsigned char raw[sizeof(list_type)];
    uint64_t n;
    Source proto;
    Images() {
        n = nd_u64_in("images", 0, 1000000);
        if (!v_symbolic()) n %= 6;
        void* objs = v_replicate("images", &proto, sizeof(Source), n);
        void* ptrs = v_ptrs("list", sizeof(void*), 0, objs, sizeof(Source), n);
        void* b[3] = { ptrs, static_cast<char*>(ptrs) + n * sizeof(void*), static_cast<char*>(ptrs) + n * sizeof(void*) };
        std::memcpy(raw, b, sizeof b);
    }
    list_type& list() { return *reinterpret_cast<list_type*>(raw); }
};
static void start() {
    g_lat = nd_f64_in("lat", -2, 2);
    g_lon = nd_f64_in("lon", -7, 7);
    g_count = 0; g_reads = 0;
    g_sum = g_wsum = g_wdsum = g_alo = g_ahi = 0;
    g_bounded = false;
    g_first = g_last = g_min = g_max = 0;
}
static void common(uint64_t n, int count, double before, double data) {
    v_assert(count == g_count, "the result counts the images that had data");
    if (g_count == 0) v_assert(data == before, "without data, the result is left alone");
}

//@ fn h_first mode=bits
HARNESS(h_first) {
    Images im;
    start();
    double const before = nd_f64_in("before", -1e3, 1e3);
    double data = before;
    MaRC::first_read s;
    int const c = s.composite(im.list(), g_lat, g_lon, data);
    v_assert((c > 0) == (g_count > 0), "data is found exactly when some image has data");
    if (c > 0) v_assert(data == g_first && g_count == 1, "the first image with data decides");
    else v_assert(data == before && uint64_t(g_reads) == im.n, "no data: all images were tried");
    v_cover("end");
}
//@ fn h_unweighted mode=math
HARNESS(h_unweighted) {
    Images im;
    start();
    double const before = nd_f64_in("before", -1e3, 1e3);
    double data = before;
    MaRC::unweighted_average s;
    int const c = s.composite(im.list(), g_lat, g_lon, data);
    v_assert(uint64_t(g_reads) == im.n, "all images are read");
    common(im.n, c, before, data);
    if (c == 1) v_assert(data == g_first, "a single datum is passed through unchanged");
    if (c > 0) v_eq(data * g_count, g_sum, 1e-6, "the result is the mean of the data");
    v_cover("end");
}
static bool inv_mean() {
    return ((g_count == 0) | ((g_last >= g_lo) & (g_last <= g_hi))) & (g_count >= 0) & (g_alo >= 0) & (g_ahi >= 0) & (g_wsum >= 0) & (g_wdsum - g_lo * g_wsum == g_alo) & (g_hi * g_wsum - g_wdsum == g_ahi);
}
//@ fn h_weighted mode=math
HARNESS(h_weighted) {
    Images im;
    start();
    double const before = nd_f64_in("before", -1e3, 1e3);
    double data = before;
    MaRC::weighted_average s;
    int const c = s.composite(im.list(), g_lat, g_lon, data);
    v_assert(uint64_t(g_reads) == im.n, "all images are read");
    common(im.n, c, before, data);
    if (c == 1) v_assert(data == g_first, "a single datum is passed through unchanged");
    if (c > 1 && g_wsum > 0) v_eq(data * g_wsum, g_wdsum, 1e-3, "the result is the weighted mean of the data");
    if (!v_symbolic() && c > 0) {
        v_le(g_min, data, 1e-6, "the result is not below the data");
        v_le(data, g_max, 1e-6, "the result is not above the data");
    }
    v_cover("end");
}
//@ fn h_weighted_bounds mode=math
HARNESS(h_weighted_bounds) {
    Images im;
    start();
    g_bounded = true;
    g_lo = nd_f64_in("lo", -1e6, 1e6);
    g_hi = nd_f64_in("hi", -1e6, 1e6);
    double data = nd_f64_in("before", -1e3, 1e3);
    MaRC::weighted_average s;
    v_inv(inv_mean, "weighted sum between the bounds");
    int const c = s.composite(im.list(), g_lat, g_lon, data);
    if (c > 0) {
        v_le(g_lo, data, 1e-6, "the result is not below the data");
        v_le(data, g_hi, 1e-6, "the result is not above the data");
    }
    v_cover("end");
}
struct Strategy final : MaRC::compositing_strategy {
    int composite(list_type const& images, double lat, double lon, double& data) const override {
        v_assert(&images != nullptr && lat == g_lat && lon == g_lon, "the mosaic composites at the requested point");
        int const c = nd_i32("count");
        g_count = c;
        if (c > 0) { g_first = nd_f64("datum"); data = g_first; }
        return c;
    }
};
//@ fn h_mosaic mode=bits
HARNESS(h_mosaic) {
    start();
    double const before = nd_f64("before");
    v_assume(before == before);
    double data = before;
    MaRC::MosaicImage m(MaRC::MosaicImage::list_type{}, std::make_unique<Strategy>());
    bool const r = m.read_data(g_lat, g_lon, data);
    v_assert(r == (g_count > 0), "a mosaic has data exactly when the compositor found some");
    if (r) v_assert(data == g_first || (data != data && g_first != g_first), "the composited datum is returned");
    else v_assert(data == before, "no data: the result is left alone");
    v_cover("end");
}
