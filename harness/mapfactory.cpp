//@ property P01
//@ file convcheck mul_uf merge
// Contract of MapFactory::make_map (lib/marc/MapFactory_t.cpp) against any projection (stub of plot_map)
// and any source image (stub of read_data): content of the map, extrema, source reads.
#include "vspec.h"
#include <marc/MapFactory.h>
#include <marc/MapFactory_t.cpp>
#include <marc/SourceImage.cpp>
#include <marc/Notifier.cpp>
#include <marc/Log.cpp>
#include <limits>

template <typename T> struct nd;
template <> struct nd<double>  { static double  get(char const* n) { return nd_f64(n); } };
template <> struct nd<float>   { static float   get(char const* n) { return nd_f32(n); } };
template <> struct nd<uint8_t> { static uint8_t get(char const* n) { return nd_u8(n); } };
template <> struct nd<int16_t> { static int16_t get(char const* n) { return nd_i16(n); } };
template <> struct nd<int32_t> { static int32_t get(char const* n) { return nd_i32(n); } };
template <> struct nd<int64_t> { static int64_t get(char const* n) { return nd_i64(n); } };

// ---- ghost state
static double  g_lat, g_lon;          // point handed to plot()
static bool    g_found;               // last read: success
static double  g_datum;               // last read: value
static uint64_t g_reads;              // number of source reads

struct Source final : MaRC::SourceImage {
    bool read_data(double lat, double lon, double& data) const override {
        v_assert(lat == g_lat && lon == g_lon, "the source is read at the point being plotted");
        ++g_reads;
        g_found = nd_bool("found");
        g_datum = nd_f64("datum");
        data = g_datum;       // clobbered even when no data was found: allowed by the interface
        return g_found;
    }
};

template <typename T> struct G {
    static T val;             // expected content of element ix
    static bool has;          // some datum was plotted
    static T lo, hi;          // extrema of the plotted data
    static double min, max;   // accepted data range
};
template <typename T> T G<T>::val;
template <typename T> bool G<T>::has;
template <typename T> T G<T>::lo;
template <typename T> T G<T>::hi;
template <typename T> double G<T>::min;
template <typename T> double G<T>::max;
static uint64_t g_ix, g_size;

template <typename T> struct Factory final : MaRC::MapFactory {
    uint64_t plots;
    char const* projection_name() const override { return "stub"; }
    void plot_map(std::size_t samples, std::size_t lines, plot_type const& plot) const override {
        for (uint64_t k = 0; k < plots; ++k) {
            uint64_t off = nd_u64("offset");
            if (!v_symbolic()) off %= g_size;
            v_assume(off < g_size);
            g_lat = nd_f64_in("lat", -2, 2);
            g_lon = nd_f64_in("lon", -7, 7);
            uint64_t before = g_reads;
            plot(g_lat, g_lon, off);
            v_assert(g_reads == before + 1, "one source read per plotted point");
            if (g_found && g_datum >= G<T>::min && g_datum <= G<T>::max) {
                T v = static_cast<T>(g_datum);
                if (off == g_ix) G<T>::val = v;
                if (!G<T>::has || v < G<T>::lo) G<T>::lo = v;
                if (!G<T>::has || v > G<T>::hi) G<T>::hi = v;
                G<T>::has = true;
            }
        }
    }
    void plot_grid(std::size_t, std::size_t, double, double, grid_type&) const override {}
};

template <typename T, bool fp, bool range, bool hb> void make() {
    uint64_t samples = nd_u64_in("samples", 1, 65535), lines = nd_u64_in("lines", 1, 65535);
    if (!v_symbolic()) { samples = 1 + samples % 12; lines = 1 + lines % 12; }
    g_size = samples * lines;
    v_assume(g_size >= 1 && g_size <= 4294836225u);   // 65535^2: follows from the ranges, but products are abstracted
    MaRC::extrema<T> e;
    double const tmin = double(std::numeric_limits<T>::lowest());
    double const tmax = std::is_same<T, int64_t>::value ? 9223372036854774784.0 : double(std::numeric_limits<T>::max());
    G<T>::min = tmin;
    G<T>::max = tmax;
    if (range) {
        T a = nd<T>::get("minimum"), b = nd<T>::get("maximum");
        v_assume(a <= b && a >= std::numeric_limits<T>::lowest() && b <= std::numeric_limits<T>::max());
        G<T>::min = double(a);
        G<T>::max = double(b);
        if (sizeof(T) == 8 && !fp)   // bounds are held as double: exact up to 2^53
            v_assume(G<T>::min >= -9007199254740992.0 && G<T>::max <= 9007199254740992.0 && int64_t(a) >= -(1ll << 53) && int64_t(b) <= (1ll << 53));
        e.update(a);
        e.update(b);
    }
    MaRC::blank_type blank;
    int64_t bv = nd_i64("blank");
    if (hb) {
        blank = bv;
        v_assume(fp || (bv >= std::numeric_limits<T>::lowest() && bv <= std::numeric_limits<T>::max()));
    }
    MaRC::plot_info<T> info(samples, lines, blank);
    Source src;
    Factory<T> f;
    f.plots = nd_u64_in("plots", 0, 0xffffffff);
    v_assume(f.plots <= g_size);
    g_ix = nd_u64("ix");
    if (!v_symbolic()) g_ix %= g_size;
    v_assume(g_ix < g_size);
    v_watch_index(g_ix);
    T const expect_blank = fp ? MaRC::Map_traits<T>::empty_value() : hb ? T(bv) : T(0);
    if (fp) v_assert(expect_blank != expect_blank, "blank of a floating point map is NaN");
    G<T>::val = expect_blank;
    G<T>::has = false;
    g_reads = 0;
    auto map = f.make_map(src, e, info);
    v_assert(map.size() == samples * lines, "the map has samples x lines elements");
    T const got = map[g_ix];
    if (fp) v_assert(got == G<T>::val || (got != got && G<T>::val != G<T>::val), "each element is its datum or blank");
    else v_assert(got == G<T>::val, "each element is its datum or blank");
    v_assert(bool(info.minimum()) == G<T>::has && bool(info.maximum()) == G<T>::has, "extrema are known exactly when data was plotted");
    v_assert(info.data_mapped() == G<T>::has, "data_mapped tells whether data was plotted");
    if (G<T>::has) {
        v_assert(*info.minimum() == G<T>::lo, "minimum is that of the plotted data");
        v_assert(*info.maximum() == G<T>::hi, "maximum is that of the plotted data");
    }
    v_cover("end");
}

//@ fn h_make_u8_full
HARNESS(h_make_u8_full) { make<uint8_t, false, false, false>(); }
//@ fn h_make_u8_range_blank conv_uf
HARNESS(h_make_u8_range_blank) { make<uint8_t, false, true, true>(); }
//@ fn h_make_i16_full
HARNESS(h_make_i16_full) { make<int16_t, false, false, false>(); }
//@ fn h_make_i16_full_blank
HARNESS(h_make_i16_full_blank) { make<int16_t, false, false, true>(); }
//@ fn h_make_i16_range conv_uf
HARNESS(h_make_i16_range) { make<int16_t, false, true, false>(); }
//@ fn h_make_i16_range_blank conv_uf
HARNESS(h_make_i16_range_blank) { make<int16_t, false, true, true>(); }
//@ fn h_make_i32_full
HARNESS(h_make_i32_full) { make<int32_t, false, false, false>(); }
//@ fn h_make_i32_range_blank conv_uf
HARNESS(h_make_i32_range_blank) { make<int32_t, false, true, true>(); }
//@ fn h_make_i64_full
HARNESS(h_make_i64_full) { make<int64_t, false, false, false>(); }
//@ fn h_make_i64_range_blank conv_uf
HARNESS(h_make_i64_range_blank) { make<int64_t, false, true, true>(); }
//@ fn h_make_f32_full
HARNESS(h_make_f32_full) { make<float, true, false, false>(); }
//@ fn h_make_f32_range conv_uf
HARNESS(h_make_f32_range) { make<float, true, true, false>(); }
//@ fn h_make_f64_full
HARNESS(h_make_f64_full) { make<double, true, false, false>(); }
//@ fn h_make_f64_range conv_uf
HARNESS(h_make_f64_range) { make<double, true, true, false>(); }

template <typename T> void bad_blank() {
    int64_t bv = nd_i64("blank");
    bool const fits = bv >= std::numeric_limits<T>::lowest() && bv <= std::numeric_limits<T>::max();
    v_assume(!fits);
    MaRC::extrema<T> e;
    MaRC::plot_info<T> info(2, 2, MaRC::blank_type(bv));
    Source src;
    Factory<T> f;
    f.plots = 0;
    bool thrown = false;
    try { f.make_map(src, e, info); } catch (std::invalid_argument const&) { thrown = true; }
    v_assert(thrown, "a blank value outside the map data type is rejected");
    v_cover("end");
}
//@ fn h_blank_u8
HARNESS(h_blank_u8) { bad_blank<uint8_t>(); }
//@ fn h_blank_i16
HARNESS(h_blank_i16) { bad_blank<int16_t>(); }
//@ fn h_blank_i32
HARNESS(h_blank_i32) { bad_blank<int32_t>(); }
