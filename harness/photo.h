// Shared by the contracts of photo images: a photo of any size and content, and what its viewing geometry answers.
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <stdexcept>
#include <cmath>
#include <cstring>
#include <limits>
#include <algorithm>
#include <type_traits>
#define private public
#include <marc/SourceImage.h>
#include <marc/PhotoImage.h>
#include <marc/PhotoImageParameters.h>
#include <marc/ViewingGeometry.h>
#undef private
#include "vspec.h"
#include <marc/PhotoImage.cpp>
#include <marc/PhotoImageParameters.cpp>
#include <marc/SourceImage.cpp>
#include <marc/NullInterpolation.cpp>
#include <marc/NullPhotometricCorrection.cpp>
#include <marc/BilinearInterpolation.cpp>

static uint64_t g_samples, g_lines, g_nl, g_nr, g_nt, g_nb;
static double g_lat, g_lon, g_x, g_z;
static bool g_visible, g_sky;
static uint64_t* g_mask;
static double* g_image;

// contract of the viewing geometry as seen by a photo: any answer
bool MaRC::ViewingGeometry::latlon2pix(double lat, double lon, double& x, double& z) const {
    v_assert(lat == g_lat && lon == g_lon, "the requested point is located");
    x = g_x;
    z = g_z;
    return g_visible;
}
static std::vector<bool> const* g_bits;
static bool mask_bit(uint64_t i) { return (*g_bits)[i]; }
// a mask of samples x lines pixels with any content
std::vector<bool> MaRC::ViewingGeometry::body_mask(std::size_t samples, std::size_t lines) const {
    v_assert(samples == g_samples && lines == g_lines, "the mask has the size of the photo");
    uint64_t const n = samples * lines;
    alignas(std::vector<bool>) unsigned char raw[sizeof(std::vector<bool>)];
    struct { void* p; unsigned o; void* q; unsigned r; void* end; } b = {};
    static_assert(sizeof b == sizeof raw, "layout of vector<bool>");
    b.p = g_mask; b.o = 0; b.q = g_mask + n / 64; b.r = unsigned(n % 64); b.end = g_mask + (n + 63) / 64;
    std::memcpy(raw, &b, sizeof b);
    return std::move(*reinterpret_cast<std::vector<bool>*>(raw));
}
static unsigned char g_geometry[sizeof(MaRC::ViewingGeometry)];
alignas(MaRC::PhotoImage) static unsigned char g_photo[sizeof(MaRC::PhotoImage)];

static void size() {
    g_samples = nd_u64_in("samples", 2, 65535);
    g_lines = nd_u64_in("lines", 2, 65535);
    g_nl = nd_u64_in("nibble left", 0, 65535), g_nr = nd_u64_in("nibble right", 0, 65535);
    g_nt = nd_u64_in("nibble top", 0, 65535), g_nb = nd_u64_in("nibble bottom", 0, 65535);
    if (!v_symbolic()) {
        g_samples = 2 + g_samples % 9; g_lines = 2 + g_lines % 9;
        g_nl %= 3; g_nr %= 3; g_nt %= 3; g_nb %= 3;
    }
    g_sky = nd_bool("remove sky");
}
static MaRC::PhotoImage const& photo(MaRC::PhotoImageParameters* c) {
    uint64_t const n = g_samples * g_lines;
    g_image = static_cast<double*>(v_alloc("image", n, 8));
    g_mask = static_cast<uint64_t*>(v_alloc("mask", (n + 63) / 64, 8));
    if (!v_symbolic())
        for (uint64_t i = 0; i < (n + 63) / 64; ++i) g_mask[i] = nd_u64("mask") | nd_u64("mask") | nd_u64("mask");
    c->nibble_left(g_nl); c->nibble_right(g_nr); c->nibble_top(g_nt); c->nibble_bottom(g_nb);
    c->remove_sky(g_sky);
    alignas(std::vector<double>) unsigned char raw[sizeof(std::vector<double>)];
    void* b[3] = { g_image, g_image + n, g_image + n };
    std::memcpy(raw, b, sizeof b);
    g_bits = &reinterpret_cast<MaRC::PhotoImage*>(g_photo)->body_mask_;
    return *::new (static_cast<void*>(g_photo)) MaRC::PhotoImage(std::move(*reinterpret_cast<std::vector<double>*>(raw)), g_samples, g_lines,
        std::unique_ptr<MaRC::PhotoImageParameters>(c),
        std::unique_ptr<MaRC::ViewingGeometry>(reinterpret_cast<MaRC::ViewingGeometry*>(g_geometry)));
}
static void point() {
    g_lat = nd_f64_in("lat", -2, 2), g_lon = nd_f64_in("lon", -7, 7);
    g_visible = nd_bool("visible");
    if (v_symbolic() || nd_bool("any")) { g_x = nd_f64("x"), g_z = nd_f64("z"); }
    else { g_x = nd_f64_in("x", -1, 11), g_z = nd_f64_in("z", -1, 11); }
}
