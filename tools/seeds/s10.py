PROPERTY="P09"
NEEDS="a photo whose top and bottom margins differ"
BREAKS="lines of the bottom margin are read, or lines outside of it are not"
EDITS=[("lib/marc/PhotoImage.cpp","bottom_   (lines - config->nibble_bottom())","bottom_   (lines - config->nibble_top())")]
DEMO=r'''
#include <marc/PhotoImage.h>
#include <marc/PhotoImageParameters.h>
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <vector>
#include <cmath>
#include <memory>
int main() {
    std::size_t const n = 40, nb = 20;
    auto g = std::make_unique<MaRC::ViewingGeometry>(std::make_shared<MaRC::OblateSpheroid>(true, 1000., 1000.));
    g->sub_observ(0, 0); g->sub_solar(0, 0); g->range(1e6); g->km_per_pixel(100);
    g->position_angle(0); g->body_center(20, 20); g->finalize_setup(n, n);
    std::vector<double> image(n * n);
    for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < n; ++i) image[k * n + i] = k + 1;
    auto c = std::make_unique<MaRC::PhotoImageParameters>();
    c->nibble_top(2); c->nibble_bottom(nb); c->remove_sky(false);
    MaRC::PhotoImage const p(std::move(image), n, n, std::move(c), std::move(g));
    int bad = 0, found = 0;
    for (double lat = -60; lat <= 60; lat += 5) {
        double v = 0;
        if (p.read_data(lat * M_PI / 180, 0, v)) { ++found; if (v - 1 >= n - nb || v - 1 < 2) ++bad; }
    }
    std::printf("found %d bad %d\n", found, bad);
    return bad || !found;
}
'''
