PROPERTY="P07"
NEEDS="a retrograde body with the latitude and longitude at the map center given, off the sub-observation meridian"
BREAKS="the map is shifted: the given point is not at its center"
EDITS=[("lib/marc/Orthographic.cpp","        if (!this->body_->prograde())\n            pos[0] = -pos[0];\n\n","")]
DEMO=r'''
#include <marc/Orthographic.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
#include <memory>
int main() {
    int bad = 0;
    for (bool prograde : { true, false }) {
        MaRC::OrthographicCenter c;
        c.geometry = MaRC::LAT_LON_GIVEN;
        c.sample_lat_center = 30;
        c.line_lon_center = 100;
        MaRC::Orthographic o(std::make_shared<MaRC::OblateSpheroid>(prograde, 71492., 71492.), 20, 80, 10, 2000, c);
        MaRC::MapFactory & f = o;
        std::size_t const n = 41;
        bool found = false;
        auto const plot = [&](double lat, double lon, std::size_t offset) {
            if (offset == 20 * n + 20)
                found = std::abs(lat * 180 / M_PI - 30) < 1e-6 && std::abs(std::sin(lon - 100 * M_PI / 180)) < 1e-6;
        };
        f.plot_map(n, n, plot);
        if (!found) ++bad;
    }
    std::printf("bad %d\n", bad);
    return bad > 0;
}
'''
