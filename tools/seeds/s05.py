PROPERTY="P05"
NEEDS="a number of samples that does not divide 360"
BREAKS="longitudes of the map elements are compressed"
EDITS=[("lib/marc/Mercator.cpp","double lon = (i + 0.5) / samples * C::_2pi + lo_lon;","double lon = (i + 0.5) * (360 / samples) * C::degree + lo_lon;")]
DEMO=r'''
#include <marc/Mercator.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
int main() {
    auto b = std::make_shared<MaRC::OblateSpheroid>(false, 1000, 1000);
    MaRC::Mercator p(b);
    int bad = 0;
    MaRC::MapFactory::plot_type f = [&](double, double lon, std::size_t o) {
        if (std::abs(lon - (double(o % 7) + .5) / 7 * 2 * M_PI) > 1e-9) ++bad;
    };
    ((MaRC::MapFactory const&) p).plot_map(7, 5, f);
    if (bad) std::printf("%d wrong longitudes\n", bad);
    return bad != 0;
}
'''
