PROPERTY="P04"
NEEDS="a prograde body and a longitude range other than 360 degrees"
BREAKS="longitudes of the map elements are offset by the difference to the full range"
EDITS=[("lib/marc/SimpleCylindrical.h","lon = this->hi_lon_ - lon;","lon = this->lo_lon_ + 6.283185307179586 - lon;")]
DEMO=r'''
#include <marc/SimpleCylindrical.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
int main() {
    auto b = std::make_shared<MaRC::OblateSpheroid>(true, 71492, 66854);
    MaRC::SimpleCylindrical p(b, -90, 90, 20, 60, false);
    int bad = 0;
    MaRC::MapFactory::plot_type f = [&](double, double lon, std::size_t o) {
        double const e = (60 - (double(o % 4) + .5) * 10) * M_PI / 180;
        if (std::abs(lon - e) > 1e-9) { ++bad; std::printf("element %zu longitude %g instead of %g\n", o, lon, e); }
    };
    ((MaRC::MapFactory const&) p).plot_map(4, 2, f);
    return bad != 0;
}
'''
