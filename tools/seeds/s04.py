PROPERTY="P06"
NEEDS="a south pole map of a retrograde body"
BREAKS="longitudes run the wrong way round"
EDITS=[("lib/marc/PolarStereographic.cpp","""        ((this->north_pole_ && this->body_->prograde())
         || (!this->north_pole_ && !this->body_->prograde()));""","""        (this->north_pole_ && this->body_->prograde());""")]
DEMO=r'''
#include <marc/PolarStereographic.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
int main() {
    auto b = std::make_shared<MaRC::OblateSpheroid>(false, 71492, 66854);
    MaRC::PolarStereographic p(b, -20, false);
    int bad = 0;
    MaRC::MapFactory::plot_type f = [&](double, double lon, std::size_t o) {
        double const X = double(o / 4) + .5 - 2, Y = double(o % 4) + .5 - 2;
        if (std::abs(lon - std::atan2(Y, X)) > 1e-9) ++bad;
    };
    ((MaRC::MapFactory const&) p).plot_map(4, 4, f);
    if (bad) std::printf("%d wrong longitudes\n", bad);
    return bad != 0;
}
'''
