PROPERTY="P01"
NEEDS="an integer map, a source datum with a fractional part that exceeds the allowed maximum by less than one"
BREAKS="data outside the allowed range is placed in the map"
EDITS=[("lib/marc/MapFactory_t.cpp","e.in_range(datum));","e.in_range(static_cast<T>(datum)));")]
DEMO=r'''
#include <marc/MapFactory.h>
#include <marc/SimpleCylindrical.h>
#include <marc/OblateSpheroid.h>
#include <marc/SourceImage.h>
#include <marc/plot_info.h>
#include <marc/extrema.h>
#include <cstdio>
struct I : MaRC::SourceImage { bool read_data(double,double,double&d) const override { d = 10.5; return true; } };
int main() {
    auto b = std::make_shared<MaRC::OblateSpheroid>(true, 71492, 66854);
    MaRC::SimpleCylindrical p(b, -90, 90, 0, 360, false);
    MaRC::plot_info<int16_t> info(4, 3, std::optional<std::intmax_t>(-7));
    auto m = p.make_map<int16_t>(I(), MaRC::extrema<int16_t>(0, 10), info);
    for (auto x : m) if (x != -7) { std::printf("10.5 in a map limited to [0, 10]: %d\n", x); return 1; }
    return 0;
}
'''
