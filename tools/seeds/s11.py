PROPERTY="P11"
NEEDS="a longitude of more than two turns, as Orthographic maps of bodies seen at large longitudes may hand out"
BREAKS="no longitude is shown there"
EDITS=[("lib/marc/LongitudeImage.cpp","std::fmod(lon, C::circle) / C::degree","lon / C::degree")]
DEMO=r'''
#include <marc/LongitudeImage.h>
#include <cstdio>
#include <cmath>
int main() {
    MaRC::LongitudeImage const image(1, 0);
    int bad = 0;
    for (int turns = -3; turns <= 3; ++turns) {
        double v = -1;
        if (!image.read_data(0.1, 1 + turns * 2 * M_PI, v) || std::abs(v - 180 / M_PI) > 1e-6) ++bad;
    }
    std::printf("bad %d\n", bad);
    return bad > 0;
}
'''
