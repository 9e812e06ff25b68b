PROPERTY="P12"
NEEDS="a line of sight whose direction vector is short compared to the radii of the body"
BREAKS="the point of intersection is not found"
EDITS=[("lib/marc/OblateSpheroid.cpp","    if (a <= 0)\n        return -1; // Unsuccessful","    if (a < std::numeric_limits<double>::epsilon())\n        return -1; // Unsuccessful"),
("lib/marc/OblateSpheroid.cpp","#include <cassert>\n","#include <cassert>\n#include <limits>\n")]
DEMO=r'''
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
int main() {
    MaRC::OblateSpheroid b(true, 71492, 66854);
    MaRC::DVector v, d;
    v[0] = 0; v[1] = -1e6; v[2] = 0;
    for (double s : {1.0, 1e-2, 1e-4, 1e-8}) {
        d[0] = 0; d[1] = s; d[2] = 0;
        double lat = 9, lon = 9;
        int const r = b.ellipse_intersection(v, d, lat, lon);
        std::printf("%d %g %g\n", r, lat, lon);
        if (r != 0 || std::abs(lat) > 1e-9 || std::abs(lon) > 1e-9) return 1;
    }
    return 0;
}
'''
