PROPERTY="P09"
NEEDS="a photo with a right or bottom margin, interpolated between pixels, at a location next to that margin"
BREAKS="pixels of the margin contribute to interpolated data"
EDITS=[("lib/marc/BilinearInterpolation.cpp","r >= this->right_","r > this->right_"),("lib/marc/BilinearInterpolation.cpp","t >= this->bottom_","t > this->bottom_")]
DEMO=r'''
#include <marc/BilinearInterpolation.h>
#include <cstdio>
#include <vector>
int main() {
    std::vector<double> d(36, 1.0);
    for (int k = 0; k < 6; ++k) for (int i = 0; i < 6; ++i) if (i >= 4 || k >= 4) d[k * 6 + i] = 1e6;
    MaRC::BilinearInterpolation const b(6, 6, 0, 2, 0, 2);
    int bad = 0;
    for (double z = 0; z < 5; z += 0.25) for (double x = 0; x < 5; x += 0.25) {
        double v = 1;
        if (b.interpolate(d.data(), x, z, v) && v != 1) { ++bad; std::printf("%g %g: %g\n", x, z, v); }
    }
    return bad > 0;
}
'''
