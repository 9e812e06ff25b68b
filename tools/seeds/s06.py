PROPERTY="P10"
NEEDS="several images with data too large for single precision"
BREAKS="the unweighted average of the data is off"
EDITS=[("lib/marc/unweighted_average.cpp","long double sum = 0;","float sum = 0;")]
DEMO=r'''
#include <marc/unweighted_average.h>
#include <marc/SourceImage.h>
#include <cstdio>
#include <cmath>
struct I : MaRC::SourceImage {
    double d, w = 1; explicit I(double d) : d(d) {}
    bool read_data(double,double,double&x) const override { x = d; return true; }
    bool read_data(double,double,double&x,double&v,bool) const override { x = d; v = w; return true; }
};
int main() {
    MaRC::unweighted_average s;
    MaRC::compositing_strategy::list_type l;
    l.push_back(std::make_unique<I>(33554433));
    l.push_back(std::make_unique<I>(33554435));
    double d = 0;
    s.composite(l, 0, 0, d);
    if (std::abs(d - 33554434) > 1e-9) { std::printf("average %.10g instead of 33554434\n", d); return 1; }
    return 0;
}
'''
