PROPERTY="P14"
NEEDS="a function that takes a value below the given one at the lower end of the bracket and equals it nowhere in the bracket"
BREAKS="a bracket that does not enclose the value is accepted if the function lies below the value at both ends, and a point where the function does not take the value is yielded"
EDITS=[("lib/marc/root_find.cpp","if ((yl > y && yh > y) || (yl < y && yh < y))","if (yl > y && yh > y)")]
DEMO=r'''
#include <marc/root_find.h>
#include <cstdio>
#include <cmath>
#include <stdexcept>
int main() {
    int bad = 0;
    for (double y : {0.5, 3.0, 7.0, 12.0, 1e3})
        try {
            double const x = MaRC::root_find(y, 1, 3, [](double x) { return x * x; });
            std::printf("%g: %.17g %g\n", y, x, x * x);
            bad += !(std::abs(x * x - y) < 1e-6);
        } catch (std::invalid_argument const&) { std::printf("%g rejected\n", y); bad += y >= 1 && y <= 9; }
          catch (std::exception const& e) { std::printf("%g %s\n", y, e.what()); ++bad; }
    return bad > 0;
}
'''
