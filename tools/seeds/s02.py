PROPERTY="P02"
NEEDS="extrema of another data type with a maximum but no minimum"
BREAKS="the maximum is lost when extrema are converted to another data type"
EDITS=[("lib/marc/extrema.h","            if (maximum)\n                this->maximum_ = validate_maximum(*maximum);","            if (minimum && maximum)\n                this->maximum_ = validate_maximum(*maximum);")]
DEMO=r"""
#include <marc/extrema.h>
#include <cstdio>
int main() {
    MaRC::extrema<double> d;
    d.maximum(7.0);
    MaRC::extrema<short> e(d);
    if (!e.maximum() || *e.maximum() != 7) { std::puts("maximum lost"); return 1; }
    return 0;
}
"""
