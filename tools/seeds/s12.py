PROPERTY="P13"
NEEDS="a photo limited by emission angle and by the terminator at once"
BREAKS="points within the emission angle limit are taken for visible although unlit"
EDITS=[("lib/marc/ViewingGeometry.cpp","        && (!this->use_terminator_\n","        && (!this->use_terminator_ || this->mu_limit_ > 0\n")]
DEMO=r'''
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <cstdio>
#include <cmath>
int main() {
    int bad = 0;
    MaRC::OblateSpheroid const o(true, 1000., 950.);
    MaRC::ViewingGeometry g(std::make_shared<MaRC::OblateSpheroid>(true, 1000., 950.));
    g.sub_observ(10, 40); g.sub_solar(0, 120); g.range(1e4); g.position_angle(0); g.km_per_pixel(20); g.body_center(50, 50);
    g.emi_ang_limit(70); g.use_terminator(true);
    g.finalize_setup(100, 100);
    double const d = M_PI / 180;
    for (double la = -80; la <= 80; la += 10) for (double lo = 0; lo < 360; lo += 10) {
        bool const lit = o.mu0(0, 120 * d, la * d, lo * d) > 0, near = o.mu(10 * d, 40 * d, la * d, lo * d, 1e4) > std::cos(70 * d);
        bad += g.is_visible(la * d, lo * d) != (lit && near);
    }
    std::printf("%d\n", bad);
    return bad > 0;
}
'''
