// Scenarios whose target is put on an exact ray, so that one path to it is
// known without a search: in any profile, after any reflections.
#pragma once
#include <usml/types/seq_linear.h>

#include "eigref.h"

namespace onray {

typedef long double R;
using namespace usml::types;
using namespace usml::waveq3d;
using namespace usml::ocean;
using ref::Vec;

struct Scene {
    rt::Medium m;
    R R0 = wposition::earth_radius, depth = 0;
    double lat = 0, lon = 0, z = 0, dt = 0, delta = 0, daz = 0, aim = 0;
    int k = 0, j = 0, steps = 0;
    R gamma = 0, bearing = 0, t = 0;  // degrees, degrees, seconds
    seq_vector::csptr de, az;
    wposition1 source;
    wposition targets{1, 1};
    rt::Ray exact;        // at the target
    rt::Ray near[5];      // at the same time, launched 2 rays to each side
    R arrive_az = 0;      // degrees
    R spread = 0;         // distance between rays of the fan, per radian
    R wide = 0;           // the same for azimuth
    R smooth = 1e9;       // relative change of spread between those rays
    R shift_t = 0, shift_de = 0;  // second order errors (cells)
    R astray = 0, wobble = 0;  // error of the wavefront: meters, cells
    int caustic = -1;     // -1 when not the same for all rays around
    bool resolved = false;
};

inline rt::Ray trace(const Scene &s, R gamma_deg, R t) {
    rt::Ray y(s.m, s.source.rho(), ref::rad(gamma_deg), s.R0,
              s.depth > 0 ? s.R0 - s.depth : 0);
    y.h = 0.02;
    y.to(t);
    return y;
}

// times of contacts until t
inline std::string history(const rt::Ray &y, R t) {
    std::string h;
    for (auto &k : y.hits)
        if (k.t <= t) h += k.surface ? 'S' : 'B';
    return h;
}

// place the target on the ray and see what the fan resolves around it
inline void prepare(Scene &s, bool place = true) {
    R ede = ref::rad(0.5L * s.delta), eaz = ref::rad(0.4L * s.daz);
    s.shift_t = s.t * (ede * ede + eaz * eaz) / 2 / s.dt;
    s.shift_de = eaz * eaz / 4 / ref::rad(s.delta);
    // the target
    s.exact = trace(s, s.gamma, s.t);
    rt::Circle circle(s.source, s.bearing);
    Vec at = circle.point(s.exact.y);
    if (place) {
        s.targets.rho(0, 0, at.norm());
        s.targets.theta(0, 0, std::acos(at.z / at.norm()));
        s.targets.phi(0, 0, std::atan2(at.y, at.x));
    }
    Vec head = circle.head(s.exact.y.psi);
    R th = s.targets.theta(0, 0), ph = s.targets.phi(0, 0);
    s.arrive_az = ref::deg(std::atan2(head.dot(ref::east_at(th, ph)),
                                     head.dot(ref::north_at(th, ph))));
    // what the fan sees around it
    s.resolved = s.shift_t < 0.12 && s.shift_de < 0.12;
    std::string h;
    R later = s.t + 3 * s.dt;
    rt::Ray ahead[5];
    for (int q = 0; q < 5; ++q) {
        R g = (*s.de)(s.k) + (q - 2) * s.delta;
        ahead[q] = trace(s, g, later);
        s.near[q] = trace(s, g, s.t);
        std::string a = history(ahead[q], s.t - 3 * s.dt), b = history(ahead[q], later);
        if (q == 0) h = a;
        if (a != h || b != h) s.resolved = false;
        for (auto &x : ahead[q].hits)
            if (fabsl(sinl(x.gamma)) < 0.026) s.resolved = false;
        if (fabsl(ref::deg(s.near[q].y.gamma)) < 1.5 * s.delta) s.resolved = false;
        if (ahead[q].upper != ahead[0].upper || ahead[q].lower != ahead[0].lower)
            s.resolved = false;
        if (ahead[q].near_vertex < 1500 * s.dt * 0.03) s.resolved = false;
    }
    // one history before the target too: the same number of contacts at the
    // same time is not enough for folds of the wavefront
    auto perp = [&](int a, int b) {
        R g = s.exact.y.gamma;
        R dx = (s.near[b].y.psi - s.near[a].y.psi) * s.exact.y.r;
        R dr = s.near[b].y.r - s.near[a].y.r;
        return (dr * cosl(g) - dx * sinl(g)) / ((b - a) * ref::rad(s.delta));
    };
    R e = ref::rad(s.delta) / 50;
    auto j0 = [&]() {
        rt::Ray a = trace(s, s.gamma - s.delta / 50, s.t),
                b = trace(s, s.gamma + s.delta / 50, s.t);
        R g = s.exact.y.gamma;
        R dx = (b.y.psi - a.y.psi) * s.exact.y.r, dr = b.y.r - a.y.r;
        return (dr * cosl(g) - dx * sinl(g)) / (2 * e);
    };
    s.spread = j0();
    s.smooth = 0;
    for (int q = 0; q < 4; ++q)
        s.smooth = std::max(s.smooth, fabsl(perp(q, q + 1) / s.spread - 1));
    s.wide = s.exact.y.r * sinl(s.exact.y.psi);
    // errors of the wavefront: of the third order, of the second just after a
    // contact
    R tanlat = fabsl(tanl(ref::rad(fabsl((R)s.lat) + 4)));
    R rate = s.m.rate + 1600 / s.R0 * (2 + 2 * tanlat), all = rate + s.m.scale;
    R again = 0;
    for (auto &h : s.exact.hits)
        again += powl(s.m.rate * s.dt, 2) / fabsl(sinl(h.gamma));
    s.astray = s.t * 1500 * (10 * rate * all * all * powl(s.dt, 3) + again);
    s.wobble = s.astray / (fabsl(s.spread) * ref::rad(s.delta)) + ref::deg(again) / s.delta;
    if (s.wobble > 0.3) s.resolved = false;
    // the fan opens: rays cannot be told apart when it does not
    if (s.smooth > 0.4 || fabsl(s.spread) * ref::rad(s.delta) < 2.5) s.resolved = false;
    if (s.wide * ref::rad(s.daz) < 2.5) s.resolved = false;
    // folds between neighbors
    s.caustic = 0;
    rt::Ray y[5];
    int folds[4] = {0, 0, 0, 0};
    bool gap[4] = {false, false, false, false}, vague = false;
    for (int q = 0; q < 5; ++q) y[q] = trace(s, (*s.de)(s.k) + (q - 2) * s.delta, 0.001L);
    std::vector<R> last(4, 1);
    std::vector<std::string> seen(5);
    for (R t = s.dt; t < later; t += s.dt) {
        for (int q = 0; q < 5; ++q) y[q].to(t);
        for (int q = 0; q < 4; ++q) {
            std::string a = history(y[q], t), b = history(y[q + 1], t);
            R d = y[q + 1].y.r - y[q].y.r;
            // contacts turn the order around
            for (auto &x : a) (void)x, d = -d;
            if (a != b) {
                gap[q] = true;
                continue;
            }
            if (d * last[q] < 0) {
                ++folds[q], last[q] = d;
                // while one or both of the rays were reflected
                if (gap[q] || seen[q] != a) vague = true;
            }
            gap[q] = false, seen[q] = a;
        }
    }
    for (int q = 1; q < 4; ++q)
        if (folds[q] != folds[0]) s.caustic = -1;
    if (s.caustic == 0) s.caustic = vague ? -1 : folds[0];
}

// margin: rays of the fan on each side of the target that are not next to it
inline Scene generate(pbt::Case &c, int medium = -1, double longest = 20,
                      int margin_de = 4, int margin_az = 2) {
    Scene s;
    s.m = rt::gen_medium(c, medium);
    s.depth = c.flip(0.8) ? c.logreal(200, 5000) : 0;
    s.lat = c.real(-75, 75, {0.0, 45.0});
    s.lon = c.real(-180, 180, {180.0, 0.0});
    R deep = s.depth > 0 ? s.depth : 4000;
    s.z = deep * c.real(0.02, 0.98);
    s.source = wposition1(s.lat, s.lon, -s.z);
    s.dt = std::min<R>(c.logreal(0.01, 0.1), deep / 1500 / 4);
    if (s.m.rate > 0) s.dt = std::min(s.dt, (double)(0.05 / s.m.rate));
    if (s.m.scale > 0) s.dt = std::min(s.dt, (double)(0.15 / s.m.scale));
    s.delta = c.logreal(0.05, 2);
    s.steps = std::max(8, (int)(c.logreal(0.2, longest) / s.dt));
    s.steps = std::min(s.steps, 600);
    s.t = (s.steps + c.real(-0.4, 0.4)) * s.dt;
    // rays of the fan
    int nde = 2 * margin_de + c.integer(1, 7);
    s.k = c.integer(margin_de, nde - margin_de - 1);
    double u = c.real(-0.4, 0.4), v = c.real(-0.4, 0.4);
    if (margin_de > 4) s.delta = std::min(s.delta, 1.0);
    double limit = 88 - nde * s.delta;
    s.gamma = c.real(-std::min(70.0, limit), std::min(70.0, limit));
    double first = (double)s.gamma - (s.k + u) * s.delta;
    s.de.reset(new seq_linear(first, s.delta, nde));
    s.bearing = c.real(-180, 180, {180.0, 0.0});
    // a spread of azimuths that keeps the error of second order small
    R r = s.t * 1500;
    R most = ref::deg(sqrtl(0.12L * s.dt * 1500 / r) / 0.4L);
    s.daz = std::min<R>(c.logreal(0.05, 5), most);
    int naz = 2 * margin_az + c.integer(1, 3);
    s.j = c.integer(margin_az, naz - margin_az - 1);
    s.az.reset(new seq_linear((double)s.bearing - (s.j + v) * s.daz, s.daz, naz));
    c.note("lat", s.lat), c.note("lon", s.lon), c.note("z", s.z);
    c.note("depth", (double)s.depth), c.note("dt", s.dt), c.note("t", (double)s.t);
    c.note("gamma", (double)s.gamma), c.note("delta", s.delta);
    c.note("u", u), c.note("bearing", (double)s.bearing), c.note("daz", s.daz);
    c.note("v", v), c.note("nde", nde), c.note("k", s.k), c.note("naz", naz), c.note("j", s.j);
    prepare(s);
    return s;
}
}  // namespace onray
