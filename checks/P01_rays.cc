// P01: rays obey Snell's law and the exact ray equations
#include <usml/waveq3d/waveq3d.h>

#include "calib.h"
#include "raytrace.h"

using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;

static seq_vector::csptr gen_angles(Case &c, int max, double lo, double hi,
                                    const std::vector<double> &special) {
    int N = c.integer(1, max);
    std::set<double> v;
    for (int n = 0; n < N; ++n) v.insert(c.real(lo, hi, special));
    std::vector<double> d(v.begin(), v.end());
    // values of a list must be at least a little apart
    std::vector<double> out;
    for (double x : d)
        if (out.empty() || x - out.back() > 1e-3) out.push_back(x);
    return seq_vector::csptr(new seq_data(out.data(), out.size()));
}


LAW(P01, exact_rays, 20000, 500000,
    "1-6 x 1-4 rays at any angles from any source location and depth through "
    "constant, linear, N^2, Munk, catenary and sinusoidal profiles, 2-150 "
    "steps of 5 to 250 ms: position, direction, path length and sound speed "
    "of every ray after every step, up to its first boundary contact, against "
    "an independent integration; non-trivial: refracting profile or more than "
    "20 steps") {
    auto m = rt::gen_medium(c);
    double depth = c.real(1000, 8000);
    boundary_model::csptr surface(new boundary_flat());
    boundary_model::csptr bottom(new boundary_flat(depth));
    ocean_model::csptr ocean(new ocean_model(surface, bottom, m.model));
    double lat = c.real(-80, 80, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double z = c.real(1, depth - 1);
    wposition1 source(lat, lon, -z);
    auto de = gen_angles(c, 6, -90, 90, {0.0, 90.0, -90.0, 1e-3});
    auto az = gen_angles(c, 4, -180, 360, {0.0, 90.0, 180.0, 270.0});
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
    double dt = c.logreal(0.005, 0.25);
    // resolve the profile
    if (m.rate > 0) dt = std::min(dt, (double)(0.1 / m.rate));
    if (m.scale > 0) dt = std::min(dt, (double)(0.3 / m.scale));
    int steps = c.integer(2, 150);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("dt", dt), c.note("steps", steps);
    c.notev("de", *de, de->size()), c.notev("az", *az, az->size());
    wave_queue wave(ocean, freq, source, de, az, dt);
    std::vector<rt::Ray> ray(de->size());
    for (size_t i = 0; i < de->size(); ++i) {
        ray[i] = rt::Ray(m, source.rho(), ref::rad((*de)[i]),
                         wposition::earth_radius,
                         wposition::earth_radius - depth);
        ray[i].h = std::min<R>(0.02, dt / 2);
    }
    R R0 = source.rho(), tanlat = fabsl(tanl(ref::rad(std::abs(lat) + 4)));
    for (int n = 0; n <= steps; ++n) {
        R t = n * (R)dt;
        c.close(wave.time(), t, 1e-9, 1e-12, "time");
        const wave_front *w = wave.curr();
        // a third order method: error grows with time and the third power of
        // the step
        R rate = m.rate + 1600 / R0 * (2 + 2 * tanlat);
        R all = rate + m.scale;
        R tol = 1e-5L + 20 * t * 1500 * rate * all * all * powl(dt, 3);
        R dtol = 1e-8L + 2 * t * rate * powl(all * dt, 3);
        bool any = false;
        for (size_t i = 0; i < de->size(); ++i) {
            ray[i].to(t);
            if (!ray[i].hits.empty()) continue;
            // next wavefront may already know about a contact
            rt::State y = ray[i].y;
            R cy = m.c((R)wposition::earth_radius - y.r);
            R g0 = ref::rad((*de)[i]);
            R snell0 = R0 * cosl(g0) / m.c((R)wposition::earth_radius - R0);
            for (size_t j = 0; j < az->size(); ++j) {
                if (w->surface(i, j) || w->bottom(i, j)) continue;
                any = true;
                rt::Circle circle(source, (*az)[j]);
                wposition1 p(w->position, i, j);
                wvector1 d(w->ndirection, i, j);
                Vec at = ref::sph(p.rho(), p.theta(), p.phi());
                R err = (at - circle.point(y)).norm();
                Vec dir = rt::tangent(p, d) * cy;
                R derr = (dir - circle.direction(y)).norm();
                R serr = fabsl(w->path_length(i, j) - y.s);
                R stol = tol + y.s * 1600 * dt / R0 * (1 + tanlat);
                std::ostringstream s;
                s << "step " << n << " de " << (*de)[i] << " az " << (*az)[j];
                c.check(err <= tol, "position",
                        s.str() + " is off by " + std::to_string((double)err) +
                            " m, tolerance " + std::to_string((double)tol));
                c.check(derr <= dtol, "direction",
                        s.str() + " is off by " + std::to_string((double)derr * 1e6) +
                            "e-6, tolerance " + std::to_string((double)dtol * 1e6) + "e-6");
                c.check(serr <= stol, "path-length",
                        s.str() + " is off by " + std::to_string((double)serr) +
                            " m, tolerance " + std::to_string((double)stol));
                // invariants
                R c_at = m.c((R)wposition::earth_radius - p.rho());
                R nd = sqrtl((R)d.rho() * d.rho() + (R)d.theta() * d.theta() +
                             (R)d.phi() * d.phi());
                c.close(nd * c_at, 1, dtol, 0, "direction-normalized", s.str());
                R snell = p.rho() * sqrtl((R)d.theta() * d.theta() + (R)d.phi() * d.phi());
                c.close(snell / R0 * c_at, snell0 / R0 * c_at, 2 * dtol + tol / R0, 0, "snell", s.str());
                R off = at.dot(circle.up0.cross(circle.head0));
                c.check(fabsl(off) <= tol, "great-circle", s.str());
                c.close(w->sound_speed(i, j), c_at, 2e-7, 0, "sound-speed", s.str());
            }
        }
        if (!any) break;
        if (n < steps) wave.step();
    }
    c.nontrivial(m.rate > 0 || steps > 20);
    c.label(m.name);
}

// sound speed that varies in every direction: linear and waves in space
class Field : public profile_model {
   public:
    R c0 = 1500, amp = 0;
    Vec at0, slope, wave;
    Field() : profile_model(attenuation_model::csptr(new attenuation_constant(0.0))) {}
    R c(const Vec &x, Vec *grad) const {
        Vec d = x - at0;
        R p = wave.dot(d);
        if (grad) *grad = slope + wave * (amp * cosl(p));
        return c0 + slope.dot(d) + amp * sinl(p);
    }
    void sound_speed(const wposition &at, boost::numeric::ublas::matrix<double> *speed,
                     wvector *gradient = nullptr) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                R r = at.rho(i, j), th = at.theta(i, j), ph = at.phi(i, j);
                Vec g;
                (*speed)(i, j) = c(ref::sph(r, th, ph), &g);
                if (gradient) {
                    gradient->rho(i, j, g.dot(ref::up_at(th, ph)));
                    gradient->theta(i, j, r * g.dot(ref::south_at(th, ph)));
                    gradient->phi(i, j, r * sinl(th) * g.dot(ref::east_at(th, ph)));
                }
            }
    }
};

LAW(P01, field_rays, 3000, 80000,
    "1-4 x 1-4 rays at any angles from any source location through water whose "
    "sound speed varies in every direction (a slope and waves of 1-20 km), 2-100 "
    "steps of 5 to 250 ms: position, direction and path length of every ray after every step, "
    "up to its first boundary contact, against the ray equations in Cartesian coordinates; "
    "non-trivial: a ray that the variation moves sideways by ten times the tolerance") {
    auto *field = new Field();
    profile_model::csptr profile(field);
    double depth = c.real(1000, 8000);
    boundary_model::csptr surface(new boundary_flat()), bottom(new boundary_flat(depth));
    ocean_model::csptr ocean(new ocean_model(surface, bottom, profile));
    double lat = c.real(-75, 75, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double z = c.real(1, depth - 1);
    wposition1 source(lat, lon, -z);
    R th = source.theta(), ph = source.phi();
    auto any = [&](R size) {
        R u = c.real(-0.3, 0.3), s = c.real(-1, 1), e = c.real(-1, 1);
        Vec v = ref::up_at(th, ph) * u + ref::south_at(th, ph) * s + ref::east_at(th, ph) * e;
        return v * (size / std::max<R>(0.1, v.norm()));
    };
    field->at0 = ref::sph(source.rho(), th, ph);
    field->c0 = c.real(1450, 1550);
    R slope = c.real(0, 0.004, {0.0}), length = c.logreal(1000, 20000), waves = c.real(0, 0.05, {0.0});
    field->slope = any(slope), field->wave = any(2 * M_PI / length);
    field->amp = std::min<R>(waves * length / (2 * M_PI), 30);
    auto de = gen_angles(c, 4, -85, 85, {0.0, 1e-3});
    auto az = gen_angles(c, 4, -180, 360, {0.0, 90.0, 180.0, 270.0});
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
    R most = slope + field->amp * 2 * M_PI / length, scale = 1500 * 2 * M_PI / length;
    double dt = std::min(c.logreal(0.005, 0.25), (double)(0.3 / scale));
    int steps = c.integer(2, 100);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z), c.note("depth", depth), c.note("dt", dt);
    c.note("steps", steps), c.note("slope", (double)slope), c.note("length", (double)length);
    c.note("amp", (double)field->amp);
    c.notev("de", *de, de->size()), c.notev("az", *az, az->size());
    wave_queue wave(ocean, freq, source, de, az, dt);
    struct Y {
        Vec x, p;
        R s;
    };
    auto rate_of = [&](const Y &y) {
        Vec g;
        R cc = field->c(y.x, &g);
        return Y{y.p * (cc * cc), g * (-1 / cc), cc};
    };
    auto add = [](const Y &y, const Y &d, R h) { return Y{y.x + d.x * h, y.p + d.p * h, y.s + d.s * h}; };
    size_t nde = de->size(), naz = az->size();
    std::vector<Y> ray(nde * naz);
    std::vector<bool> out(nde * naz, false);
    std::vector<Vec> head;
    for (size_t i = 0; i < nde; ++i)
        for (size_t j = 0; j < naz; ++j) {
            R g = ref::rad((*de)[i]), a = ref::rad((*az)[j]);
            Vec n = ref::up_at(th, ph) * sinl(g) + ref::south_at(th, ph) * (-cosl(g) * cosl(a)) +
                    ref::east_at(th, ph) * (cosl(g) * sinl(a));
            head.push_back(n);
            ray[i * naz + j] = Y{field->at0, n * (1 / field->c(field->at0, nullptr)), 0};
        }
    R earth = wposition::earth_radius, R0 = source.rho(), tanlat = fabsl(tanl(ref::rad(std::abs(lat) + 4)));
    double aside = 0;
    for (int n = 0; n <= steps; ++n) {
        R t = n * (R)dt, rate = most + 1600 / R0 * (2 + 2 * tanlat), all = rate + scale;
        R tol = 1e-5L + 20 * t * 1500 * rate * all * all * powl(dt, 3);
        R dtol = 1e-8L + 2 * t * rate * powl(all * dt, 3);
        const wave_front *w = wave.curr();
        bool some = false;
        for (size_t i = 0; i < nde; ++i)
            for (size_t j = 0; j < naz; ++j) {
                Y &y = ray[i * naz + j];
                if (out[i * naz + j]) continue;
                int parts = n ? std::max(2, (int)ceil(dt / 0.02)) : 0;
                for (int k = 0; k < parts; ++k) {
                    R h = (R)dt / parts;
                    Y a = rate_of(y), b = rate_of(add(y, a, h / 2)), e = rate_of(add(y, b, h / 2)),
                      f = rate_of(add(y, e, h));
                    y = add(add(add(add(y, a, h / 6), b, h / 3), e, h / 3), f, h / 6);
                }
                R r = y.x.norm();
                if (r > earth - 1e-3L || r < earth - depth + 1e-3L || w->surface(i, j) || w->bottom(i, j)) {
                    out[i * naz + j] = true;
                    continue;
                }
                some = true;
                std::ostringstream s;
                s << "step " << n << " de " << (*de)[i] << " az " << (*az)[j];
                wposition1 p(w->position, i, j);
                wvector1 d(w->ndirection, i, j);
                R cy = field->c(y.x, nullptr);
                R err = (ref::sph(p.rho(), p.theta(), p.phi()) - y.x).norm();
                R derr = (rt::tangent(p, d) - y.p).norm() * cy;
                R serr = fabsl(w->path_length(i, j) - y.s), stol = tol + y.s * 1600 * dt / R0 * (1 + tanlat);
                CAL("ferr", err, tol, s.str());
                CAL("fdir", derr, dtol, s.str());
                CAL("flen", serr, stol, s.str());
                c.close(err, 0, tol, 0, "field-position", s.str());
                c.close(derr, 0, dtol, 0, "field-direction", s.str());
                c.close(serr, 0, stol, 0, "field-length", s.str());
                Vec &q = head[i * naz + j], m = y.x - field->at0;
                Vec side = q.cross(ref::up_at(th, ph));
                if (side.norm() > 0.05) aside = std::max(aside, (double)(fabsl(m.dot(side.unit())) / tol));
            }
        if (!some) break;
        if (n < steps) wave.step();
    }
    c.nontrivial(aside > 10);
}
