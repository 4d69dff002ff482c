// P02: boundary reflection is specular, contained and fully accounted
#include <usml/eigenverbs/eigenverb_model.h>
#include <usml/ocean/ocean.h>
#include <usml/waveq3d/waveq3d.h>

#include <map>

#include "raytrace.h"

using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;

#include "calib.h"

struct Hit {
    double time, grazing, speed;
    wposition1 pos;
    wvector1 dir;
    bool surface;
};
class Hits : public reflection_listener {
   public:
    std::map<std::pair<size_t, size_t>, std::vector<Hit>> hits;
    bool other = false;
    void reflect(double time, size_t de, size_t az, double dt, double grazing,
                 double speed, const wposition1 &position,
                 const wvector1 &ndirection, size_t type) override {
        if (type > 1) other = true;
        (void)dt;
        hits[{de, az}].push_back(Hit{time, grazing, speed, position, ndirection,
                                     type == eigenverb_model::SURFACE});
    }
};

// loss that depends on angle, frequency and place
class smooth_loss : public reflect_loss_model {
   public:
    double a, b, p, q;
    smooth_loss(double a_, double b_, double p_, double q_)
        : a(a_), b(b_), p(p_), q(q_) {}
    // from 0 to 1, over a few km
    static double place(const wposition1 &at) { return 0.5 + 0.5 * sin(6e3 * at.theta() + 3e3 * sin(at.phi())); }
    double loss(double f, double g, const wposition1 &at) const {
        return a + b * sin(g) * f / 1000. + 2 * a * place(at);
    }
    double phase(double f, double g, const wposition1 &at) const {
        return p + q * cos(g) + f / 5e4 + 0.5 * place(at);
    }
    void reflect_loss(const wposition1 &at, const seq_vector::csptr &freq,
                      double angle, boost::numeric::ublas::vector<double> *amp,
                      boost::numeric::ublas::vector<double> *phs =
                          nullptr) const override {
        for (size_t f = 0; f < freq->size(); ++f) {
            (*amp)(f) = loss((*freq)[f], angle, at);
            if (phs) (*phs)(f) = phase((*freq)[f], angle, at);
        }
    }
};

static seq_vector::csptr gen_angles(Case &c, int max, double lo, double hi) {
    int N = c.integer(1, max);
    std::vector<double> v, out;
    for (int n = 0; n < N; ++n) v.push_back(c.real(lo, hi));
    std::sort(v.begin(), v.end());
    for (double x : v)
        if (out.empty() || x - out.back() > 1e-3) out.push_back(x);
    return seq_vector::csptr(new seq_data(out.data(), out.size()));
}

// bookkeeping that must agree with the reported contacts exactly
static void accounts(Case &c, const wave_front *w, size_t i, size_t j,
                     const std::vector<Hit> &hits, const seq_vector &freq,
                     const smooth_loss &top, const smooth_loss &bot,
                     const std::string &where) {
    int ns = 0, nb = 0;
    for (auto &h : hits) (h.surface ? ns : nb)++;
    c.equal(w->surface(i, j), ns, "surface-count", where);
    c.equal(w->bottom(i, j), nb, "bottom-count", where);
    for (size_t f = 0; f < freq.size(); ++f) {
        // a fold of the wavefront takes 90 degrees
        double a = 0, p = -M_PI_2 * w->caustic(i, j);
        for (auto &h : hits) {
            const smooth_loss &m = h.surface ? top : bot;
            a += m.loss(freq[f], h.grazing, h.pos);
            p += h.surface ? -M_PI : m.phase(freq[f], h.grazing, h.pos);
        }
        c.close(w->attenuation(i, j)(f), a, 1e-9, 1e-11, "loss", where);
        c.close(w->phase(i, j)(f), p, 1e-9, 1e-11, "phase", where);
    }
}

LAW(P02, flat_contacts, 10000, 200000,
    "1-5 x 1-3 rays from any source through any smooth profile over a flat "
    "bottom of 200-5000 m, 5-120 steps of 5-150 ms, losses that vary with place, 1-3 "
    "frequencies: every contact (time, place, angle), position, counts, "
    "vertices, loss and phase against independently traced rays, until a "
    "contact within 1.5 degrees of grazing; non-trivial: a ray with two "
    "contacts or more") {
    auto m = rt::gen_medium(c);
    double depth = c.logreal(200, 5000);
    double lat = c.real(-75, 75, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double z = c.real(0.5, depth - 0.5);
    smooth_loss top(c.real(0, 3), c.real(0, 3), 0, 0),
        bot(c.real(0, 3), c.real(0, 3), c.real(-3, 3), c.real(-1, 1));
    auto *sm = new smooth_loss(top), *bm = new smooth_loss(bot);
    boundary_model::csptr surface(
        new boundary_flat(0.0, reflect_loss_model::csptr(sm)));
    boundary_model::csptr bottom(
        new boundary_flat(depth, reflect_loss_model::csptr(bm)));
    ocean_model::csptr ocean(new ocean_model(surface, bottom, m.model));
    wposition1 source(lat, lon, -z);
    auto de = gen_angles(c, 5, -89, 89), az = gen_angles(c, 3, -180, 360);
    seq_vector::csptr freq(
        new seq_linear(c.real(100, 5000), 500.0, c.integer(1, 3)));
    double dt = c.logreal(0.005, 0.15);
    if (m.rate > 0) dt = std::min(dt, (double)(0.05 / m.rate));
    if (m.scale > 0) dt = std::min(dt, (double)(0.15 / m.scale));
    dt = std::min(dt, depth / 1500 / 3);
    int steps = c.integer(5, 120);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("dt", dt), c.note("steps", steps);
    c.notev("de", *de, de->size()), c.notev("az", *az, az->size());
    wave_queue wave(ocean, freq, source, de, az, dt);
    Hits log;
    wave.add_reflection_listener(&log);
    R R0 = wposition::earth_radius, tanlat = fabsl(tanl(ref::rad(std::abs(lat) + 5)));
    R rate = m.rate + 1600 / R0 * (2 + 2 * tanlat), all = rate + m.scale;
    std::vector<rt::Ray> ray(de->size());
    std::vector<bool> lost(de->size(), false);
    for (size_t i = 0; i < de->size(); ++i) {
        ray[i] = rt::Ray(m, source.rho(), ref::rad((*de)[i]), R0, R0 - depth);
        ray[i].h = std::min<R>(0.02, dt / 2);
    }
    size_t most = 0;
    for (int n = 1; n <= steps; ++n) {
        wave.step();
        const wave_front *w = wave.curr();
        R t = n * (R)dt;
        for (size_t i = 0; i < de->size(); ++i) {
            if (lost[i]) continue;
            ray[i].to(t);
            // error of a contact: curvature within the step
            R tol = 1e-4L + 20 * t * 1500 * rate * all * all * powl(dt, 3);
            R ttol = 1e-7L + tol / 1500;
            R dtol = 1e-7L + 3 * t * rate * powl(all * dt, 3);
            for (auto &h : ray[i].hits) {
                R sg = fabsl(sinl(h.gamma));
                if (sg < 0.026 || rate * dt > 0.3 * sg) lost[i] = true;
                R miss = 0.5 * 1500 * rate * dt * dt;  // height error
                tol += 4 * miss / sg;
                ttol += 2 * miss / sg / 1500;
                dtol += 4 * rate * miss / sg / 1500 ;
            }
            // vertices close to a boundary may or may not touch it
            if (ray[i].near_vertex < tol + 1500 * dt * 0.03) lost[i] = true;
            if (lost[i]) continue;
            rt::State y = ray[i].y;
            most = std::max(most, ray[i].hits.size());
            for (size_t j = 0; j < az->size(); ++j) {
                std::ostringstream s;
                s << "step " << n << " de " << (*de)[i] << " az " << (*az)[j];
                auto &hits = log.hits[{i, j}];
                accounts(c, w, i, j, hits, *freq, top, bot, s.str());
                // contacts close to the end of this step belong to either
                size_t sure = 0;
                for (auto &h : ray[i].hits) sure += h.t < t - ttol;
                R soon = 0;
                {
                    rt::Ray peek = ray[i];
                    peek.to(t + ttol);
                    soon = peek.hits.size();
                }
                c.check(hits.size() >= sure && hits.size() <= soon,
                        "contact-count",
                        s.str() + " has " + std::to_string(hits.size()) +
                            " contacts, " + std::to_string(sure) + " expected");
                rt::Circle circle(source, (*az)[j]);
                for (size_t k = 0; k < std::min(hits.size(), ray[i].hits.size()); ++k) {
                    auto &h = hits[k];
                    auto &e = ray[i].hits[k];
                    c.equal(h.surface, e.surface, "contact-type", s.str());
                    R sg = fabsl(sinl(e.gamma));
                    Vec at = ref::sph(h.pos.rho(), h.pos.theta(), h.pos.phi());
                    rt::State ey;
                    ey.psi = e.psi, ey.r = e.r, ey.gamma = e.gamma;
                    R err = (at - circle.point(ey)).norm();
                    CAL("ctime", fabsl(h.time - e.t), ttol, s.str());
                    CAL("cpos", err, tol, s.str());
                    CAL("cgraz", fabsl(fabsl(e.gamma) - h.grazing), dtol + 2 * rate * dt, s.str());
                    c.close(h.time, e.t, ttol, 0, "contact-time", s.str());
                    c.close(err, 0, tol, 0, "contact-place", s.str());
                    c.close(h.grazing, fabsl(e.gamma), dtol + 1.1 * rate * dt, 0,
                            "contact-angle", s.str());
                    c.close(h.speed, e.c, 1e-6 + 1.1 * m.rate * tol + 1500 * m.rate * dt * all * dt * all * dt, 0,
                            "contact-speed", s.str());
                    Vec dir = rt::tangent(h.pos, h.dir).unit();
                    c.close((dir - circle.direction(ey)).norm(), 0, dtol + 1.1 * rate * dt , 0,
                            "contact-direction", s.str());
                    (void)sg;
                }
                if (hits.size() != ray[i].hits.size()) continue;
                wposition1 p(w->position, i, j);
                wvector1 d(w->ndirection, i, j);
                R err = (ref::sph(p.rho(), p.theta(), p.phi()) - circle.point(y)).norm();
                R cy = m.c(R0 - y.r);
                R derr = (rt::tangent(p, d) * cy - circle.direction(y)).norm();
                CAL("pos", err, tol, s.str());
                CAL("dir", derr, dtol, s.str());
                c.close(err, 0, tol, 0, "position", s.str());
                c.close(derr, 0, dtol, 0, "direction", s.str());
                c.check(p.altitude() <= tol && p.altitude() >= -depth - tol, "contained", s.str());
                c.close(w->path_length(i, j), y.s, tol + y.s * 1600 * dt / R0 * (1 + tanlat), 0,
                        "path-length", s.str());
                // vertices of this ray, unless one is happening just now
                if (fabsl(y.gamma) > dtol) {
                    c.equal(w->upper(i, j), ray[i].upper, "upper", s.str());
                    c.equal(w->lower(i, j), ray[i].lower, "lower", s.str());
                }
            }
        }
    }
    c.check(!log.other, "interface-type");
    c.nontrivial(most >= 2);
    c.label(m.name);
}

//--------------------------------------------------------------------------
// straight lines over a sloped bottom

struct Line {
    Vec at, dir;  // unit direction
    R t = 0, s = 0;
    R c = 1500;
    struct Bounce {
        R t, grazing, depth;
        Vec at, in;
        bool surface;
    };
    std::vector<Bounce> hits;
    const boundary_model *bottom = nullptr;
    static wposition1 where(const Vec &v) {
        wposition1 p;
        R r = v.norm();
        p.rho(r);
        p.theta(std::acos(v.z / r));
        p.phi(std::atan2(v.y, v.x));
        return p;
    }
    R under_bottom(const Vec &v) const {
        double h;
        bottom->height(where(v), &h, nullptr);
        return h - v.norm();
    }
    // positive outside of the water
    R outside(const Vec &v) const {
        return std::max<R>(v.norm() - (R)wposition::earth_radius,
                           under_bottom(v));
    }
    void to(R end, R step) {
        while (t < end - 1e-12L) {
            R h = std::min(step, end - t);
            Vec n = at + dir * (c * h);
            if (outside(n) <= 0) {
                at = n, t += h, s += c * h;
                continue;
            }
            R lo = 0, hi = h;
            for (int k = 0; k < 50; ++k) {
                R mid = (lo + hi) / 2;
                (outside(at + dir * (c * mid)) > 0 ? hi : lo) = mid;
            }
            at = at + dir * (c * lo), t += lo, s += c * lo;
            Bounce b;
            b.t = t, b.at = at, b.in = dir;
            Vec a = at + dir * (c * (hi - lo) + 1e-7L);
            b.surface = a.norm() - (R)wposition::earth_radius > under_bottom(a);
            wposition1 p = where(at);
            Vec normal;
            double hgt;
            wvector1 nv;
            bottom->height(p, &hgt, &nv);
            b.depth = (R)wposition::earth_radius - hgt;
            normal = b.surface ? at.unit() * -1 : rt::tangent(p, nv).unit();
            R dn = dir.dot(normal);
            b.grazing = asinl(std::min<R>(1, -dn));
            hits.push_back(b);
            dir = dir - normal * (2 * dn);
            // step off the boundary
            at = at + normal * 1e-9L;
            if (b.grazing < 0.01) return;
        }
    }
};

LAW(P02, sloped_contacts, 8000, 200000,
    "1-5 x 1-4 rays at any angle in isovelocity water over a bottom with a "
    "constant slope of up to 15 degrees in latitude or longitude, 3-60 steps "
    "of 5-100 ms, losses that vary with place: contacts (time, place, angle, incident "
    "direction), position and direction after each step, counts, loss and "
    "phase, against exact straight lines in three dimensions, until a contact "
    "within 2 degrees of grazing or in water of less than 450 m/s times the "
    "step; non-trivial: a ray with a bottom and a later contact") {
    auto m = rt::gen_medium(c, 0);
    double depth = c.logreal(300, 4000);
    double lat = c.real(-70, 70, {0.0, 45.0}), lon = c.real(-179, 179);
    // its documented normal is exact for a slope in one direction
    double slat = c.real(-15, 15, {0.0}), slon = 0;
    if (c.flip()) std::swap(slat, slon);
    smooth_loss top(c.real(0, 3), c.real(0, 3), 0, 0),
        bot(c.real(0, 3), c.real(0, 3), c.real(-3, 3), c.real(-1, 1));
    auto *sm = new smooth_loss(top), *bm = new smooth_loss(bot);
    boundary_model::csptr surface(
        new boundary_flat(0.0, reflect_loss_model::csptr(sm)));
    wposition1 origin(lat, lon, 0.0);
    boundary_model::csptr bottom(
        new boundary_slope(origin, depth, ref::rad(slat), ref::rad(slon),
                           reflect_loss_model::csptr(bm)));
    ocean_model::csptr ocean(new ocean_model(surface, bottom, m.model));
    // source near to where the depth is given
    wposition1 source(lat + c.real(-1, 1) * depth / 111e3,
                      lon + c.real(-1, 1) * depth / 111e3, 0.0);
    double h;
    bottom->height(source, &h, nullptr);
    double there = wposition::earth_radius - h;
    double z = there * c.real(0.02, 0.98);
    source.altitude(-z);
    auto de = gen_angles(c, 5, -89, 89), az = gen_angles(c, 4, -180, 360);
    seq_vector::csptr freq(
        new seq_linear(c.real(100, 5000), 500.0, c.integer(1, 3)));
    double dt = std::min(c.logreal(0.005, 0.1), there / 1500 / 3);
    int steps = c.integer(3, 60);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("there", there), c.note("slat", slat);
    c.note("slon", slon), c.note("dt", dt), c.note("steps", steps);
    c.notev("de", *de, de->size()), c.notev("az", *az, az->size());
    wave_queue wave(ocean, freq, source, de, az, dt);
    Hits log;
    wave.add_reflection_listener(&log);
    R R0 = wposition::earth_radius, c0 = m.c(0);
    std::vector<Line> line(de->size() * az->size());
    std::vector<bool> lost(line.size(), false);
    for (size_t i = 0; i < de->size(); ++i)
        for (size_t j = 0; j < az->size(); ++j) {
            Line &l = line[i * az->size() + j];
            rt::Circle circle(source, (*az)[j]);
            rt::State y;
            y.r = source.rho(), y.gamma = ref::rad((*de)[i]);
            l.at = circle.point(y), l.dir = circle.direction(y);
            l.c = c0, l.bottom = bottom.get();
        }
    size_t most = 0;
    for (int n = 1; n <= steps; ++n) {
        wave.step();
        const wave_front *w = wave.curr();
        R t = n * (R)dt;
        for (size_t i = 0; i < de->size(); ++i)
            for (size_t j = 0; j < az->size(); ++j) {
                size_t id = i * az->size() + j;
                if (lost[id]) continue;
                Line &l = line[id];
                l.to(t, dt / 3);
                R tanlat = fabsl(tanl(ref::rad(std::abs(lat) + 3)));
                R rate = 1600 / R0 * (2 + 2 * tanlat);
                R tol = 1e-4L + 20 * t * 1500 * powl(rate * dt, 3) ;
                R ttol = 1e-7L + tol / 1500, dtol = 1e-7L;
                R last = 0;
                for (auto &b : l.hits) {
                    // contacts at a grazing angle, or two in a step, are
                    // beyond the method, as are shallow places
                    if (b.grazing < 0.035 || b.depth < 450 * dt * 1.1 + 1) lost[id] = true;
                    R miss = 2 * 1500 * rate * dt * dt + 1e-3;
                    R sg = sinl(b.grazing);
                    tol += 8 * miss / sg;
                    ttol += 4 * miss / sg / 1500;
                    dtol += 8 * miss / R0 / sg + 1e-6;
                    if (b.t - last < 1.02 * dt && last > 0) lost[id] = true;
                    last = b.t;
                }
                // a contact that is just about to come, or to be missed
                Line peek = l;
                peek.to(t + ttol + dt * 0.01, dt / 3);
                if (peek.hits.size() > l.hits.size()) {
                    if (peek.hits.back().grazing < 0.05) lost[id] = true;
                    peek = l;
                    peek.to(t + ttol, dt / 3);
                }
                if (lost[id]) continue;
                size_t sure = 0;
                bool bottomed = false;
                for (auto &b : l.hits) {
                    sure += b.t < t - ttol;
                    if (bottomed) most = std::max(most, l.hits.size());
                    if (!b.surface) bottomed = true;
                }
                auto &hits = log.hits[{i, j}];
                std::ostringstream s;
                s << "step " << n << " de " << (*de)[i] << " az " << (*az)[j];
                accounts(c, w, i, j, hits, *freq, top, bot, s.str());
                c.check(hits.size() >= sure && hits.size() <= peek.hits.size(),
                        "contact-count",
                        s.str() + " has " + std::to_string(hits.size()) +
                            " contacts, " + std::to_string(sure) + " expected");
                for (size_t k = 0; k < std::min(hits.size(), l.hits.size()); ++k) {
                    auto &h = hits[k];
                    auto &e = l.hits[k];
                    c.equal(h.surface, e.surface, "contact-type", s.str());
                    Vec at = ref::sph(h.pos.rho(), h.pos.theta(), h.pos.phi());
                    Vec in = rt::tangent(h.pos, h.dir).unit();
                    CAL("ctime", fabsl(h.time - e.t), ttol, s.str());
                    CAL("cpos", (at - e.at).norm(), tol, s.str());
                    CAL("cgraz", fabsl(e.grazing - h.grazing), dtol + rate * dt, s.str());
                    CAL("cdir", (in - e.in).norm(), dtol + rate * dt, s.str());
                    c.close(h.time, e.t, ttol, 0, "contact-time", s.str());
                    c.close((at - e.at).norm(), 0, tol, 0, "contact-place", s.str());
                    c.close((in - e.in).norm(), 0, dtol + rate * dt, 0,
                            "contact-direction", s.str());
                    c.close(h.grazing, e.grazing, 2 * (dtol + rate * dt), 0,
                            "contact-angle", s.str());
                    c.close(h.speed, c0, 1e-6, 0, "contact-speed", s.str());
                }
                if (hits.size() != l.hits.size()) continue;
                wposition1 p(w->position, i, j);
                wvector1 d(w->ndirection, i, j);
                R err = (ref::sph(p.rho(), p.theta(), p.phi()) - l.at).norm();
                R derr = (rt::tangent(p, d) * c0 - l.dir).norm();
                CAL("pos", err, tol, s.str());
                CAL("dir", derr, dtol, s.str());
                c.close(err, 0, tol, 0, "position", s.str());
                c.close(derr, 0, dtol, 0, "direction", s.str());
                double floor;
                bottom->height(p, &floor, nullptr);
                c.check(p.altitude() <= tol && p.rho() >= floor - tol,
                        "contained", s.str());
            }
    }
    c.check(!log.other, "interface-type");
    c.nontrivial(most >= 2);
}

// rows of hills in any direction
class Hills : public boundary_model {
   public:
    double depth, high, south, east, theta0, phi0;
    Hills() : boundary_model(reflect_loss_model::csptr(new reflect_loss_constant(0.0))) {}
    void height(const wposition &at, boost::numeric::ublas::matrix<double> *rho,
                wvector *normal) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                double r;
                wvector1 n;
                height(wposition1(at, i, j), &r, &n);
                (*rho)(i, j) = r;
                if (normal) {
                    normal->rho(i, j, n.rho());
                    normal->theta(i, j, n.theta());
                    normal->phi(i, j, n.phi());
                }
            }
    }
    void height(const wposition1 &at, double *rho, wvector1 *n) const override {
        double p = south * (at.theta() - theta0) + east * remainder(at.phi() - phi0, 2 * M_PI);
        *rho = wposition::earth_radius - depth + high * sin(p);
        if (n) {
            double k = high * cos(p) / *rho;
            double a = -k * south, b = -k * east / sin(at.theta());
            double N = sqrt(1 + a * a + b * b);
            n->rho(1 / N), n->theta(a / N), n->phi(b / N);
        }
    }
};

LAW(P02, curved_contacts, 8000, 200000,
    "1-5 x 1-4 rays at any angle in isovelocity water over rows of hills in any "
    "direction, with slopes of up to 15 degrees that change within a few steps, "
    "3-60 steps of 5-100 ms: each contact lies on the bottom, its grazing angle "
    "is the one to the slope there, and the ray leaves it as the mirror image "
    "about the normal there; non-trivial: a contact where the slope differs by "
    "a degree or more from that below the start of its step") {
    auto m = rt::gen_medium(c, 0);
    auto *h = new Hills();
    double depth = c.logreal(500, 4000);
    double lat = c.real(-70, 70, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double dt = std::min(c.logreal(0.005, 0.1), depth / 1500 / 4);
    // distance between hills in steps, direction, steepest slope
    double wave_length = 1500 * dt * c.logreal(8, 80), toward = c.real(0, 360, {0.0, 90.0});
    double slope = tan(ref::rad(c.real(2, 15)));
    wposition1 source(lat, lon, -depth * c.real(0.1, 0.7));
    double k = 2 * M_PI / wave_length * wposition::earth_radius;
    h->depth = depth, h->high = std::min(slope * wave_length / (2 * M_PI), 0.2 * depth);
    h->south = k * cos(ref::rad(toward)), h->east = k * sin(ref::rad(toward)) * sin(source.theta());
    h->theta0 = source.theta() + c.real(-M_PI, M_PI) / k, h->phi0 = source.phi();
    boundary_model::csptr bottom(h), surface(new boundary_flat());
    ocean_model::csptr ocean(new ocean_model(surface, bottom, m.model));
    auto de = gen_angles(c, 5, -89, 60), az = gen_angles(c, 4, -180, 360);
    seq_vector::csptr freq(new seq_linear(1000.0, 500.0, 1));
    int steps = c.integer(3, 60);
    c.note("lat", lat), c.note("lon", lon), c.note("depth", depth), c.note("dt", dt);
    c.note("altitude", source.altitude()), c.note("wave_length", wave_length);
    c.note("toward", toward), c.note("high", h->high), c.note("steps", steps);
    c.notev("de", *de, de->size()), c.notev("az", *az, az->size());
    wave_queue wave(ocean, freq, source, de, az, dt);
    Hits log;
    wave.add_reflection_listener(&log);
    R c0 = m.c(0);
    // how far from a straight line in a step, and how far the bottom bends
    R rate = 1600 / (R)wposition::earth_radius * (2 + 2 * fabsl(tanl(ref::rad(std::abs(lat) + 3))));
    R step = 1600 * dt, bend = (R)h->high * powl(2 * M_PI / wave_length, 2);
    double most = 0;
    for (int n = 0; n < steps; ++n) {
        std::map<std::pair<size_t, size_t>, std::pair<size_t, wposition1>> before;
        for (size_t i = 0; i < de->size(); ++i)
            for (size_t j = 0; j < az->size(); ++j)
                before[{i, j}] = {log.hits[{i, j}].size(), wposition1(wave.curr()->position, i, j)};
        wave.step();
        for (size_t i = 0; i < de->size(); ++i)
            for (size_t j = 0; j < az->size(); ++j) {
                auto &hits = log.hits[{i, j}];
                auto &old = before[{i, j}];
                if (hits.size() != old.first + 1 || hits.back().surface) continue;
                const Hit &e = hits.back();
                std::ostringstream s;
                s << "step " << n << " de " << (*de)[i] << " az " << (*az)[j];
                double floor, below;
                wvector1 normal, start;
                h->height(e.pos, &floor, &normal);
                h->height(old.second, &below, &start);
                Vec N = rt::tangent(e.pos, normal).unit(), in = rt::tangent(e.pos, e.dir).unit();
                R graze = asinl(-in.dot(N));
                if (graze < 0.2) continue;  // nearly along the slope
                // straight on to the bottom as it is below the start
                R off = bend * step * step + 8 * 1500 * rate * dt * dt + 1e-3;
                R steep = fabsl(in.dot(ref::up_at(e.pos.theta(), e.pos.phi())));
                if (graze > 0.5 && steep > 0.5) {
                    CAL("hoff", fabsl(floor - e.pos.rho()), off, s.str());
                    c.close(e.pos.rho(), floor, off, 0, "hill-place", s.str());
                }
                CAL("hgraze", fabsl(e.grazing - graze), 1e-6, s.str());
                c.close(e.grazing, graze, 1e-6, 0, "hill-angle", s.str());
                wposition1 p(wave.curr()->position, i, j);
                wvector1 d(wave.curr()->ndirection, i, j);
                Vec out = rt::tangent(p, d) * c0, want = in - N * (2 * in.dot(N));
                CAL("hdir", (out - want).norm(), 1e-6, s.str());
                c.close((out - want).norm(), 0, 1e-6, 0, "hill-direction", s.str());
                Vec S = rt::tangent(e.pos, start).unit();
                most = std::max(most, (double)(N - S).norm());
            }
    }
    c.nontrivial(most > 0.0175);
}
