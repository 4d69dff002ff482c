// P03: eigenrays are exactly the acoustic paths to each target
#include <usml/ocean/ocean.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_rayfan.h>
#include <usml/waveq3d/waveq3d.h>

#include "eigref.h"
#include "calib.h"
#include "onray.h"

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;

// launch fan
struct Fan {
    seq_vector::csptr de, az;
    bool circle = false, uniform = true;
    double daz = 0;
};

static Fan gen_fan(Case &c, double toward, double &reach) {
    Fan f;
    reach = c.real(20, 85);
    double lo = -reach, hi = c.flip(0.8) ? reach : c.real(5, 85);
    double step = c.logreal(0.4, 2.5);
    int N = std::max(8, (int)((hi - lo) / step));
    if (c.flip(0.8))
        f.de.reset(new seq_linear(lo, (hi - lo) / (N - 1), N));
    else
        f.de.reset(new seq_rayfan(lo, hi, N)), f.uniform = false;
    f.circle = c.flip(0.4);
    if (f.circle) {
        f.daz = c.pick<double>({10.0, 15.0, 15.0, 30.0});
        double first = c.pick<double>({0.0, -180.0, 0.0, -90.0});
        f.az.reset(new seq_linear(first, f.daz, (size_t)(360 / f.daz) + 1));
    } else {
        f.daz = c.logreal(0.2, 10.0);
        size_t n = c.integer(5, 9);
        f.az.reset(new seq_linear(
            toward - f.daz * (n - 1) / 2 + f.daz * c.real(-0.5, 0.5), f.daz, n));
    }
    c.note("de0", (*f.de)(0)), c.note("de1", (*f.de)(f.de->size() - 1));
    c.note("nde", f.de->size()), c.note("az0", (*f.az)(0));
    c.note("daz", f.daz), c.note("naz", f.az->size());
    return f;
}

// index of the ray whose cell holds the angle
static int nearest(const seq_vector &s, R x) {
    int best = 0;
    for (size_t n = 1; n < s.size(); ++n)
        if (fabsl(s(n) - x) < fabsl(s(best) - x)) best = n;
    return best;
}

LAW(P03, image_paths, 2000, 60000,
    "isovelocity water of 100-5000 m, 1-6 targets at any bearing and 50 m to "
    "20 km from any source, fans of 0.3-2 degrees by 0.2-30 degrees, "
    "all around or towards the targets, steps of 5-100 ms: every path of the "
    "image method that the fan resolves is reported once with its time, angles "
    "and counts, and every eigenray is on a path; non-trivial: three resolved "
    "paths or more") {
    auto m = rt::gen_medium(c, 0);
    R c0 = m.c(0), R0 = wposition::earth_radius;
    double depth = c.logreal(100, 5000);
    double lat = c.real(-75, 75, {0.0, 45.0}),
           lon = c.real(-180, 180, {180.0, 0.0});
    double z = depth * c.real(0.02, 0.98);
    ocean_model::csptr ocean(new ocean_model(
        boundary_model::csptr(new boundary_flat(0.0)),
        boundary_model::csptr(new boundary_flat(depth)), m.model));
    wposition1 source(lat, lon, -z);
    double toward = c.real(-180, 180, {0.0, 180.0});
    double reach;
    Fan fan = gen_fan(c, toward, reach);
    // targets
    size_t n1 = c.integer(1, 3), n2 = c.integer(1, 2);
    wposition targets(n1, n2);
    double far = c.logreal(std::min(1000.0, depth), 20000);
    for (size_t i = 0; i < n1; ++i)
        for (size_t j = 0; j < n2; ++j) {
            double bearing = fan.circle ? c.real(-180, 180, {180.0, 0.0})
                                        : toward + fan.daz * c.real(-1, 1);
            double range = c.real(0.05 * far + 50, far + 50);
            double zt = depth * c.real(0.02, 0.98);
            rt::Circle g(source, bearing);
            Vec u = g.up(range / R0);
            targets.rho(i, j, R0 - zt);
            targets.theta(i, j, std::acos(u.z));
            targets.phi(i, j, std::atan2(u.y, u.x));
            c.note("range", range), c.note("zt", zt), c.note("bearing", bearing);
        }
    double dt = c.logreal(0.005, 0.1);
    dt = std::min(dt, depth / 1500 / 4);
    // until some of the later paths
    double end = 1.2 * far / 1500 + depth / 1500 * c.real(0, 4);
    end = std::min(end, 30 * depth / 1500);
    int most = 500000 / (int)(fan.de->size() * fan.az->size());
    int steps = std::min({400, most, (int)(end / dt)});
    dt = std::min({end / steps, 0.12, depth / 1500 / 3});
    end = steps * dt;
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("dt", dt), c.note("steps", steps);
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
    wave_queue wave(ocean, freq, source, fan.de, fan.az, dt, &targets,
                    wave_queue::CLASSIC_RAY);
    eig::Listener log;
    wave.add_eigenray_listener(&log);
    for (int n = 0; n <= steps; ++n) wave.step();
    int found = 0;
    R lo = (*fan.de)(0), hi = (*fan.de)(fan.de->size() - 1);
    for (size_t i = 0; i < n1; ++i)
        for (size_t j = 0; j < n2; ++j) {
            Vec su = ref::up_at(source.theta(), source.phi());
            Vec tu = ref::up_at(targets.theta(i, j), targets.phi(i, j));
            R psi = ref::angle(su, tu);
            R rt = targets.rho(i, j), rs = source.rho();
            // bearings there and on arrival
            Vec head = (tu - su * su.dot(tu)).unit();
            R b0 = ref::deg(std::atan2(head.dot(ref::east_at(source.theta(), source.phi())),
                              head.dot(ref::north_at(source.theta(), source.phi()))));
            Vec back = (tu * tu.dot(su) - su).unit();
            R b1 = ref::deg(std::atan2(back.dot(ref::east_at(targets.theta(i, j), targets.phi(i, j))),
                              back.dot(ref::north_at(targets.theta(i, j), targets.phi(i, j)))));
            auto all = eig::paths(rs, rt, psi, lo - 2, hi + 2, 1.1 * end + 4 * dt, R0, R0 - depth, c0);
            auto &got = log.rays[{i, j}];
            std::vector<int> used(got.size(), 0);
            for (auto &e : all) {
                // does the fan resolve it?
                int k = nearest(*fan.de, e.source_de), last = fan.de->size() - 1;
                bool ok = k >= 2 && k <= last - 2 && e.t > 2 * dt && e.t < end - 2 * dt;
                R daz = fan.daz, step = fan.de->increment(k);
                R saz = 1e9;
                for (size_t a = 0; a < fan.az->size(); ++a)
                    saz = std::min(saz, fabsl(ref::angdiff((*fan.az)(a), b0)));
                if (!fan.circle) {
                    R off = ref::angdiff(b0, (*fan.az)(0));
                    if (off < 0) off += 360;
                    if (off < daz || off > daz * (fan.az->size() - 2)) ok = false;
                }
                std::string h;
                for (int q = -3; ok && q <= 2; ++q) {
                    R launch = q < -2 ? e.source_de : (R)(*fan.de)(k + q);
                    eig::Path p(rs, ref::rad(launch), e.t + 3 * dt, R0, R0 - depth, c0);
                    std::string a = p.history(e.t - 2.5 * dt), b = p.history(e.t + 2.5 * dt);
                    if (q == -3) h = a;
                    if (a != h || b != h) ok = false;
                }
                if (!ok) continue;
                // shift of the closest point for the nearest ray off the path
                R g = ref::rad(e.source_de), r = e.t * c0;
                R eaz = ref::rad(std::min<R>(saz, daz)), ede = ref::rad(step / 2);
                R shift_de = sinl(2 * g) / 4 * eaz * eaz / ref::rad(step);
                R shift_t = r / c0 * (eaz * eaz * cosl(g) * cosl(g) + ede * ede) / 2 / dt;
                // close to the edge of a cell the search falls back to a rough
                // estimate
                R frac = e.t / dt - roundl(e.t / dt), slack = 0.4;
                bool stable = fabsl(shift_de) < 0.1 && shift_t < 0.1 &&
                              fabsl(frac) < slack && saz < slack * daz &&
                              fabsl(e.source_de - (*fan.de)(k)) < slack * step;
                std::ostringstream s;
                s << "target " << i << "," << j << " path " << (e.up ? "up" : "down") << e.surface << e.bottom << e.lower << " t "
                  << (double)e.t << " de " << (double)e.source_de << " az "
                  << (double)b0 << " saz " << (double)saz << " shift " << (double)shift_de << " " << (double)shift_t;
                // a coarse fan smears
                R wide = 1.3 + (stable ? 0 : 0.3 * std::min(saz, daz) / step);
                R late = (1.5 + 2 * shift_t) * dt;
                int hits = 0, which = -1, twins = 0;
                for (auto &x : all)
                    twins += x.surface == e.surface && x.bottom == e.bottom &&
                             fabsl(x.source_de - e.source_de) < 2 * wide * step &&
                             fabsl(x.t - e.t) < 2 * late;
                for (size_t q = 0; q < got.size(); ++q) {
                    auto &y = *got[q];
                    if (y.surface == e.surface && y.bottom == e.bottom &&
                        y.lower == e.lower &&
                        fabsl(y.source_de - e.source_de) < wide * step &&
                        fabsl(y.travel_time - e.t) < late)
                        if (which < 0 || fabsl(y.travel_time - e.t) <
                                             fabsl(got[which]->travel_time - e.t))
                            which = q;
                    hits += y.surface == e.surface && y.bottom == e.bottom &&
                            fabsl(y.source_de - e.source_de) < wide * step &&
                            fabsl(y.travel_time - e.t) < late;
                }
                ++found;
                if (which < 0 || hits > twins)
                    for (auto &y : got)
                        if (fabsl(y->source_de - e.source_de) < 3 * step)
                            s << "; got t " << y->travel_time << " de "
                              << y->source_de << " az " << y->source_az
                              << " counts " << y->surface << "=" << e.surface << y->bottom << "=" << e.bottom << "v" << e.lower << "step" << (double)step
                              << y->lower;
                c.check(which >= 0, "missing", s.str());
                c.check(hits <= twins, "duplicate", s.str());
                if (which < 0) continue;
                auto &y = *got[which];
                R ttol = stable ? (0.03 + (fan.uniform ? 1.5 : 3) * shift_t) * dt : late;
                R dtol = stable ? (fan.uniform ? 0.02 + 1.5 * fabsl(shift_de) + 0.3 * dt / e.t : 0.5) * step
                                : wide * step;
                R atol = (stable ? 0.1 : 0.2) * daz;
                R ee[5] = {fabsl(y.travel_time - e.t), fabsl(y.source_de - e.source_de),
                           fabsl(y.target_de - e.target_de),
                           fabsl(ref::angdiff(y.source_az, b0)),
                           fabsl(ref::angdiff(y.target_az, b1))};
                CAL(stable ? "time-s" : "time-u", ee[0], ttol, s.str());
                CAL(stable ? fan.uniform ? "sde-s" : "sde-n" : "sde-u", ee[1], dtol, s.str());
                CAL(stable ? fan.uniform ? "tde-s" : "tde-n" : "tde-u", ee[2], dtol, s.str());
                CAL(stable ? "saz-s" : "saz-u", ee[3], atol, s.str());
                CAL(stable ? "taz-s" : "taz-u", ee[4], atol, s.str());
                c.close(ee[0], 0, ttol, 0, "travel-time", s.str());
                c.close(ee[1], 0, dtol, 0, "source-de", s.str());
                c.close(ee[2], 0, dtol, 0, "target-de", s.str());
                c.close(ee[3], 0, atol, 0, "source-az", s.str());
                c.close(ee[4], 0, atol, 0, "target-az", s.str());
                c.equal(y.caustic, 0, "caustic", s.str());
                c.equal(y.upper, 0, "upper", s.str());
            }
            for (auto &y : got) {
                std::ostringstream s;
                s << "target " << i << "," << j << " has t " << y->travel_time
                  << " de " << y->source_de << " az " << y->source_az
                  << " counts " << y->surface << y->bottom << y->lower << " bearing " << (double)b0;
                int k = nearest(*fan.de, y->source_de);
                R step = fan.de->increment(k), best = 1e9, daz = fan.daz;
                // rays of one history around it
                bool ok = k >= 3 && k + 4 <= (int)fan.de->size();
                std::string h;
                for (int q = -3; ok && q <= 3; ++q) {
                    eig::Path p(rs, ref::rad((*fan.de)(k + q)), y->travel_time + 4 * dt, R0, R0 - depth, c0);
                    std::string a = p.history(y->travel_time - 2.5 * dt), b = p.history(y->travel_time + 2.5 * dt);
                    if (q == -3) h = a;
                    if (a != h || b != h) ok = false;
                }
                if (!ok) continue;
                for (auto &e : all) {
                    if (e.surface != y->surface || e.bottom != y->bottom) continue;
                    R x = fabsl(e.source_de - y->source_de) / (step + 0.2 * daz);
                    R z = fabsl(e.t - y->travel_time) / (dt + 0.01 * e.t);
                    best = std::min(best, std::max(x, z));
                }
                CAL("spurious", best, 5, s.str());
                CAL("spurious-az", fabsl(ref::angdiff(y->source_az, b0)), 0.3 * daz, s.str());
                c.check(best < 5, "spurious", s.str());
                c.close(fabsl(ref::angdiff(y->source_az, b0)), 0, 0.3 * daz, 0, "spurious-az", s.str());
            }
        }
    c.nontrivial(found >= 3);
}

LAW(P03, refracted_paths, 6000, 300000,
    "a target put on an exact ray, in any smooth profile over a flat bottom or "
    "none, after 0.2-20 s with any reflections and vertices, fans of 0.05-2 "
    "degrees by 0.05-5 degrees around that ray: the path is reported once, with "
    "its time, launch and arrival angles, counts and folds; non-trivial: the "
    "ray has a contact, a vertex or a bend of a degree") {
    onray::Scene s = onray::generate(c);
    if (!s.resolved) return;
    boundary_model::csptr bottom(new boundary_flat(s.depth > 0 ? (double)s.depth : 1e5));
    ocean_model::csptr ocean(new ocean_model(
        boundary_model::csptr(new boundary_flat(0.0)), bottom, s.m.model));
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
    wave_queue wave(ocean, freq, s.source, s.de, s.az, s.dt, &s.targets,
                    wave_queue::CLASSIC_RAY);
    eig::Listener log;
    wave.add_eigenray_listener(&log);
    for (int n = 0; n < s.steps + 4; ++n) wave.step();
    const rt::Ray &e = s.exact;
    int ns = 0, nb = 0;
    for (auto &h : e.hits) (h.surface ? ns : nb)++;
    std::ostringstream w;
    w << "path " << ns << nb << " t " << (double)s.t << " smooth " << (double)s.smooth
      << " shift " << (double)s.shift_t << " " << (double)s.shift_de
      << " " << s.m.name << " rate " << (double)s.m.rate << " scale " << (double)s.m.scale
      << " dt " << s.dt << " z " << s.z << " depth " << (double)s.depth << " gamma " << (double)s.gamma
      << " spread " << (double)s.spread << " delta " << s.delta << " at " << (double)ref::deg(s.exact.y.gamma);
    for (auto &h : e.hits) w << " hit " << (double)h.t << " " << (double)ref::deg(h.gamma);
    int hits = 0, which = -1;
    auto &got = log.rays[{0, 0}];
    for (size_t q = 0; q < got.size(); ++q) {
        auto &y = *got[q];
        if (y.surface == ns && y.bottom == nb &&
            fabsl(y.source_de - s.gamma) < 1.3 * s.delta &&
            fabsl(y.travel_time - s.t) < 2 * s.dt)
            ++hits, which = q;
    }
    if (hits != 1)
        for (auto &y : got)
            w << "; got t " << y->travel_time << " de " << y->source_de << " az "
              << y->source_az << " counts " << y->surface << y->bottom;
    CAL("hits", hits == 1 ? 0 : 2, 1, w.str());
    c.check(hits > 0, "refracted-missing", w.str());
    c.check(hits < 2, "refracted-duplicate", w.str());
    if (hits != 1) return;
    auto &y = *got[which];
    R bend = 0;
    for (int q = 0; q < 4; ++q)
        bend = std::max(bend, fabsl(ref::deg(s.near[q + 1].y.gamma - s.near[q].y.gamma)));
    // squares of distances are rounded to about 0.05 square meters
    R cell = 0.15L + s.smooth + 2 * s.shift_de + 4 * s.wobble +
             0.3L / powl(s.spread * ref::rad(s.delta), 2);
    R ttol = 2 * ((0.03L + 2 * s.shift_t + s.smooth * 0.1L) * s.dt + s.astray / 1500);
    R dtol = cell * s.delta, xtol = cell * std::max(s.delta * 1.0L, bend), ztol = 0.1L * s.daz;
    CAL("time", fabsl(y.travel_time - s.t), ttol, w.str());
    CAL("sde", fabsl(y.source_de - s.gamma), dtol, w.str());
    CAL("saz", fabsl(ref::angdiff(y.source_az, s.bearing)), ztol, w.str());
    CAL("tde", fabsl(y.target_de - ref::deg(e.y.gamma)), xtol, w.str());
    CAL("taz", fabsl(ref::angdiff(y.target_az, s.arrive_az)), ztol, w.str());
    if (s.caustic >= 0) CAL("caustic", y.caustic == s.caustic ? 0 : 2, 1, w.str());
    CAL("upper", y.upper == e.upper ? 0 : 2, 1, w.str());
    CAL("lower", y.lower == e.lower ? 0 : 2, 1, w.str());
    c.close(y.travel_time, s.t, ttol, 0, "refracted-travel-time", w.str());
    c.close(y.source_de, s.gamma, dtol, 0, "refracted-source-de", w.str());
    c.close(y.target_de, ref::deg(e.y.gamma), xtol, 0, "refracted-target-de", w.str());
    c.close(ref::angdiff(y.source_az, s.bearing), 0, ztol, 0, "refracted-source-az", w.str());
    c.close(ref::angdiff(y.target_az, s.arrive_az), 0, ztol, 0, "refracted-target-az", w.str());
    c.equal(y.upper, e.upper, "refracted-upper", w.str());
    c.equal(y.lower, e.lower, "refracted-lower", w.str());
    if (s.caustic >= 0) c.equal(y.caustic, s.caustic, "refracted-caustic", w.str());
    c.label(s.m.name);
    c.label(e.hits.empty() ? "refracted" : "reflected");
    c.nontrivial(!e.hits.empty() || e.upper || e.lower ||
                 fabsl(ref::deg(e.y.gamma) - s.gamma) > 1);
}
