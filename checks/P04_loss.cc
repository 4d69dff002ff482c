// P04: path loss and phase are spreading, absorption and boundary terms
#include <usml/ocean/ocean.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/waveq3d/waveq3d.h>

#include "calib.h"
#include "eigref.h"
#include "onray.h"

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;
namespace ub = boost::numeric::ublas;

// dB per meter, different for each frequency and deeper water
class absorb : public attenuation_model {
   public:
    double rate = 0, per_hz = 0, deep = 0;
    R at(double f, R z) const { return (rate + per_hz * f) * (1 + deep * z); }
    void attenuation(const wposition &x, const seq_vector::csptr &f,
                     const ub::matrix<double> &d,
                     ub::matrix<ub::vector<double>> *out) const override {
        for (size_t i = 0; i < d.size1(); ++i)
            for (size_t j = 0; j < d.size2(); ++j)
                for (size_t k = 0; k < f->size(); ++k)
                    (*out)(i, j)(k) =
                        (double)at((*f)(k), wposition::earth_radius - x.rho(i, j)) * d(i, j);
    }
};

class bounce : public reflect_loss_model {
   public:
    double flat = 0, per_hz = 0, per_rad = 0, turn = 0, turn_hz = 0;
    R loss(double f, R g) const { return flat + per_hz * f + per_rad * g; }
    R shift(double f) const { return turn + turn_hz * f; }
    void reflect_loss(const wposition1 &, const seq_vector::csptr &f, double g,
                      ub::vector<double> *a, ub::vector<double> *p) const override {
        for (size_t k = 0; k < f->size(); ++k) {
            (*a)(k) = (double)loss((*f)(k), g);
            if (p) (*p)(k) = (double)shift((*f)(k));
        }
    }
};

// profile of the medium with another absorption
class lossy : public profile_model {
   public:
    profile_model::csptr base;
    lossy(const profile_model::csptr &b, const attenuation_model::csptr &a)
        : profile_model(a), base(b) {}
    void sound_speed(const wposition &at, ub::matrix<double> *speed,
                     wvector *gradient) const override {
        base->sound_speed(at, speed, gradient);
    }
};

static const eigenray_model *target_ray(const eig::Listener &log, const onray::Scene &s,
                                        int ns, int nb, int *hits) {
    const eigenray_model *best = nullptr;
    *hits = 0;
    auto it = log.rays.find({0, 0});
    if (it == log.rays.end()) return best;
    for (auto &y : it->second)
        if (y->surface == ns && y->bottom == nb &&
            fabsl(y->source_de - s.gamma) < 1.3 * s.delta &&
            fabsl(y->travel_time - s.t) < 2 * s.dt)
            best = y.get(), ++*hits;
    return best;
}

static seq_vector::csptr gen_freq(Case &c, double lo, double hi) {
    int n = c.integer(1, 3);
    std::vector<double> f;
    for (int k = 0; k < n; ++k) f.push_back(c.logreal(lo, hi));
    std::sort(f.begin(), f.end());
    for (int k = 1; k < n; ++k) f[k] = std::max(f[k], f[k - 1] * 1.01);
    c.notev("f", f, f.size());
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}

LAW(P04, loss_terms, 5000, 150000,
    "a path that an exact ray of any smooth profile follows for 0.2-20 s, with "
    "and without losses and phase changes of both boundaries that depend on "
    "frequency and grazing angle and absorption that depends on frequency and "
    "depth, 1-3 frequencies of 10 Hz to 20 kHz, both spreading models: the loss "
    "grows by the terms of the path and the phase is the sum of its boundary and "
    "fold terms, other results stay; non-trivial: resolved and a boundary or "
    "absorption of 0.01 dB or more") {
    onray::Scene s = onray::generate(c);
    if (!s.resolved) return;
    auto freq = gen_freq(c, 10, 20000);
    auto type = c.flip(0.5) ? wave_queue::CLASSIC_RAY : wave_queue::HYBRID_GAUSSIAN;
    auto top = std::make_shared<bounce>(), floor = std::make_shared<bounce>();
    auto sea = std::make_shared<absorb>();
    int what = c.integer(0, 3);
    if (what == 0 || what == 1) {
        top->flat = c.real(0, 5), top->per_hz = c.real(0, 1e-4);
        top->per_rad = c.real(0, 5, {0.0});
    }
    if (what == 0 || what == 2) {
        floor->flat = c.real(0, 5), floor->per_hz = c.real(0, 1e-4);
        floor->per_rad = c.real(0, 5, {0.0});
        floor->turn = c.real(-3, 3, {0.0}), floor->turn_hz = c.real(-1e-4, 1e-4);
    }
    if (what == 0 || what == 3) {
        sea->rate = c.logreal(1e-6, 1e-3), sea->per_hz = c.logreal(1e-9, 1e-6);
        sea->deep = c.real(0, 2e-4, {0.0});
    }
    double z0 = s.depth > 0 ? (double)s.depth : 1e5;
    const eigenray_model *ray[2] = {nullptr, nullptr};
    eig::Listener log[2];
    int ns = 0, nb = 0, hits[2] = {0, 0};
    for (auto &h : s.exact.hits) (h.surface ? ns : nb)++;
    for (int with = 0; with < 2; ++with) {
        auto base = s.m.model;
        if (with) base.reset(new lossy(s.m.model, sea));
        else base.reset(new lossy(s.m.model, std::make_shared<absorb>()));
        boundary_model::csptr up(new boundary_flat(0.0, with ? top : nullptr));
        boundary_model::csptr down(new boundary_flat(z0, with ? floor : nullptr));
        ocean_model::csptr ocean(new ocean_model(up, down, base));
        wave_queue wave(ocean, freq, s.source, s.de, s.az, s.dt, &s.targets, type);
        wave.intensity_threshold(1000.0);
        wave.add_eigenray_listener(&log[with]);
        for (int n = 0; n < s.steps + 4; ++n) wave.step();
        ray[with] = target_ray(log[with], s, ns, nb, &hits[with]);
    }
    auto &a = log[0].rays[{0, 0}], &b = log[1].rays[{0, 0}];
    c.equal(a.size(), b.size(), "number-of-paths");
    for (size_t q = 0; q < std::min(a.size(), b.size()); ++q) {
        auto &x = *a[q], &y = *b[q];
        bool same = x.travel_time == y.travel_time && x.source_de == y.source_de &&
                    x.source_az == y.source_az && x.target_de == y.target_de &&
                    x.target_az == y.target_az && x.surface == y.surface &&
                    x.bottom == y.bottom && x.caustic == y.caustic &&
                    x.upper == y.upper && x.lower == y.lower;
        c.check(same, "path-changed", "path " + std::to_string(q));
    }
    if (hits[0] != 1 || hits[1] != 1) return;
    std::ostringstream w;
    w << (type == wave_queue::CLASSIC_RAY ? "classic" : "gaussian") << " path " << ns << nb
      << " t " << (double)s.t << " dt " << s.dt << " caustic " << s.caustic;
    // exact terms
    auto length = [&](int q) { return q < 0 ? s.exact.y.s : s.near[q].y.s; };
    // of absorption against depth, along the way
    rt::Ray y = onray::trace(s, s.gamma, 0.0005L);
    R mean = 0, weight = 0, steep = 0;
    R h = s.t / 400, z1 = s.z, s1 = 0;
    for (int n = 1; n <= 400; ++n) {
        y.to(h * n);
        R z2 = s.R0 - y.y.r, ds = y.y.s - s1;
        mean += (z1 + z2) / 2 * ds, weight += ds;
        steep = std::max(steep, fabsl(z2 - z1) / ds);
        z1 = z2, s1 = y.y.s;
    }
    mean /= weight;
    R dlen = 0;
    for (int q = 1; q < 3; ++q) dlen = std::max(dlen, fabsl(length(q + 1) - length(q)));
    bool heavy = false;
    for (size_t k = 0; k < freq->size(); ++k) {
        double f = (*freq)(k);
        R gain = sea->at(f, mean) * s.exact.y.s, tol = 2e-6;
        R per = sea->at(f, 0);
        tol += per * (2 * dlen + 8 * s.astray + 3) + gain * 3e-3L + gain * 0.005L * (1 - 1e-9L) * (s.dt / s.t);
        // lengths of steps are found on a flat earth
        R tanlat = fabsl(tanl(ref::rad(fabsl((R)s.lat) + 4)));
        tol += per * (1 + sea->deep * 5000) * s.exact.y.s * 1600 * s.dt / s.R0 * (1 + tanlat);
        // at the time that was found
        tol += per * 1500 * 8 * (0.03L + 2 * s.shift_t + 0.1L * s.smooth) * s.dt;
        tol += per * sea->deep * s.exact.y.s * 1500 * s.dt;
        R phase = -M_PI * ns - M_PI_2 * std::max(0, s.caustic), lag = 0;
        for (size_t i = 0; i < s.exact.hits.size(); ++i) {
            auto &e = s.exact.hits[i];
            auto &m = e.surface ? *top : *floor;
            R g = fabsl(e.gamma), dg = 0;
            for (int q = 1; q < 4; ++q)
                if (i < s.near[q].hits.size())
                    dg = std::max(dg, fabsl(fabsl(s.near[q].hits[i].gamma) - g));
            gain += m.loss(f, g);
            // of the nearest ray, found within a step
            tol += m.per_rad * (0.6L * dg + 2 * s.m.rate * s.dt + 1e-5L);
            if (!e.surface) phase += m.shift(f), lag += m.shift(f);
        }
        R err = fabsl(ray[1]->intensity(k) - ray[0]->intensity(k) - gain);
        CAL(what == 0 ? "all" : what == 1 ? "surface" : what == 2 ? "bottom" : "water", err, tol, w.str());
        c.close(err, 0, tol, 0, "loss-terms", w.str());
        CAL("lag", fabsl(ray[1]->phase(k) - ray[0]->phase(k) - lag), 1e-8, w.str());
        c.close(ray[1]->phase(k) - ray[0]->phase(k), lag, 1e-8, 0, "phase-terms", w.str());
        if (s.caustic >= 0) {
            CAL("phase", fabsl(ray[1]->phase(k) - phase), 1e-8, w.str());
            c.close(ray[1]->phase(k), phase, 1e-8, 0, "phase", w.str());
        }
        heavy = heavy || fabsl(gain) > 0.01;
    }
    c.nontrivial(heavy || ns);
    c.label(s.m.name);
}

LAW(P04, geometric_spreading, 6000, 200000,
    "a path that an exact ray of any smooth profile follows for 0.2-20 s with any "
    "reflections, without other losses: the loss of both spreading models is the "
    "area of an infinitesimal tube around the ray relative to one at 1 m, the "
    "Gaussian one at frequencies so high that beams are as narrow as cells, and "
    "20 log10 of the length in isovelocity water; non-trivial: resolved") {
    auto type = c.flip(0.5) ? wave_queue::CLASSIC_RAY : wave_queue::HYBRID_GAUSSIAN;
    bool classic = type == wave_queue::CLASSIC_RAY;
    onray::Scene s = onray::generate(c, c.flip(0.3) ? 0 : -1, 20, classic ? 4 : 8,
                                     classic ? 2 : 6);
    if (!s.resolved) return;
    // beams from much narrower than the cells of the wavefront to 1.5 cells
    double small = (double)std::min(fabsl(s.spread) * ref::rad(s.delta),
                                    s.wide * ref::rad(s.daz));
    double f = 2 * M_PI * 1500 / (1.5 * small) * c.logreal(1, 1e4);
    c.note("f", f);
    seq_vector::csptr freq(new seq_linear(f, 1.0, 1));
    boundary_model::csptr up(new boundary_flat(0.0));
    boundary_model::csptr down(new boundary_flat(s.depth > 0 ? (double)s.depth : 1e5));
    ocean_model::csptr ocean(new ocean_model(
        up, down, profile_model::csptr(new lossy(s.m.model, std::make_shared<absorb>()))));
    wave_queue wave(ocean, freq, s.source, s.de, s.az, s.dt, &s.targets, type);
    wave.intensity_threshold(1000.0);
    eig::Listener log;
    wave.add_eigenray_listener(&log);
    for (int n = 0; n < s.steps + 4; ++n) wave.step();
    int ns = 0, nb = 0, hits;
    for (auto &h : s.exact.hits) (h.surface ? ns : nb)++;
    auto ray = target_ray(log, s, ns, nb, &hits);
    if (!ray || hits != 1) return;
    R z = s.R0 - s.exact.y.r;
    R change = type == wave_queue::CLASSIC_RAY ? s.m.c(z) / s.m.c(s.z) : 1;
    R area = fabsl(s.spread) * s.wide / cosl(ref::rad(s.gamma));
    R loss = 10 * log10l(area / change);
    std::ostringstream w;
    w << (type == wave_queue::CLASSIC_RAY ? "classic" : "gaussian") << " path " << ns << nb
      << " t " << (double)s.t << " dt " << s.dt << " smooth " << (double)s.smooth << " " << s.m.name
      << " delta " << s.delta << " daz " << s.daz << " cells " << (double)(fabsl(s.spread) * ref::rad(s.delta))
      << " " << (double)(s.wide * ref::rad(s.daz)) << " f " << f << " wobble " << (double)s.wobble
      << " change " << 10 * log10((double)(s.m.c(z) / s.m.c(s.z))) << " caustic " << s.caustic
      << " loss " << ray->intensity(0) << " expect " << (double)loss;
    std::string key = type == wave_queue::CLASSIC_RAY ? "classic" : "gaussian";
    CAL(s.m.rate > 0 ? key + "" : key + "-iso", fabsl(ray->intensity(0) - loss), 1, w.str());
    if (s.m.rate == 0) CAL("iso", fabsl(20 * log10l(s.exact.y.s) - loss), 1, w.str());
    // the classic model includes the change of sound speed on the way
    R cell = 0.06L + 3 * s.smooth + 4 * s.wobble;
    if (!classic) {
        if (s.smooth > 0.1) return;
        // one family of rays all over the fan
        std::string h;
        for (size_t q = 0; q < s.de->size(); ++q) {
            rt::Ray y = onray::trace(s, (*s.de)(q), s.t + 3 * s.dt);
            std::string a = onray::history(y, s.t - 3 * s.dt), b = onray::history(y, s.t + 3 * s.dt);
            if (q == 0) h = a;
            if (a != h || b != h) return;
        }
        cell += 0.1L + 3 * s.smooth;
        cell += fabsl(10 * log10l(s.m.c(z) / s.m.c(s.z)));
    }
    CAL(key + (s.m.rate > 0 ? "-tol" : "-iso-tol"), fabsl(ray->intensity(0) - loss), cell, w.str());
    c.close(ray->intensity(0), loss, cell, 0, key + "-spreading", w.str());
    // spherical
    R far = s.exact.y.s;
    if (s.m.rate == 0)
        c.close(ray->intensity(0), 20 * log10l(far), cell + 0.1L + far / 2e5L, 0, key + "-spherical", w.str());
    c.nontrivial(true);
    c.label(key);
}
