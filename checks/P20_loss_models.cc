// P20: loss, absorption, scattering and noise models follow their formulas
#include <usml/ocean/ocean.h>

#include <algorithm>
#include <complex>
#include <memory>

#include "pbt.h"
#include "util.h"

using namespace usml::ocean;
using namespace usml::types;
using pbt::Case;
typedef long double R;
typedef std::complex<long double> C;

static seq_vector::csptr gen_freq(Case &c, double lo, double hi, int max = 6) {
    int N = c.integer(1, max);
    std::vector<double> f(N);
    for (auto &x : f) x = c.logreal(lo, hi);
    std::sort(f.begin(), f.end());
    if (!c.flip(0.8)) std::reverse(f.begin(), f.end());
    for (int n = 1; n < N; ++n)
        if (std::abs(f[n] - f[n - 1]) < 1e-9 * f[n]) c.discard();
    return seq_vector::csptr(new seq_data(f.data(), N));
}
static seq_vector::csptr only(const seq_vector::csptr &f, size_t n) {
    double x = (*f)(n);
    return seq_vector::csptr(new seq_data(&x, 1));
}
static wposition1 gen_pos(Case &c) {
    return wposition1(c.real(-80, 80), c.real(-180, 180), -c.real(0, 6000));
}
static double gen_angle(Case &c) {
    return c.real(0.0, M_PI_2, {0.0, M_PI_2, 1e-6, 0.5});
}

// amplitude and phase of any reflection model at one angle, checked to be
// independent of location, of the other frequencies, and of asking for phase
static void loss_of(Case &c, const reflect_loss_model &m,
                    const seq_vector::csptr &f, double angle,
                    std::vector<double> *amp, std::vector<double> *phs) {
    size_t N = f->size();
    double g = c.pick<double>({0.0, 55.0});
    vector<double> a(N, g), p(N, g), b(N, g);
    wposition1 pos = gen_pos(c);
    m.reflect_loss(pos, f, angle, &a, &p);
    m.reflect_loss(pos, f, angle, &b);
    for (size_t n = 0; n < N; ++n) {
        vector<double> a1(1, g), p1(1, g);
        m.reflect_loss(pos, only(f, n), angle, &a1, &p1);
        c.close(a1(0), a(n), 1e-12, 1e-12, "frequency-independence");
        c.close(p1(0), p(n), 1e-12, 1e-12, "frequency-independence-phase");
        c.close(b(n), a(n), 0, 0, "loss-without-phase");
        amp->push_back(a(n)), phs->push_back(p(n));
    }
}

//----------------------------------------------------------------------
// bottom

struct Bottom {
    R den, spd, att, shr, satt;
};

// plane wave reflection from a solid half space, exp(-iwt) convention
static C rayleigh(const Bottom &b, R grazing) {
    R conv = 1.0L / (40.0L * ref::PI * log10l(expl(1.0L)));
    R inc = ref::PI / 2 - grazing;
    auto cosine = [&](C c) {
        C s = sinl(inc) * c;
        C k = std::sqrt(C(1) - s * s);
        if (k.imag() < 0 && std::abs(k.imag()) > 1e-300L) k = -k;
        return k;
    };
    C cp = b.spd * C(1, -b.att * conv);
    C zp = b.den * cp / cosine(cp);
    C z = zp;
    if (b.shr != 0) {
        C cs = b.shr * C(1, -b.satt * conv);
        C ks = cosine(cs), ss = sinl(inc) * cs;
        C zs = b.den * cs / ks;
        C c2 = C(1) - C(2) * ss * ss, s2 = C(2) * ss * ks;
        z = zp * c2 * c2 + zs * s2 * s2;
    }
    // multiply through to stay finite at grazing incidence
    C y = cosl(inc) * z;
    return (y - C(1)) / (y + C(1));  // impedance relative to that of water
}

static void check_rayleigh(Case &c, const reflect_loss_model &m,
                           const Bottom &b, bool known) {
    double angle = gen_angle(c);
    c.note("angle", angle);
    auto f = gen_freq(c, 10, 1e5);
    std::vector<double> a, p;
    loss_of(c, m, f, angle, &a, &p);
    C r = rayleigh(b, std::min((R)angle, ref::PI / 2 - 1e-10L));
    R mag = std::abs(r);
    // keep away from the branch point, where a rounding error matters
    R inc = cosl((R)angle);
    bool branch = (b.att == 0 && fabsl(1 - inc * b.spd) < 1e-6L) ||
                  (b.shr != 0 && b.satt == 0 && fabsl(1 - inc * b.shr) < 1e-6L);
    for (size_t n = 0; n < a.size(); ++n) {
        if (mag < 1e-14L) {  // nothing is reflected
            c.check(a[n] > 200, "rayleigh-none");
            continue;
        }
        c.check(std::isfinite(a[n]) && std::isfinite(p[n]), "rayleigh-finite");
        if (branch) continue;
        c.close(std::pow(10.0, -a[n] / 20), mag, 1e-9, 0, "rayleigh-loss",
                "reflection coefficient");
        if (mag > 1e-6 && (double)inc < 1 - 1e-15)
            c.close(std::remainder(p[n] - (double)std::arg(r), 2 * M_PI), 0,
                    1e-8 / (double)mag, 0, "rayleigh-phase", "phase");
        if (known) c.check(a[n] >= -1e-9, "rayleigh-gain");
    }
}

static Bottom gen_bottom(Case &c, bool *passive) {
    Bottom b;
    b.den = c.real(1.0, 3.0, {1.0, 1.9});
    b.spd = c.real(0.95, 4.0, {1.0, 1.1});
    b.att = c.real(0.0, 2.0, {0.0, 0.8});
    b.shr = b.satt = 0;
    if (c.flip()) {
        b.shr = c.real(0.05, 1.0) * 0.7 * (double)b.spd;
        b.satt = c.real(0.0, 3.0, {0.0});
    }
    // bulk modulus must not gain energy
    R conv = 1.0L / (40.0L * ref::PI * log10l(expl(1.0L)));
    C cp = b.spd * C(1, -b.att * conv), cs = b.shr * C(1, -b.satt * conv);
    C k = cp * cp - cs * cs * (4.0L / 3.0L);
    *passive = k.imag() <= 0 && k.real() > 0;
    return b;
}

LAW(P20, rayleigh, 20000, 1000000,
    "fluid or solid bottoms with any density, speeds and attenuations, all "
    "grazing angles: against the long double plane wave coefficient; "
    "non-trivial: bottom with attenuation or shear") {
    bool passive;
    Bottom b = gen_bottom(c, &passive);
    reflect_loss_rayleigh m(b.den, b.spd, b.att, b.shr, b.satt);
    c.note("density", (double)b.den), c.note("speed", (double)b.spd);
    c.note("att", (double)b.att), c.note("shear", (double)b.shr);
    c.note("shear_att", (double)b.satt);
    check_rayleigh(c, m, b, passive);
    c.nontrivial(b.att > 0 || b.shr > 0);
}

static const Bottom TABLE[] = {  // JKPS table 1.3 relative to 1000, 1500
    {1.5, 1.00, 0.2, 0, 1.0},    {1.7, 1.05, 1.0, 0, 1.5},
    {1.9, 1.10, 0.8, 0, 2.5},    {2.0, 1.20, 0.6, 0, 1.5},
    {2.1, 1.30, 0.4, 0.40, 1.0}, {2.2, 1.60, 0.2, 0.67, 0.5},
    {2.4, 2.00, 0.1, 1.00, 0.2}, {2.7, 3.50, 0.1, 1.67, 0.2}};

LAW(P20, bottom_types, 8000, 200000,
    "the eight bottom types by name and by number, and tables of bottom types "
    "over random axes looked up anywhere; non-trivial: always") {
    int t = c.integer(0, 7);
    if (c.flip()) {
        reflect_loss_rayleigh m((bottom_type_enum)t);
        check_rayleigh(c, m, TABLE[t], true);
    } else {
        reflect_loss_rayleigh m((size_t)t);
        check_rayleigh(c, m, TABLE[t], true);
    }
    // table of types
    std::vector<double> ax[2];
    seq_vector::csptr seq[2];
    for (int d = 0; d < 2; ++d) {
        int N = c.integer(1, 5);
        double x = c.real(-60, 40), step = c.real(0.5, 4);
        bool even = c.flip();
        for (int n = 0; n < N; ++n) {
            ax[d].push_back(x);
            x += even ? step : step * c.real(0.3, 1);
        }
        seq[d] = seq_vector::csptr(new seq_data(ax[d].data(), N));
    }
    auto *raw = new gen_grid<2>(seq);
    data_grid<2>::sptr grid(raw);
    std::vector<std::vector<int>> type(ax[0].size());
    for (size_t i = 0; i < ax[0].size(); ++i)
        for (size_t j = 0; j < ax[1].size(); ++j) {
            size_t index[2] = {i, j};
            type[i].push_back(c.integer(0, 7));
            raw->setdata(index, type[i].back());
        }
    reflect_loss_rayleigh_grid m(grid);
    double at[2];
    size_t near[2];
    for (int d = 0; d < 2; ++d) {
        double lo = ax[d].front() - 3, hi = ax[d].back() + 3;
        at[d] = c.real(lo, hi);
        double best = HUGE_VAL, second = HUGE_VAL;
        for (size_t n = 0; n < ax[d].size(); ++n) {
            double x = std::abs(ax[d][n] - at[d]);
            if (x < best)
                second = best, best = x, near[d] = n;
            else
                second = std::min(second, x);
        }
        if (second - best < 1e-9) c.discard();
    }
    auto f = gen_freq(c, 10, 1e5);
    size_t N = f->size();
    vector<double> a(N), p(N), ra(N), rp(N);
    double angle = c.real(0, M_PI_2);
    wposition1 pos(at[0], at[1], -c.real(0, 5000));
    m.reflect_loss(pos, f, angle, &a, &p);
    reflect_loss_rayleigh expect((size_t)type[near[0]][near[1]]);
    expect.reflect_loss(pos, f, angle, &ra, &rp);
    for (size_t n = 0; n < N; ++n) {
        c.close(a(n), ra(n), 0, 0, "type-grid-loss");
        c.close(p(n), rp(n), 0, 0, "type-grid-phase");
    }
    c.nontrivial();
}

LAW(P20, rayleigh_limits, 6000, 100000,
    "fluid bottoms: normal incidence gives the impedance contrast, grazing "
    "incidence total reflection with a phase of 180 degrees, equal media no "
    "reflection, total reflection below the critical angle of a lossless fast "
    "bottom; non-trivial: always") {
    auto f = gen_freq(c, 10, 1e5, 1);
    vector<double> a(1), p(1);
    double den = c.real(1.0, 3.0), spd = c.real(0.8, 4.0);
    reflect_loss_rayleigh m(den, spd);
    m.reflect_loss(wposition1(), f, M_PI_2, &a, &p);
    double z = den * spd, r = (z - 1) / (z + 1);
    if (std::abs(r) > 1e-4) {
        c.close(std::pow(10, -a(0) / 20), std::abs(r), 1e-9, 0, "normal-loss");
        c.close(std::abs(p(0)), r > 0 ? 0 : M_PI, 1e-6, 0, "normal-phase");
    }
    m.reflect_loss(wposition1(), f, 1e-9, &a, &p);
    if (spd > 1.001 || spd < 0.999) {
        c.close(a(0), 0, 1e-4, 0, "grazing-loss");
        c.close(std::abs(p(0)), M_PI, 1e-6, 0, "grazing-phase");
    }
    if (spd > 1.01) {
        double critical = std::acos(1 / spd);
        m.reflect_loss(wposition1(), f, critical * c.real(0, 0.999), &a, &p);
        c.close(a(0), 0, 1e-9, 0, "critical-loss", "below the critical angle");
    }
    double angle = c.real(0.01, M_PI_2);
    reflect_loss_rayleigh same(1.0, 1.0);
    same.reflect_loss(wposition1(), f, angle, &a, &p);
    c.check(a(0) > 200, "equal-media", "no reflection between equal media");
    c.nontrivial();
}

//----------------------------------------------------------------------
// surface and constants

LAW(P20, surface_loss, 12000, 500000,
    "Beckmann, Eckart and constant loss at random wind, angle and frequencies "
    "against the documented formulas; never negative; zero wind; non-trivial: "
    "wind not zero") {
    double w = c.real(0, 40, {0.0, 5.0}), angle = gen_angle(c);
    c.note("wind", w), c.note("angle", angle);
    auto f = gen_freq(c, 10, 1e5);
    std::vector<double> a, p;
    loss_of(c, reflect_loss_beckmann(w), f, angle, &a, &p);
    R th = std::max(1e-10L, (R)angle), aa = 1 / (2 * (0.003L + 5.1e-3L * w));
    R v3 = std::min(0.99L, sinl(th) * std::max(0.5L, 1 - expl(-aa * th * th / 4) /
                                           sqrtl(ref::PI * aa * th * th)));
    for (size_t n = 0; n < a.size(); ++n) {
        R x = (*f)(n);
        R low = 0.3L + 0.7L / (1 + 6e-11L * w * w * w * w * x * x);
        c.close(a[n], -20 * log10l(sqrtl(1 - v3) * low), 1e-9, 1e-9,
                "beckmann-loss");
        c.close(p[n], M_PI, 1e-14, 0, "beckmann-phase");
        c.check(a[n] >= 0, "beckmann-gain");
    }
    a.clear(), p.clear();
    loss_of(c, reflect_loss_eckart(w), f, angle, &a, &p);
    for (size_t n = 0; n < a.size(); ++n) {
        R x = (*f)(n), s = sinl((R)angle);
        c.close(a[n], 8.6e-9L * x * x * w * w * w * w * s * s, 1e-12, 1e-11,
                "eckart-loss");
        c.close(p[n], M_PI, 1e-14, 0, "eckart-phase");
        c.check(a[n] >= 0, "eckart-gain");
        if (w == 0) c.close(a[n], 0, 1e-12, 0, "eckart-calm");
    }
    a.clear(), p.clear();
    double loss = c.real(0, 60), ph = c.real(-M_PI, M_PI);
    loss_of(c, reflect_loss_constant(loss, ph), f, angle, &a, &p);
    for (size_t n = 0; n < a.size(); ++n) {
        c.close(a[n], loss, 0, 0, "constant-loss");
        c.close(p[n], ph, 0, 0, "constant-phase");
    }
    c.close(wave_height_pierson(w), 0.22 / 9.8 / 4 * w * w, 0, 1e-12,
            "pierson-height");
    c.nontrivial(w > 0);
}

LAW(P20, attenuation, 10000, 300000,
    "Thorp and constant absorption over random position and distance grids, "
    "alone and through profiles (default, explicit, replaced); additive over "
    "distance; non-trivial: several positions and frequencies") {
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    auto f = gen_freq(c, 10, 1e5);
    size_t N = f->size();
    wposition pos(rows, cols);
    matrix<double> dist(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            pos.latitude(i, j, c.real(-80, 80));
            pos.longitude(i, j, c.real(-180, 180));
            pos.altitude(i, j, -c.real(0, 8000));
            dist(i, j) = c.real(0, 1e5, {0.0});
        }
    double coeff = c.real(0, 1e-4);
    attenuation_model::csptr thorp(new attenuation_thorp());
    attenuation_model::csptr fixed(new attenuation_constant(coeff));
    profile_linear standard(1500.0), set(1500.0, 0.0, fixed), later(1500.0);
    int kind = c.integer(0, 4);
    const attenuation_model *m = thorp.get();
    if (kind == 1) m = fixed.get();
    if (kind == 2) m = &standard;
    if (kind == 3) m = &set;
    if (kind == 4) later.attenuation(fixed), m = &later;
    bool is_thorp = kind == 0 || kind == 2;
    double g = c.pick<double>({0.0, 55.0});
    matrix<vector<double>> out(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) out(i, j) = vector<double>(N, g);
    m->attenuation(pos, f, dist, &out);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            wposition p1(1, 1);
            p1.rho(0, 0, pos.rho(i, j));
            p1.theta(0, 0, pos.theta(i, j));
            p1.phi(0, 0, pos.phi(i, j));
            matrix<double> d1(1, 1);
            d1(0, 0) = dist(i, j);
            for (size_t n = 0; n < N; ++n) {
                R x = (*f)(n), e;
                if (is_thorp) {
                    R F2 = x * x * 1e-6L, d = -pos.altitude(i, j);
                    e = 0.0033L + F2 * (3e-4L + 44 / (4100 + F2) +
                                        0.11L / (1 + F2));
                    e *= (1 - 5.88264e-6L * d) / (1 - 5.88264e-6L * 1000);
                    e *= dist(i, j) / 1000;
                } else
                    e = (R)coeff * dist(i, j) * x;
                c.close(out(i, j)(n), e, 1e-12, 1e-11,
                        is_thorp ? "thorp" : "constant-attenuation");
                c.check(out(i, j)(n) >= 0, "absorption-negative");
                matrix<vector<double>> o1(1, 1);
                o1(0, 0) = vector<double>(1, g);
                m->attenuation(p1, only(f, n), d1, &o1);
                c.close(o1(0, 0)(0), out(i, j)(n), 1e-15, 1e-12,
                        "absorption-alone");
            }
        }
    c.nontrivial(rows * cols > 1 && N > 1);
}

//----------------------------------------------------------------------
// scattering

static R chapman(R wind, R f, R grazing_deg) {
    R beta = 158 * powl(wind * 1.94384449L * cbrtl(f), -0.58L);
    R db = 3.3L * beta * log10l(grazing_deg / 30 + 1e-6L) -
           42.4L * log10l(beta) + 2.6L;
    return powl(10, db / 10);
}

LAW(P20, scattering, 12000, 400000,
    "Lambert, Chapman/Harris and constant scattering strength, one angle pair "
    "and collections of angles, alone and through boundary, volume and ocean "
    "models; non-trivial: more than one scattered angle") {
    int kind = c.integer(0, 2);
    double w = c.real(0.5, 30, {0.0, 5.0}), db = c.real(-60, -10);
    if (w == 0 && kind == 2) c.label("calm");
    scattering_model::csptr m;
    if (kind == 0) m.reset(new scattering_constant(db));
    if (kind == 1) m.reset(new scattering_lambert(db));
    if (kind == 2) m.reset(new scattering_chapman(w));
    auto f = gen_freq(c, 20, 2e4);
    size_t N = f->size(), rows = c.integer(1, 3), cols = c.integer(1, 3);
    // either sign convention, the same for both directions
    double s = c.sign();
    double in = s * c.real(0, M_PI_2, {0.0, 0.5, M_PI_2});
    double az = c.real(-M_PI, M_PI), g = c.pick<double>({0.0, 55.0});
    c.note("kind", kind), c.note("wind", w), c.note("in", in);
    matrix<double> out(rows, cols), azs(rows, cols);
    matrix<vector<double>> many(rows, cols);
    wposition pos(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            out(i, j) = s * c.real(0, M_PI_2, {0.0, 0.5, M_PI_2});
            azs(i, j) = c.real(-M_PI, M_PI);
            many(i, j) = vector<double>(N, g);
            pos.latitude(i, j, c.real(-80, 80));
            pos.longitude(i, j, c.real(-180, 180));
            pos.altitude(i, j, -c.real(0, 6000));
        }
    // hosts which hand the question on
    boundary_model::csptr flat(new boundary_flat(100.0, nullptr, m));
    std::shared_ptr<boundary_flat> set(new boundary_flat(100.0));
    set->scattering(m);
    std::shared_ptr<volume_flat> layer(new volume_flat(50.0, 10.0, m));
    std::shared_ptr<volume_flat> other(new volume_flat(50.0, 10.0, -90.0));
    const scattering_model *host = m.get();
    int via = c.integer(0, 4);
    if (via == 1) host = flat.get();
    if (via == 2) host = set.get();
    if (via == 3) host = layer.get();
    if (via == 4) other->scattering(m), host = other.get();
    host->scattering(pos, f, in, out, az, azs, &many);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            vector<double> one(N, g);
            host->scattering(wposition1(pos, i, j), f, in, out(i, j), az,
                             azs(i, j), &one);
            for (size_t n = 0; n < N; ++n) {
                R e = powl(10, (R)db / 10);
                if (kind == 1) e *= fabsl(sinl((R)in) * sinl((R)out(i, j)));
                if (kind == 2)
                    e = w == 0 ? 0
                               : chapman(w, (*f)(n),
                                         fabsl(in + out(i, j)) * 90 / ref::PI);
                const char *key = kind == 0   ? "constant-scattering"
                                  : kind == 1 ? "lambert"
                                              : "chapman";
                c.check(std::isfinite(one(n)) && one(n) >= 0,
                        "scattering-finite");
                c.close(one(n), e, 1e-300, 1e-8, key);
                c.close(many(i, j)(n), one(n), 0, 1e-12, "scattering-forms");
                vector<double> alone(1, g);
                host->scattering(wposition1(pos, i, j), only(f, n), in,
                                 out(i, j), az, azs(i, j), &alone);
                c.close(alone(0), one(n), 0, 1e-12, "scattering-alone");
                vector<double> swap(N, g);
                host->scattering(wposition1(pos, i, j), f, out(i, j), in,
                                 azs(i, j), az, &swap);
                c.close(swap(n), one(n), 0, 1e-12, "scattering-reciprocity");
            }
        }
    c.nontrivial(rows * cols > 1);
}

LAW(P20, ocean_interfaces, 5000, 100000,
    "oceans with up to five volume layers, given at construction or added: "
    "every interface number reaches its own scattering model; non-trivial: "
    "two or more layers") {
    auto level = [](double db) { return std::pow(10.0, db / 10); };
    boundary_model::csptr bottom(new boundary_flat(
        2000.0, nullptr, scattering_model::csptr(new scattering_constant(-1))));
    boundary_model::csptr surface(new boundary_flat(
        0.0, nullptr, scattering_model::csptr(new scattering_constant(-2))));
    profile_model::csptr profile(new profile_linear(1500.0));
    size_t first = c.integer(0, 3), more = c.integer(0, 3);
    std::vector<volume_model::csptr> list;
    for (size_t n = 0; n < first; ++n)
        list.emplace_back(new volume_flat(100.0 * (n + 1), 10.0, -10.0 - n));
    bool give = first > 0 || c.flip();
    ocean_model ocean(surface, bottom, profile, give ? &list : nullptr);
    for (size_t n = first; n < first + more; ++n)
        ocean.add_volume(volume_model::csptr(
            new volume_flat(100.0 * (n + 1), 10.0, -10.0 - n)));
    size_t total = first + more;
    c.equal(ocean.num_volume(), total, "num-volume");
    c.check(ocean.surface() == surface && ocean.bottom() == bottom &&
                ocean.profile() == profile,
            "ocean-parts");
    auto f = gen_freq(c, 10, 1e4, 3);
    size_t N = f->size();
    for (size_t i = 0; i < 2 + 2 * total; ++i) {
        vector<double> a(N, 5.0);
        ocean.scattering(i, gen_pos(c), f, 0.2, 0.3, 0.4, 0.5, &a);
        double e = i == 0 ? level(-1) : i == 1 ? level(-2)
                                               : level(-10.0 - (i - 2) / 2);
        for (size_t n = 0; n < N; ++n)
            c.close(a(n), e, 0, 1e-12, "interface-model");
        if (i >= 2) {
            double rho, thick;
            ocean.volume((i - 2) / 2)->depth(wposition1(), &rho, &thick);
            c.close(wposition::earth_radius - rho, 100.0 * ((i - 2) / 2 + 1),
                    1e-6, 0, "interface-layer");
        }
    }
    vector<double> a(N);
    c.throws(
        [&] {
            ocean.scattering(2 + 2 * total, wposition1(), f, 0, 0, 0, 0, &a);
        },
        "interface-beyond");
    c.throws([&] { ocean.volume(total); }, "layer-beyond");
    c.nontrivial(total > 1);
}

LAW(P20, ambient, 10000, 300000,
    "Wenz noise over wind, shipping and rain (also out of range), and constant "
    "noise, against power sums in long double; monotone in every source; "
    "non-trivial: two or more sources") {
    double w = c.real(0, 40, {0.0, -1.0});
    int ship = c.integer(-1, 8), rain = c.integer(-1, 4);
    auto f = gen_freq(c, 1, 1e5);
    if (c.flip(0.2)) {
        double edge[] = {550.0, 1000.0, 15500.0};
        f.reset(new seq_data(edge, 3));
    }
    size_t N = f->size();
    c.note("wind", w), c.note("ship", ship), c.note("rain", rain);
    ambient_wenz m(w, ship, rain), calm(w, 0, 0);
    double g = c.pick<double>({0.0, 55.0});
    vector<double> a(N, g), q(N, g);
    m.ambient(gen_pos(c), f, &a);
    calm.ambient(gen_pos(c), f, &q);
    for (size_t n = 0; n < N; ++n) {
        R x = (*f)(n), l = log10l(x), sum = 0;
        auto add = [&](R db) { sum += powl(10, db / 10); };
        add(107 - 30 * l);
        add(-75 + 20 * l);
        if (ship >= 1 && ship <= 7) {
            R d = l - log10l(30);
            add(76 - 20 * d * d + 5 * (ship - 4.0L));
        }
        if (w >= 0) {
            R k = w / 0.51444444L, u = sqrtl(21 * k);
            add(x < 1000 ? 44 + u + 17 * (3 - l) * (l - 2) : 95 + u - 17 * l);
        }
        if (x >= 550 && x <= 15500) {
            if (rain == 1) add(64.942L + 19.917L * l - 5.242L * l * l);
            if (rain == 2) add(19.628L + 42.933L * l - 7.516L * l * l);
            if (rain == 3)
                add(222.491L - 135.904L * l + 43.893L * l * l -
                    4.737L * l * l * l);
        }
        c.close(a(n), sum, 0, 1e-9, "wenz");
        c.check(a(n) >= q(n) * (1 - 1e-9), "wenz-sources-add");
        vector<double> one(1, g);
        m.ambient(wposition1(), only(f, n), &one);
        c.close(one(0), a(n), 0, 1e-12, "wenz-alone");
    }
    double db = c.real(0, 120);
    ambient_constant(db).ambient(gen_pos(c), f, &a);
    for (size_t n = 0; n < N; ++n)
        c.close(a(n), std::pow(10.0, db / 10), 0, 1e-12, "ambient-constant");
    c.nontrivial((w > 0) + (ship > 0) + (rain > 0) > 1);
}
