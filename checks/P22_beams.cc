// P22: beam patterns are normalised, steer, and match their definition
#include <usml/beampatterns/beampatterns.h>

#include <algorithm>
#include <complex>
#include <list>
#include <memory>

#include "gridref.h"
#include "pbt.h"
#include "util.h"

using namespace usml::beampatterns;
using namespace usml::types;
using pbt::Case;
typedef long double R;
typedef std::complex<long double> C;
typedef boost::numeric::ublas::vector<double> Vector;
typedef boost::numeric::ublas::matrix<double> Matrix;

static seq_vector::csptr gen_freq(Case &c, double lo, double hi, int max = 4) {
    int N = c.integer(1, max);
    std::vector<double> f(N);
    for (auto &x : f) x = c.logreal(lo, hi);
    std::sort(f.begin(), f.end());
    for (int n = 1; n < N; ++n)
        if (std::abs(f[n] - f[n - 1]) < 1e-9 * f[n]) c.discard();
    return seq_vector::csptr(new seq_data(f.data(), N));
}
static seq_vector::csptr only(const seq_vector::csptr &f, size_t n) {
    double x = (*f)(n);
    return seq_vector::csptr(new seq_data(&x, 1));
}
static bvector gen_dir(Case &c) {
    switch (c.integer(0, 3)) {
        case 0: {  // axes and diagonals
            double de = c.pick<double>({0, 0, 0, 45, -45, 90, -90, 30});
            return bvector(de, c.pick<double>({0, 90, 180, -90, 45, 135}));
        }
        case 1: {  // a unit vector up to rounding errors
            double x = c.real(-1, 1), y = c.real(-1, 1), z = c.real(-1, 1);
            double r = std::sqrt(x * x + y * y + z * z);
            if (r < 0.01) c.discard();
            return bvector(x / r, y / r, z / r);
        }
        case 2: {  // turned by an orientation
            bvector v;
            orientation o(c.real(0, 360), c.real(-90, 90), c.real(-180, 180));
            v.rotate(o, bvector(c.pick<double>({0, 0, 90}),
                                c.pick<double>({0, 90, 180})));
            return v;
        }
    }
    return bvector(c.real(-90, 90), c.real(-180, 360));
}
static ref::Vec vec(const bvector &b) {
    return ref::Vec(b.front(), b.right(), b.up());
}

struct Query {
    bvector arrival, steering;
    seq_vector::csptr freq;
    double speed;
};
static Query gen_query(Case &c, double lo = 100, double hi = 1e4) {
    Query q;
    q.arrival = gen_dir(c), q.steering = gen_dir(c);
    q.freq = gen_freq(c, lo, hi);
    q.speed = c.real(1400, 1600, {1500.0});
    c.note("arrival", vec(q.arrival).x), c.note("", vec(q.arrival).y);
    c.note("", vec(q.arrival).z);
    c.note("steering", vec(q.steering).x), c.note("", vec(q.steering).y);
    c.note("", vec(q.steering).z);
    return q;
}

// level of each frequency, checked for independence of other frequencies, of
// what the output held, of turning the array, and for its limits
static std::vector<double> level(Case &c, const bp_model &bp, const Query &q,
                                 bool limited = true) {
    size_t N = q.freq->size();
    Vector out(N, c.pick<double>({0.0, 0.7}));
    bp.beam_level(q.arrival, q.freq, &out, q.steering, q.speed);
    std::vector<double> r(out.begin(), out.end());
    c.equal(r.size(), N, "level-size");
    for (size_t n = 0; n < N; ++n) {
        Vector one(1, 0.3);
        bp.beam_level(q.arrival, only(q.freq, n), &one, q.steering, q.speed);
        c.close(one(0), r[n], 1e-15, 1e-10, "frequency-independence");
        if (limited) {
            c.check(r[n] >= 0, "level-negative");
            c.check(r[n] <= 1 + 1e-9, "level-above-one",
                    "level " + std::to_string(r[n]));
        }
    }
    return r;
}

// turning the array and the arrival together changes nothing
static void check_turned(Case &c, const bp_model &bp, const Query &q,
                         const std::vector<double> &r, double tol) {
    orientation o(c.real(0, 360, {0.0, 90.0}), c.real(-89, 89, {0.0}),
                  c.real(-180, 180, {0.0}));
    bvector world;
    world.rotate(o, q.arrival);
    Vector out(q.freq->size(), 0.5);
    bp.beam_level(world, o, q.freq, &out, q.steering, q.speed);
    for (size_t n = 0; n < r.size(); ++n)
        c.close(out(n), r[n], tol, tol, "turned-array");
}

// response of a line of N elements, x is half the phase between elements
static R line(R N, R x, bool *grating) {
    R y = remainderl(x, ref::PI);
    if (fabsl(y) < 1e-9L) *grating = true;
    if (fabsl(y) < 1e-15L) return 1;
    R v = sinl(N * y) / (N * sinl(y));
    return v * v;
}
static R sinc(R x) { return fabsl(x) < 1e-9L ? 1 : sinl(x) / x; }

LAW(P22, line_array, 12000, 600000,
    "horizontal and vertical lines of 1 to 16 elements, any spacing, steering "
    "and arrival, including grating lobes: closed form, peak, limits, turned "
    "arrays; non-trivial: two or more elements") {
    int N = c.integer(1, 16);
    bp_line_type type = c.flip() ? HLA : VLA;
    Query q = gen_query(c);
    double lambda = q.speed / (*q.freq)(0);
    double d = c.flip() ? lambda * c.pick<double>({0.5, 1.0, 0.25})
                        : lambda * c.real(0.1, 3);
    bp_line bp(N, d, type);
    c.note("N", N), c.note("spacing", d / lambda);
    auto r = level(c, bp, q);
    R u = type == HLA ? (R)q.arrival.front() - q.steering.front()
                      : (R)q.arrival.up() - q.steering.up();
    bool grating = false;
    for (size_t n = 0; n < r.size(); ++n) {
        R x = ref::PI * d / q.speed * (*q.freq)(n) * u;
        c.close(r[n], line(N, x, &grating), 1e-9 * N * N, 1e-9, "line-level");
    }
    check_turned(c, bp, q, r, 1e-8 * N * N);
    q.arrival = q.steering;
    for (double v : level(c, bp, q)) c.close(v, 1.0, 1e-9, 0, "line-peak");
    c.nontrivial(N > 1);
    if (grating) c.label("grating");
}

LAW(P22, line_directivity, 3000, 60000,
    "directivity of lines of 1 to 12 elements against the numerical average "
    "of the level over the sphere; non-trivial: two or more elements") {
    int N = c.integer(1, 12);
    bp_line_type type = c.flip() ? HLA : VLA;
    Query q = gen_query(c, 100, 2000);
    double d = q.speed / (*q.freq)(0) * c.real(0.1, 1.5, {0.5});
    bp_line bp(N, d, type);
    Vector dg(q.freq->size(), c.pick<double>({0.0, 0.7}));
    bp.directivity(q.freq, &dg, q.steering, q.speed);
    R s = type == HLA ? q.steering.front() : q.steering.up();
    for (size_t n = 0; n < q.freq->size(); ++n) {
        // Gauss-Legendre with two points per panel
        R k = ref::PI * d / q.speed * (*q.freq)(n), sum = 0;
        int panels = 200 + (int)(40 * N * (double)k);
        bool g;
        for (int p = 0; p < panels; ++p) {
            R h = 2.0L / panels, m = -1 + h * (p + 0.5L);
            R e = h / 2 / sqrtl(3);
            sum += h / 2 * (line(N, k * (m - e - s), &g) +
                            line(N, k * (m + e - s), &g));
        }
        c.close(dg(n), sum / 2, 1e-9, 1e-5, "line-directivity");
    }
    c.nontrivial(N > 1);
}

LAW(P22, planar_array, 10000, 400000,
    "planar arrays with and without baffle against the product of two lines, "
    "documented directivity; non-trivial: arrival in front of the array") {
    int N1 = c.integer(2, 10), N2 = c.integer(2, 10);
    Query q = gen_query(c);
    double lambda = q.speed / (*q.freq)(0);
    double d1 = lambda * c.real(0.1, 2, {0.5}),
           d2 = lambda * c.real(0.1, 2, {0.5, 1.0});
    bool baffle = c.flip();
    bp_planar bp(N1, d1, N2, d2, baffle);
    auto r = level(c, bp, q);
    bool g;
    for (size_t n = 0; n < r.size(); ++n) {
        R k = ref::PI / q.speed * (*q.freq)(n);
        R e = line(N1, k * d1 * ((R)q.arrival.up() - q.steering.up()), &g) *
              line(N2, k * d2 * ((R)q.arrival.right() - q.steering.right()),
                   &g);
        if (baffle && q.arrival.front() <= 0) e = 0;
        c.close(r[n], e, 1e-9 * (N1 * N1 + N2 * N2), 1e-9, "planar-level");
    }
    if (std::abs(q.arrival.front()) > 1e-9)
        check_turned(c, bp, q, r, 1e-8 * (N1 * N1 + N2 * N2));
    double front = q.arrival.front();
    if (!baffle || q.steering.front() > 1e-9) {
        Query p = q;
        p.arrival = q.steering;
        for (double v : level(c, bp, p))
            c.close(v, 1.0, 1e-9, 0, "planar-peak");
    }
    if (std::abs(q.steering.front()) > 0.3) {
        Vector dg(r.size(), c.pick<double>({0.0, 0.7}));
        bp.directivity(q.freq, &dg, q.steering, q.speed);
        for (size_t n = 0; n < r.size(); ++n) {
            R w = q.speed / (*q.freq)(n);
            R e = 3 * w * w /
                  (2 * ref::PI * ref::PI * fabsl(q.steering.front()) * d1 *
                   d2 * sqrtl((N1 * N1 - 1.0L) * (N2 * N2 - 1.0L)));
            c.close(dg(n), baffle ? e / 2 : e, 0, 1e-9, "planar-directivity");
        }
    }
    c.nontrivial(front > 0);
}

// elements anywhere
struct Arb {
    std::vector<ref::Vec> pos;
    std::vector<C> w;
    std::unique_ptr<bp_arb> bp;
    bool baffle, positive;
    Arb(Case &c, double size, int max) {
        int N = c.integer(1, max);
        Matrix loc(N, 3);
        int kind = c.integer(0, 2);
        baffle = c.flip(0.3);
        boost::numeric::ublas::vector<std::complex<double>> wc(N);
        Vector wr(N);
        C total = 0;
        for (int n = 0; n < N; ++n) {
            for (int d = 0; d < 3; ++d) loc(n, d) = size * c.real(-1, 1, {0.0});
            pos.emplace_back(loc(n, 0), loc(n, 1), loc(n, 2));
            double a = c.real(0, 1), b = kind == 1 ? c.real(-1, 1) : 0;
            if (kind == 0) a = 1;
            wr(n) = a;
            wc(n) = std::complex<double>(a, b);
            w.push_back(C(a, b));
            total += w.back();
        }
        if (std::abs(total) < 0.05L) c.discard();
        positive = kind != 1;
        if (kind == 0) bp.reset(new bp_arb(loc, baffle));
        if (kind == 1) bp.reset(new bp_arb(loc, wc, baffle));
        if (kind == 2) bp.reset(new bp_arb(loc, wr, baffle));
    }
};

LAW(P22, arbitrary_array, 10000, 400000,
    "up to eight elements anywhere, uniform, real or complex weights, with "
    "and without baffle, against the normalised power of the sum of phases; "
    "non-trivial: two or more elements, arrival in front") {
    Query q = gen_query(c);
    double lambda = q.speed / (*q.freq)(0);
    Arb a(c, 2 * lambda, 8);
    auto r = level(c, *a.bp, q, a.positive);
    ref::Vec du = vec(q.arrival) - vec(q.steering);
    for (size_t n = 0; n < r.size(); ++n) {
        R k = 2 * ref::PI * (*q.freq)(n) / q.speed;
        C sum = 0, total = 0;
        for (size_t e = 0; e < a.w.size(); ++e) {
            sum += a.w[e] * std::polar((R)1, -k * du.dot(a.pos[e]));
            total += a.w[e];
        }
        R e = std::norm(sum) / std::norm(total);
        if (a.baffle && q.arrival.front() <= 0) e = 0;
        c.close(r[n], e, 1e-9 / (double)std::norm(total), 1e-9, "arb-level");
    }
    if (std::abs(q.arrival.front()) > 1e-9)
        check_turned(c, *a.bp, q, r, 1e-7);
    c.nontrivial(a.w.size() > 1 && q.arrival.front() > 0);
    if (!a.baffle || q.steering.front() > 1e-9) {
        q.arrival = q.steering;
        for (double v : level(c, *a.bp, q, a.positive))
            c.close(v, 1.0, 1e-9, 0, "arb-peak");
    }
}

LAW(P22, default_directivity, 60, 1200,
    "directivity computed by the base class, for arbitrary arrays and "
    "combinations, against the closed-form average over the sphere, whatever "
    "the output held before; non-trivial: always") {
    Query q;
    q.steering = gen_dir(c);
    q.freq = gen_freq(c, 300, 1000, 2);
    q.speed = c.real(1400, 1600);
    Vector dg(q.freq->size(), c.pick<double>({0.0, 0.7}));
    double lambda = q.speed / 1000;
    c.tick();
    if (c.flip(0.6)) {
        Arb a(c, 1.0 * lambda, 5);
        a.bp->directivity(q.freq, &dg, q.steering, q.speed);
        for (size_t n = 0; n < dg.size(); ++n) {
            if (a.baffle) {
                c.check(dg(n) >= 0, "directivity-negative");
                continue;
            }
            R k = 2 * ref::PI * (*q.freq)(n) / q.speed, sum = 0;
            C total = 0;
            for (size_t i = 0; i < a.w.size(); ++i) {
                total += a.w[i];
                for (size_t j = 0; j < a.w.size(); ++j) {
                    ref::Vec d = a.pos[i] - a.pos[j];
                    C t = a.w[i] * std::conj(a.w[j]) *
                          std::polar((R)1, k * vec(q.steering).dot(d));
                    sum += t.real() * sinc(k * d.norm());
                }
            }
            sum /= std::norm(total);
            c.close(dg(n), sum, 1e-4 / (double)std::norm(total), 2e-3,
                    "average-level", "directivity of an arbitrary array");
        }
    } else {
        // product or sum of a dipole and a cardioid: polynomials in n and e
        double N = c.real(0.2, 3), K = 40;
        std::list<bp_model::csptr> list;
        list.emplace_back(new bp_cardioid(N));
        bp_trig_type type =
            c.flip() ? bp_trig_type::cosine : bp_trig_type::sine;
        list.emplace_back(new bp_trig(type, K));
        bool sum = c.flip();
        bp_multi bp(list, sum ? bp_multi_type::sum : bp_multi_type::product);
        bp.directivity(q.freq, &dg, q.steering, q.speed);
        R k0 = powl(10, -K / 20), g = 1 - k0;
        // averages over the sphere: <n2>=1/3 <n4>=1/5 <n2 e2>=1/15
        R card = (1 + N * N / 3.0L) / ((1 + N) * (R)(1 + N));
        R trig = k0 + g / 3;
        R both = k0 * card +
                 g *
                     (1.0L / 3 + N * N *
                                     (type == bp_trig_type::cosine
                                          ? 1.0L / 5
                                          : 1.0L / 15)) /
                     ((1 + N) * (R)(1 + N));
        for (size_t n = 0; n < dg.size(); ++n)
            c.close(dg(n), sum ? card + trig : both, 1e-4, 1e-3,
                    "average-level", "directivity of a combination");
        c.label("multi");
    }
    c.nontrivial();
}

LAW(P22, simple_shapes, 12000, 500000,
    "omni, cardioid, sine/cosine patterns with random parameters: documented "
    "level, peak and directivity; non-trivial: not omni") {
    Query q = gen_query(c);
    size_t N = q.freq->size();
    int kind = c.integer(0, 3);
    double factor = c.real(0.1, 5, {1.0, 3.0}), null = -c.real(1, 60, {20.0});
    std::unique_ptr<bp_model> bp;
    R e = 1, dg = 1;
    double n = q.arrival.front(), r = q.arrival.right();
    if (kind == 0) bp.reset(new bp_omni());
    if (kind == 1) {
        bp.reset(new bp_cardioid(factor));
        R v = (1 + (R)factor * n) / (1 + (R)factor);
        e = v * v;
        dg = (3 + (R)factor * factor) / (3 * (1 + (R)factor) * (1 + factor));
    }
    if (kind >= 2) {
        bp.reset(new bp_trig(
            kind == 2 ? bp_trig_type::cosine : bp_trig_type::sine, null));
        R k = powl(10, (R)null / 20), x = kind == 2 ? n : r;
        e = k + (1 - k) * x * x;
        dg = k + (1 - k) / 3;
    }
    auto v = level(c, *bp, q);
    Vector d(N, c.pick<double>({0.0, 0.7}));
    bp->directivity(q.freq, &d, q.steering, q.speed);
    const char *key = kind == 0 ? "omni" : kind == 1 ? "cardioid" : "trig";
    for (size_t i = 0; i < N; ++i) {
        c.close(v[i], e, 1e-12, 1e-11, key, "level");
        c.close(d(i), dg, 1e-12, 1e-11, key, "directivity");
    }
    check_turned(c, *bp, q, v, 1e-10);
    q.arrival = kind == 3 ? bvector(0, 1, 0) : bvector(1, 0, 0);
    for (double x : level(c, *bp, q)) c.close(x, 1.0, 1e-12, 0, "shape-peak");
    c.nontrivial(kind > 0);
}

LAW(P22, solid_and_gaussian, 15000, 600000,
    "cookie-cutter and tapered beams of any width, any steering and arrival "
    "(straight up and down included), on both sides of every wrap of the "
    "azimuth: level, peak, directivity; non-trivial: arrival inside the solid "
    "beam or near the taper") {
    Query q = gen_query(c);
    size_t N = q.freq->size();
    double vert = c.real(1, 180, {180.0, 45.0});
    double horz = c.real(1, 360, {360.0, 90.0});
    // arrival near the steering, half of the time
    if (c.flip()) {
        double de = ref::deg(asinl(std::max(
                   -1.0L, std::min(1.0L, (R)q.steering.up())))),
               az = ref::deg(atan2l(q.steering.right(), q.steering.front()));
        q.arrival = bvector(de + vert * c.real(-1, 1),
                            az + horz * c.real(-1, 1));
    }
    c.note("vert", vert), c.note("horz", horz);
    auto clamp = [](R x) { return std::max(-1.0L, std::min(1.0L, x)); };
    R up1 = clamp(q.arrival.up()), up2 = clamp(q.steering.up());
    R de = fabsl(ref::deg(asinl(up1) - asinl(up2)));
    R az = fabsl(ref::angdiff(
        ref::deg(atan2l(q.arrival.right(), q.arrival.front())),
        ref::deg(atan2l(q.steering.right(), q.steering.front()))));
    // azimuth of a vertical direction means nothing
    bool vertical = fabsl(up1) > 1 - 1e-12L || fabsl(up2) > 1 - 1e-12L;
    double slack = vertical ? 1e-3 : 1e-6 / sqrt(1 - (double)(up1 * up1)) /
                                         sqrt(1 - (double)(up2 * up2)) * 0.01 +
                                         1e-6;
    bp_solid solid(vert, horz);
    auto s = level(c, solid, q);
    bool any = horz >= 360.0;
    bool in = de <= vert / 2 && (any || az <= horz / 2);
    bool edge = fabsl(de - vert / 2) < slack ||
                (!any && fabsl(az - horz / 2) < slack) || (vertical && !any);
    for (size_t i = 0; i < N; ++i)
        if (!edge) c.close(s[i], in ? 1 : 0, 0, 0, "solid-level");
    if (!edge) check_turned(c, solid, q, s, slack > 1e-5 ? 1.0 : 1e-12);
    bp_gaussian gauss(vert, horz);
    auto g = level(c, gauss, q);
    R x = vert < 180 ? de / vert : 0, y = horz < 360 ? az / horz : 0;
    for (size_t i = 0; i < N; ++i) {
        c.check(std::isfinite(g[i]), "gaussian-finite");
        if (!vertical || any)
            c.close(g[i], expl(-0.5L * (x * x + y * y)), slack, 0,
                    "gaussian-level");
    }
    // both report the share of the angles that the beam covers
    double str = ref::deg(asinl(up2));
    double share = (std::min(90.0, str + vert / 2) -
                    std::max(-90.0, str - vert / 2)) /
                   180 * horz / 360;
    for (const bp_model *bp : {(bp_model *)&solid, (bp_model *)&gauss}) {
        Vector d(N, c.pick<double>({0.0, 0.7}));
        bp->directivity(q.freq, &d, q.steering, q.speed);
        for (size_t i = 0; i < N; ++i)
            c.close(d(i), share, 1e-6, 1e-9, "solid-directivity");
        Query p = q;
        p.arrival = q.steering;
        for (double v : level(c, *bp, p))
            c.close(v, 1.0, 1e-12, 0, "solid-peak");
    }
    c.nontrivial(in || x + y < 2);
    c.label(vertical ? "vertical" : in ? "inside" : "outside");
}

LAW(P22, piston, 10000, 400000,
    "pistons of 0.1 to 10 wavelengths with and without baffle: documented "
    "level and directivity, directivity close to the average of the level; "
    "non-trivial: arrival in front, off axis") {
    Query q = gen_query(c);
    size_t N = q.freq->size();
    double D = q.speed / (*q.freq)(0) * c.real(0.1, 10, {4.0});
    bool baffle = c.flip();
    bp_piston bp(D, baffle);
    auto r = level(c, bp, q);
    R n = std::max(-1.0L, std::min(1.0L, (R)q.arrival.front()));
    R s = sqrtl(1 - n * n);
    for (size_t i = 0; i < N; ++i) {
        double x = ref::PI * D * (*q.freq)(i) / q.speed * s;
        double e = x < 1e-6 ? 1.0 : 2 * std::cyl_bessel_j(1.0, x) / x;
        e = baffle && n <= 0 ? 0 : e * e;
        // s is the root of a difference on the axis
        c.close(r[i], e, 1e-7, 1e-7, "piston-level");
    }
    if (fabsl(n) > 1e-9 && s > 1e-4) check_turned(c, bp, q, r, 1e-6);
    Vector d(N, c.pick<double>({0.0, 0.7}));
    bp.directivity(q.freq, &d, q.steering, q.speed);
    for (size_t i = 0; i < N; ++i) {
        double ka = ref::PI * D * (*q.freq)(i) / q.speed;
        double e = (baffle ? 1 : 2) / (ka * ka);
        c.close(d(i), e, 0, 1e-9, "piston-directivity");
        // average of the level in closed form
        double avg = e * (1 - std::cyl_bessel_j(1.0, 2 * ka) / ka);
        if (ka > 6) c.close(d(i), avg, 0, 0.05, "piston-average");
    }
    q.arrival = bvector(1, 0, 0);
    for (double v : level(c, bp, q)) c.close(v, 1.0, 1e-12, 0, "piston-peak");
    c.nontrivial(n > 0 && s > 0.01);
}

LAW(P22, combinations, 8000, 200000,
    "products and sums of zero to four random patterns against the product "
    "and sum of their levels; non-trivial: two or more patterns") {
    Query q = gen_query(c);
    size_t N = q.freq->size();
    bool sum = c.flip();
    std::list<bp_model::csptr> list;
    int parts = c.integer(0, 4);
    std::vector<double> e(N, sum ? 0.0 : 1.0);
    double d = q.speed / (*q.freq)(0) / 2;
    for (int p = 0; p < parts; ++p) {
        switch (c.integer(0, 4)) {
            case 0: list.emplace_back(new bp_omni()); break;
            case 1: list.emplace_back(new bp_cardioid(c.real(0.5, 3))); break;
            case 2: list.emplace_back(new bp_trig()); break;
            case 3: list.emplace_back(new bp_line(5, d, HLA)); break;
            case 4: list.emplace_back(new bp_solid(90.0, 180.0)); break;
        }
        auto v = level(c, *list.back(), q);
        for (size_t n = 0; n < N; ++n) e[n] = sum ? e[n] + v[n] : e[n] * v[n];
    }
    std::unique_ptr<bp_multi> bp;
    if (!sum && c.flip())
        bp.reset(new bp_multi(list));
    else
        bp.reset(new bp_multi(
            list, sum ? bp_multi_type::sum : bp_multi_type::product));
    auto r = level(c, *bp, q, !sum);
    for (size_t n = 0; n < N; ++n)
        c.close(r[n], e[n], 1e-12, 1e-10, sum ? "sum" : "product");
    c.nontrivial(parts > 1);
    c.label(sum ? "sum" : "product");
}

LAW(P22, measured_grid, 6000, 150000,
    "tables over frequency, elevation and azimuth, linear or nearest, against "
    "the reference interpolation in the direction of arrival; non-trivial: "
    "always") {
    Query q = gen_query(c);
    if (std::abs(q.arrival.up()) > 1 - 1e-12) {
        c.label("vertical");
    }
    seq_vector::csptr ax[3];
    ax[0].reset(new seq_linear(c.real(50, 500), c.real(100, 2000),
                               c.integer(2, 5)));
    int nde = c.integer(2, 6), naz = c.integer(2, 7);
    ax[1].reset(new seq_linear(-90.0, 180.0 / (nde - 1), nde));
    ax[2].reset(new seq_linear(-180.0, 360.0 / (naz - 1), naz));
    auto *g = new gen_grid<3>(ax);
    data_grid<3>::csptr grid(g);
    gridref::Table t;
    interp_enum type =
        c.flip(0.7) ? interp_enum::linear : interp_enum::nearest;
    for (int d = 0; d < 3; ++d) {
        t.axis.push_back(gridref::elements(*ax[d]));
        t.type.push_back(type), t.limit.push_back(true);
        g->interp_type(d, type);
    }
    size_t idx[3];
    for (idx[0] = 0; idx[0] < ax[0]->size(); ++idx[0])
        for (idx[1] = 0; idx[1] < ax[1]->size(); ++idx[1])
            for (idx[2] = 0; idx[2] < ax[2]->size(); ++idx[2]) {
                double v = c.real(0, 1);
                t.data.push_back(v);
                g->setdata(idx, v);
            }
    bp_grid bp(grid);
    auto r = level(c, bp, q);
    double de = ref::deg(asinl(std::max(
               -1.0L, std::min(1.0L, (R)q.arrival.up())))),
           az = ref::deg(atan2l(q.arrival.right(), q.arrival.front()));
    bool seam = std::abs(std::abs(az) - 180) < 1e-6 ||
                std::abs(q.arrival.up()) > 1 - 1e-10;
    for (size_t n = 0; n < r.size(); ++n) {
        c.check(std::isfinite(r[n]), "grid-finite");
        if (seam) continue;
        double f = (*q.freq)(n);
        if (type == interp_enum::nearest) {
            bool tie = false;
            double at[3] = {f, de, az};
            for (int d = 0; d < 3; ++d) {
                double inc = ax[d]->increment(0);
                double u = (at[d] - (*ax[d])(0)) / inc;
                if (std::abs(u - std::floor(u) - 0.5) < 1e-6) tie = true;
            }
            if (tie) continue;
        }
        c.close(r[n], t.interp({f, de, az}).value, 1e-6, 0, "grid-level");
    }
    c.nontrivial();
}

LAW(P22, element_layouts, 4000, 60000,
    "ring and uniform layouts of random size against their geometry; "
    "non-trivial: three or more elements") {
    Matrix loc;
    if (c.flip()) {
        int n[3];
        double d[3];
        for (int i = 0; i < 3; ++i)
            n[i] = c.integer(1, 4), d[i] = c.real(0.1, 2);
        bp_con_uniform(n[0], d[0], n[1], d[1], n[2], d[2], &loc);
        size_t i = 0;
        c.equal(loc.size1(), (size_t)(n[0] * n[1] * n[2]), "uniform-size");
        for (int u = 0; u < n[2]; ++u)
            for (int e = 0; e < n[1]; ++e)
                for (int f = 0; f < n[0]; ++f, ++i) {
                    c.close(loc(i, 0), (f - (n[0] - 1) / 2.0) * d[0], 1e-12, 0,
                            "uniform-front");
                    c.close(loc(i, 1), (e - (n[1] - 1) / 2.0) * d[1], 1e-12, 0,
                            "uniform-right");
                    c.close(loc(i, 2), (u - (n[2] - 1) / 2.0) * d[2], 1e-12, 0,
                            "uniform-up");
                }
    } else {
        int rings = c.integer(1, 4);
        Vector radii(rings), offset(rings);
        boost::numeric::ublas::vector<int> n(rings);
        size_t total = 0;
        for (int i = 0; i < rings; ++i) {
            radii(i) = c.real(0.1, 5), n(i) = c.integer(1, 7);
            offset(i) = c.real(-M_PI, M_PI);
            total += n(i);
        }
        bp_con_ring(radii, n, offset, &loc);
        c.equal(loc.size1(), total, "ring-size");
        size_t k = 0;
        for (int i = 0; i < rings; ++i)
            for (int j = 0; j < n(i); ++j, ++k) {
                R a = offset(i) - 2 * ref::PI * j / n(i);
                c.close(loc(k, 0), radii(i) * cosl(a), 1e-10, 0, "ring-front");
                c.close(loc(k, 1), radii(i) * sinl(a), 1e-10, 0, "ring-right");
                c.close(loc(k, 2), 0, 0, 0, "ring-up");
            }
    }
    c.nontrivial(loc.size1() > 2);
}
