// P05: propagation results do not depend on bookkeeping or viewpoint
#include <usml/ocean/ocean.h>
#include <usml/types/gen_grid.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/waveq3d/waveq3d.h>

#include "calib.h"
#include "eigref.h"
#include "onray.h"

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;
namespace ub = boost::numeric::ublas;

// bottom and water that change with place, in a frame that can be turned and
// mirrored
struct Frame {
    double turn = 0;  // degrees east
    double flip = 1;  // -1 for a mirror image
    double lon(double x) const { return flip * x + turn; }
};

class floor_model : public boundary_model {
   public:
    double depth = 0, swell = 0, ns = 0, ew = 0, lat = 0, lon = 0;
    Frame frame;
    double h(double theta, double phi, double &dt, double &dp) const {
        // local coordinates, of the original frame
        double x = frame.flip * remainder(phi - frame.turn * M_PI / 180 - frame.flip * lon, 2 * M_PI);
        double y = theta - lat;
        double s = sin(ns * y + ew * x), k = cos(ns * y + ew * x);
        dt = swell * ns * k, dp = swell * ew * k * frame.flip;
        return wposition::earth_radius - depth + swell * s;
    }
    void height(const wposition &at, ub::matrix<double> *rho, wvector *normal) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                double r;
                wvector1 n;
                wposition1 p(at, i, j);
                height(p, &r, normal ? &n : nullptr);
                (*rho)(i, j) = r;
                if (normal) {
                    normal->rho(i, j, n.rho());
                    normal->theta(i, j, n.theta());
                    normal->phi(i, j, n.phi());
                }
            }
    }
    void height(const wposition1 &at, double *rho, wvector1 *n) const override {
        double dt, dp;
        double r = h(at.theta(), at.phi(), dt, dp);
        *rho = r;
        if (n) {
            double a = -dt / r, b = -dp / (r * sin(at.theta()));
            double N = sqrt(1 + a * a + b * b);
            n->rho(1 / N), n->theta(a / N), n->phi(b / N);
        }
    }
};

class water_model : public profile_model {
   public:
    double c0 = 1500, g = 0, ns = 0, ew = 0, lat = 0, lon = 0;
    Frame frame;
    water_model(const attenuation_model::csptr &a) : profile_model(a) {}
    void sound_speed(const wposition &at, ub::matrix<double> *speed,
                     wvector *gradient) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                double x = frame.flip * remainder(at.phi(i, j) - frame.turn * M_PI / 180 - frame.flip * lon, 2 * M_PI);
                double y = at.theta(i, j) - lat;
                double z = wposition::earth_radius - at.rho(i, j);
                (*speed)(i, j) = c0 + g * z + ns * y + ew * x;
                if (gradient) {
                    gradient->rho(i, j, -g);
                    gradient->theta(i, j, ns / at.rho(i, j));
                    gradient->phi(i, j, frame.flip * ew / (at.rho(i, j) * sin(at.theta(i, j))));
                }
            }
    }
};

struct Scenario {
    double lat, lon, z, depth, dt, c0, g;
    double swell = 0, ns = 0, ew = 0, cns = 0, cew = 0;
    std::vector<double> de, az, f, range, bearing, zt;
    size_t n1 = 1, n2 = 1;
    int steps;
    wave_queue::spreading_type type;
    bool table_profile = false, table_bottom = false;
    double nudge = 0;
};

typedef std::vector<eigenray_model::csptr> Rays;
typedef std::map<std::pair<size_t, size_t>, Rays> Found;

static Found run(const Scenario &s, const Frame &f) {
    wposition1 source(s.lat, f.lon(s.lon), -s.z);
    attenuation_model::csptr att(new attenuation_thorp());
    profile_model::csptr water;
    boundary_model::csptr floor;
    reflect_loss_model::csptr loss(new reflect_loss_constant(0.7));
    if (s.table_profile) {
        double z[3] = {wposition::earth_radius - 9000, wposition::earth_radius - 4000, wposition::earth_radius + 100};
        seq_vector::csptr ax[1] = {seq_vector::csptr(new seq_data(z, 3))};
        auto *grid = new gen_grid<1>(ax);
        for (size_t i = 0; i < 3; ++i) grid->setdata(&i, s.c0);
        grid->interp_type(0, interp_enum::linear);
        water.reset(new profile_grid<1>(data_grid<1>::csptr(grid), att));
    } else if (s.g == 0 && s.cns == 0 && s.cew == 0) {
        water.reset(new profile_linear(s.c0, att));
    } else {
        auto *w = new water_model(att);
        w->c0 = s.c0, w->g = s.g, w->ns = s.cns, w->ew = s.cew;
        w->lat = source.theta(), w->lon = s.lon * M_PI / 180, w->frame = f;
        water.reset(w);
    }
    if (s.table_bottom) {
        double r = wposition::earth_radius;
        double th = source.theta(), ph = source.phi();
        double lo[3] = {th - 0.2, th, th + 0.2}, hi[3] = {ph - 0.3, ph, ph + 0.3};
        seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_data(lo, 3)),
                                   seq_vector::csptr(new seq_data(hi, 3))};
        auto *grid = new gen_grid<2>(ax);
        for (size_t i = 0; i < 9; ++i) {
            size_t k[2] = {i / 3, i % 3};
            grid->setdata(k, r - s.depth);
        }
        for (int i = 0; i < 2; ++i) grid->interp_type(i, interp_enum::linear);
        floor.reset(new boundary_grid<2>(data_grid<2>::csptr(grid), loss));
    } else if (s.swell == 0) {
        floor.reset(new boundary_flat(s.depth, loss));
    } else {
        auto *b = new floor_model();
        b->depth = s.depth, b->swell = s.swell, b->ns = s.ns, b->ew = s.ew;
        b->lat = source.theta(), b->lon = s.lon * M_PI / 180, b->frame = f;
        floor.reset(b);
    }
    ocean_model::csptr ocean(new ocean_model(boundary_model::csptr(new boundary_flat(0.0)), floor, water));
    std::vector<double> az = s.az;
    if (f.flip < 0) {
        for (auto &x : az) x = -x;
        std::reverse(az.begin(), az.end());
    }
    seq_vector::csptr de(new seq_linear(s.de[0], s.de[1] - s.de[0], s.de.size()));
    seq_vector::csptr fan(new seq_linear(az[0], az[1] - az[0], az.size()));
    seq_vector::csptr freq(new seq_data(s.f.data(), s.f.size()));
    wposition targets(s.n1, s.n2);
    wposition1 origin(s.lat, s.lon, -s.z);
    for (size_t i = 0; i < s.n1; ++i)
        for (size_t j = 0; j < s.n2; ++j) {
            size_t k = i * s.n2 + j;
            rt::Circle g(origin, s.bearing[k] + s.nudge * 0.04 * (s.az[1] - s.az[0]));
            Vec u = g.up((s.range[k] + s.nudge) / wposition::earth_radius);
            targets.rho(i, j, wposition::earth_radius - s.zt[k] + s.nudge);
            targets.theta(i, j, std::acos(u.z));
            double lon = f.lon(ref::deg(std::atan2(u.y, u.x)));
            targets.phi(i, j, lon * M_PI / 180);
        }
    wave_queue wave(ocean, freq, source, de, fan, s.dt, &targets, s.type);
    wave.intensity_threshold(1000.0);
    eig::Listener log;
    wave.add_eigenray_listener(&log);
    for (int n = 0; n < s.steps; ++n) wave.step();
    Found out;
    for (size_t i = 0; i < s.n1; ++i)
        for (size_t j = 0; j < s.n2; ++j)
            for (auto &y : log.rays[{i, j}]) out[{i, j}].push_back(y);
    return out;
}

static Scenario generate(Case &c) {
    Scenario s;
    s.lat = c.real(-70, 70, {0.0, 45.0});
    s.lon = c.real(-180, 180, {180.0, 0.0, -45.0});
    s.depth = c.logreal(200, 4000);
    s.z = s.depth * c.real(0.05, 0.8);
    s.c0 = c.real(1450, 1550), s.g = c.real(-0.05, 0.05, {0.0, 0.0});
    int kind = c.integer(0, 2);
    if (kind == 1) s.swell = s.depth * c.real(0, 0.1);
    s.ns = c.real(-1000, 1000), s.ew = c.real(-1000, 1000, {0.0});
    if (kind == 2) s.cns = c.real(-2000, 2000), s.cew = c.real(-2000, 2000, {0.0});
    s.type = c.flip(0.5) ? wave_queue::CLASSIC_RAY : wave_queue::HYBRID_GAUSSIAN;
    int nde = c.integer(12, 60);
    double reach = c.real(20, 75), step = 2 * reach / (nde - 1);
    for (int i = 0; i < nde; ++i) s.de.push_back(-reach + i * step);
    double toward = c.real(-180, 180, {0.0, 180.0, 90.0}), daz;
    bool circle = c.flip(0.3);
    if (circle) {
        daz = c.pick<double>({10.0, 15.0, 30.0});
        for (int i = 0; i <= 360 / daz; ++i) s.az.push_back(-180 + i * daz);
    } else {
        daz = c.logreal(0.5, 10);
        int n = c.integer(7, 11);
        double off = c.real(-0.4, 0.4);
        for (int i = 0; i < n; ++i) s.az.push_back(toward + (i - (n - 1) / 2.0 + off) * daz);
    }
    s.n1 = c.integer(1, 3), s.n2 = c.integer(1, 2);
    double far = c.logreal(s.depth / 2, 10000);
    for (size_t k = 0; k < s.n1 * s.n2; ++k) {
        s.range.push_back(far * c.real(0.3, 1) + 100);
        s.bearing.push_back(circle ? c.real(-180, 180) : toward + daz * c.real(-1, 1));
        s.zt.push_back(s.depth * c.real(0.05, 0.8));
    }
    s.dt = std::min({c.logreal(0.01, 0.1), s.depth / 1500 / 4});
    s.steps = std::min({(int)(1.5 * far / 1500 / s.dt) + 6, 150, 150000 / (int)(nde * s.az.size())});
    int nf = c.integer(1, 3);
    for (int k = 0; k < nf; ++k) s.f.push_back(100 * pow(10, k) * c.real(1, 5));
    c.note("lat", s.lat), c.note("lon", s.lon), c.note("z", s.z), c.note("depth", s.depth);
    c.note("c0", s.c0), c.note("g", s.g), c.note("kind", kind), c.note("swell", s.swell);
    c.note("ns", s.ns), c.note("ew", s.ew), c.note("cns", s.cns), c.note("cew", s.cew);
    c.note("nde", nde), c.note("reach", reach), c.note("az0", s.az[0]), c.note("daz", daz);
    c.note("naz", s.az.size()), c.note("dt", s.dt), c.note("steps", s.steps);
    c.notev("range", s.range, s.range.size()), c.notev("bearing", s.bearing, s.bearing.size());
    c.notev("zt", s.zt, s.zt.size()), c.notev("f", s.f, s.f.size());
    return s;
}

static std::string show(const eigenray_model &y) {
    std::ostringstream s;
    s.precision(12);
    s << "t " << y.travel_time << " de " << y.source_de << " az " << y.source_az << " at de "
      << y.target_de << " az " << y.target_az << " counts " << y.surface << y.bottom << y.caustic
      << y.upper << y.lower << " loss " << y.intensity(0);
    return s.str();
}

// identical in all bits
static bool same(const eigenray_model &a, const eigenray_model &b, size_t nf) {
    bool ok = a.travel_time == b.travel_time && a.source_de == b.source_de &&
              a.source_az == b.source_az && a.target_de == b.target_de &&
              a.target_az == b.target_az && a.surface == b.surface && a.bottom == b.bottom &&
              a.caustic == b.caustic && a.upper == b.upper && a.lower == b.lower;
    for (size_t f = 0; f < nf; ++f)
        ok = ok && a.intensity(f) == b.intensity(f) && a.phase(f) == b.phase(f);
    return ok;
}

LAW(P05, same_target, 800, 20000,
    "oceans with or without undulating bottoms and sound speeds that change with "
    "depth and place, 1-6 targets, both spreading models: a second run, other "
    "orders and shapes of the targets, a subset of them, one more target, and added frequencies "
    "leave the eigenrays of each target as they are; non-trivial: three "
    "eigenrays or more") {
    Scenario s = generate(c);
    Frame f;
    Found a = run(s, f);
    size_t total = 0;
    for (auto &x : a) total += x.second.size();
    size_t n = s.n1 * s.n2;
    auto compare = [&](Found &b, const Scenario &t, const std::vector<size_t> &perm,
                       const char *key, size_t nf) {
        for (size_t k = 0; k < perm.size(); ++k) {
            auto &x = a[{perm[k] / s.n2, perm[k] % s.n2}];
            auto &y = b[{k / t.n2, k % t.n2}];
            std::ostringstream w;
            w << "target " << perm[k] << ": " << x.size() << " eigenrays became " << y.size();
            c.check(x.size() == y.size(), key, w.str());
            if (x.size() != y.size()) return;
            for (size_t q = 0; q < x.size(); ++q)
                c.check(same(*x[q], *y[q], nf), key, show(*x[q]) + " became " + show(*y[q]));
        }
    };
    std::vector<size_t> all(n);
    for (size_t k = 0; k < n; ++k) all[k] = k;
    Found again = run(s, f);
    compare(again, s, all, "second-run", s.f.size());
    // another order, another shape, fewer targets
    Scenario t = s;
    std::vector<size_t> perm = all;
    for (size_t k = n; k > 1; --k) std::swap(perm[k - 1], perm[c.integer(0, k - 1)]);
    size_t keep = c.integer(1, n);
    perm.resize(keep);
    for (size_t k = 0; k < keep; ++k)
        t.range[k] = s.range[perm[k]], t.bearing[k] = s.bearing[perm[k]], t.zt[k] = s.zt[perm[k]];
    t.n1 = keep, t.n2 = 1;
    if (c.flip(0.5)) std::swap(t.n1, t.n2);
    c.note("keep", keep), c.note("row", t.n1 == 1);
    Found other = run(t, f);
    compare(other, t, perm, "other-targets", s.f.size());
    // one more target, often nearly above or below the source
    {
        Scenario x = s;
        size_t at = c.integer(0, n);
        double range = c.flip(0.7) ? c.real(0, 600, {1}) : c.logreal(100, 20e3);
        x.range.insert(x.range.begin() + at, range);
        x.bearing.insert(x.bearing.begin() + at, c.real(0, 360));
        x.zt.insert(x.zt.begin() + at, s.zt[c.integer(0, n - 1)]);
        x.n1 = n + 1, x.n2 = 1;
        Found wide = run(x, f), others;
        for (size_t k = 0; k < n; ++k) others[{k, 0}] = wide[{k + (k >= at), 0}];
        x.n1 = n;
        compare(others, x, all, "one-more-target", s.f.size());
    }
    // more frequencies
    Scenario u = s;
    u.f.push_back(s.f.back() * c.real(1.5, 20));
    Found more = run(u, f);
    compare(more, u, all, "added-frequency", s.f.size());
    // and a lower one: sums over beams end where the first of the frequencies
    // does not change any more, so others have some more terms
    Scenario v = s;
    v.f.insert(v.f.begin(), s.f.front() / c.real(1.5, 10));
    Found low = run(v, f);
    for (size_t k = 0; k < n; ++k) {
        auto &x = a[{k / s.n2, k % s.n2}], &y = low[{k / s.n2, k % s.n2}];
        c.equal(x.size(), y.size(), "added-low-frequency");
        if (x.size() != y.size()) return;
        for (size_t q = 0; q < x.size(); ++q) {
            c.equal(x[q]->travel_time, y[q]->travel_time, "added-low-frequency");
            for (size_t i = 0; i < s.f.size(); ++i) {
                double e = std::abs(x[q]->intensity(i) - y[q]->intensity(i + 1));
                // a well lit path: not far from spherical spreading in both
                auto &r = *x[q];
                double near = 20 * log10(1500 * r.travel_time) + 4;
                double off = (r.source_de - s.de[0]) / (s.de[1] - s.de[0]), last = s.de.size() - 1;
                if (s.type == wave_queue::HYBRID_GAUSSIAN &&
                    (r.surface + r.bottom + r.caustic || off < 5 || off > last - 5 ||
                     std::min(r.intensity(i), y[q]->intensity(i + 1)) > near))
                    continue;
                CAL(s.type == wave_queue::CLASSIC_RAY ? "lowc" : "lowg", e, 1.0, show(*x[q]) + " became " + show(*y[q]));
                c.check(e <= (s.type == wave_queue::CLASSIC_RAY ? 0.0 : 5.0), "added-low-frequency-loss",
                        show(*x[q]) + " became " + show(*y[q]));
            }
        }
    }
    c.nontrivial(total >= 3);
}

// how well rays of two runs agree, "" when they do
static std::string differ(const Scenario &s, Found &a, Found &b, const Frame &f, double floor_db) {
    for (size_t k = 0; k < s.n1 * s.n2; ++k) {
        auto &x = a[{k / s.n2, k % s.n2}], &y = b[{k / s.n2, k % s.n2}];
        std::ostringstream w;
        w << "target " << k << ": " << x.size() << " eigenrays became " << y.size();
        if (x.size() != y.size()) return w.str();
        std::vector<int> used(y.size(), 0);
        double de = s.de[1] - s.de[0], az = s.az[1] - s.az[0];
        for (auto &p : x) {
            int best = -1;
            double score = 1e9;
            for (size_t q = 0; q < y.size(); ++q) {
                if (used[q] || y[q]->surface != p->surface || y[q]->bottom != p->bottom) continue;
                double d = std::abs(y[q]->source_de - p->source_de) / de +
                           std::abs(y[q]->travel_time - p->travel_time) / s.dt;
                if (d < score) score = d, best = q;
            }
            if (best < 0) return "no partner of " + show(*p);
            used[best] = 1;
            auto &q = *y[best];
            double e[6] = {std::abs(q.travel_time - p->travel_time) / s.dt,
                           std::abs(q.source_de - p->source_de) / de,
                           std::abs(q.target_de - p->target_de) / de,
                           (double)fabsl(ref::angdiff(q.source_az, f.flip * p->source_az)) / az,
                           (double)fabsl(ref::angdiff(q.target_az, f.flip * p->target_az)) / az, 0};
            // extrapolated from the edge of the fan
            double off = remainder(p->source_az - s.az[0], 360) / az, db = floor_db;
            if (s.az.back() - s.az[0] < 359 && (off < 1 || off > s.az.size() - 2.0) && f.flip < 0) db = 1e9;
            for (size_t k = 0; k < s.f.size() && db < 100; ++k)
                e[5] = std::max({e[5], std::abs(q.intensity(k) - p->intensity(k)) / db * 0.01,
                                 std::abs(q.phase(k) - p->phase(k))});
            bool counts = q.caustic == p->caustic && q.upper == p->upper && q.lower == p->lower;
            for (int i = 0; i < 6; ++i)
                if (!(e[i] < 0.01)) counts = false;
            std::ostringstream w;
            w << " errors " << e[0] << " " << e[1] << " " << e[2] << " " << e[3] << " " << e[4] << " " << e[5];
            if (!counts) return show(*p) + " became " + show(q) + w.str();
        }
    }
    return "";
}

static void related(Case &c, const Scenario &s, const Scenario &t, const Frame &f, const char *key) {
    // targets half way between rays can go either way: look again from nearby
    std::string first;
    for (double nudge : {0.0, 1.7, -2.3}) {
        Scenario x = s, y = t;
        x.nudge = y.nudge = nudge;
        Found a = run(x, Frame()), b = run(y, f);
        // beams end at the first and last azimuths of a fan and of a family of
        // rays, each in its own way, and sums over them end when terms are
        // small: those to one side come first; areas of cells with some
        // corners reflected depend on the diagonal
        bool beams = s.type == wave_queue::HYBRID_GAUSSIAN, swell = s.swell > 0 || s.cns != 0 || s.cew != 0;
        bool open = s.az.back() - s.az[0] < 359;
        double db = f.flip > 0 ? 0.1 : beams ? (swell ? 1e9 : open ? 3.0 : 1.5) : swell ? 1.0 : 0.1;
        std::string d = differ(s, a, b, f, db);
        if (nudge == 0) {
            size_t total = 0;
            for (auto &q : a) total += q.second.size();
            c.nontrivial(total >= 3);
        }
        if (d.empty()) return;
        if (first.empty()) first = d;
    }
    c.check(false, key, first);
}

LAW(P05, other_viewpoint, 600, 20000,
    "the same oceans turned around the axis of the earth by any angle, and "
    "mirrored east-west: eigenrays agree in all of their parts; non-trivial: "
    "three eigenrays or more") {
    Scenario s = generate(c);
    Frame f;
    f.turn = c.real(-200, 200, {180.0, 90.0, 360.0});
    if (c.flip(0.5)) f.flip = -1;
    c.note("turn", f.turn), c.note("flip", f.flip);
    related(c, s, s, f, f.flip < 0 ? "mirror" : "turn");
}

LAW(P05, tabulated, 400, 12000,
    "constant sound speed and flat bottom as models and as tables: eigenrays "
    "agree in all of their parts; non-trivial: three eigenrays or more") {
    Scenario s = generate(c);
    s.g = s.cns = s.cew = s.swell = 0;
    Scenario t = s;
    int what = c.integer(1, 3);
    c.note("what", what);
    t.table_profile = what & 1, t.table_bottom = what & 2;
    related(c, s, t, Frame(), what == 1 ? "tabulated-profile" : what == 2 ? "tabulated-bottom" : "tabulated");
}

LAW(P05, reciprocal, 2500, 60000,
    "a target on an exact ray of any smooth profile, and the source and target "
    "exchanged: the ray back takes the same time, leaves where the first arrived "
    "and arrives where it left, over the same contacts; non-trivial: both runs "
    "resolve the ray") {
    onray::Scene s = onray::generate(c);
    if (!s.resolved) return;
    onray::Scene back = s;
    back.source = wposition1(s.targets, 0, 0);
    back.lat = back.source.latitude(), back.lon = back.source.longitude();
    back.z = (double)(s.R0 - s.exact.y.r);
    back.gamma = -ref::deg(s.exact.y.gamma);
    back.bearing = s.arrive_az + 180;
    double u = c.real(-0.4, 0.4), v = c.real(-0.4, 0.4);
    c.note("u2", u), c.note("v2", v);
    back.de.reset(new seq_linear((double)back.gamma - (s.k + u) * s.delta, s.delta, (int)s.de->size()));
    back.az.reset(new seq_linear((double)back.bearing - (s.j + v) * s.daz, s.daz, (int)s.az->size()));
    if ((*back.de)(0) < -89 || (*back.de)(back.de->size() - 1) > 89) return;
    onray::prepare(back, false);
    back.targets.rho(0, 0, s.source.rho());
    back.targets.theta(0, 0, s.source.theta());
    back.targets.phi(0, 0, s.source.phi());
    if (!back.resolved || back.exact.hits.size() != s.exact.hits.size()) return;
    const eigenray_model *ray[2] = {nullptr, nullptr};
    eig::Listener log[2];
    int ns = 0, nb = 0;
    for (auto &h : s.exact.hits) (h.surface ? ns : nb)++;
    for (int q = 0; q < 2; ++q) {
        const onray::Scene &x = q ? back : s;
        boundary_model::csptr top(new boundary_flat(0.0));
        boundary_model::csptr bottom(new boundary_flat(x.depth > 0 ? (double)x.depth : 1e5));
        ocean_model::csptr ocean(new ocean_model(top, bottom, x.m.model));
        seq_vector::csptr freq(new seq_linear(1000.0, 1.0, 1));
        wave_queue wave(ocean, freq, x.source, x.de, x.az, x.dt, &x.targets, wave_queue::CLASSIC_RAY);
        wave.add_eigenray_listener(&log[q]);
        for (int n = 0; n < x.steps + 4; ++n) wave.step();
        for (auto &y : log[q].rays[{0, 0}])
            if (y->surface == ns && y->bottom == nb && fabsl(y->source_de - x.gamma) < 1.3 * x.delta &&
                fabsl(y->travel_time - x.t) < 2 * x.dt)
                ray[q] = y.get();
        c.check(ray[q], q ? "reciprocal-missing" : "forward-missing", "");
        if (!ray[q]) return;
    }
    auto &a = *ray[0], &b = *ray[1];
    R tol[2], bend[2];
    R time = 0;
    for (int q = 0; q < 2; ++q) {
        const onray::Scene &x = q ? back : s;
        bend[q] = x.delta;
        for (int i = 0; i < 4; ++i)
            bend[q] = std::max(bend[q], fabsl(ref::deg(x.near[i + 1].y.gamma - x.near[i].y.gamma)));
        tol[q] = 0.15L + x.smooth + 2 * x.shift_de + 4 * x.wobble + 0.3L / powl(x.spread * ref::rad(x.delta), 2);
        time += 2 * ((0.03L + 2 * x.shift_t + x.smooth * 0.1L) * x.dt + x.astray / 1500);
    }
    std::string w = show(a) + " and back " + show(b);
    CAL("time", fabsl(a.travel_time - b.travel_time), time, w);
    CAL("leave", fabsl(a.source_de + b.target_de), tol[0] * s.delta + tol[1] * bend[1], w);
    CAL("arrive", fabsl(a.target_de + b.source_de), tol[1] * s.delta + tol[0] * bend[0], w);
    CAL("az", fabsl(ref::angdiff(a.source_az, b.target_az + 180)), 0.2 * s.daz, w);
    c.close(a.travel_time, b.travel_time, time, 0, "reciprocal-time", w);
    c.close(a.source_de, -b.target_de, tol[0] * s.delta + tol[1] * bend[1], 0, "reciprocal-launch", w);
    c.close(a.target_de, -b.source_de, tol[1] * s.delta + tol[0] * bend[0], 0, "reciprocal-arrival", w);
    c.close(ref::angdiff(a.source_az, b.target_az + 180), 0, 0.2 * s.daz, 0, "reciprocal-launch-az", w);
    c.close(ref::angdiff(a.target_az, b.source_az + 180), 0, 0.2 * s.daz, 0, "reciprocal-arrival-az", w);
    c.equal(a.upper + a.lower, b.upper + b.lower, "reciprocal-vertices", w);
    c.nontrivial(true);
    c.label(s.m.name);
}
