// P19: boundary models return true heights and true unit normals
#include <usml/ocean/ocean.h>

#include "gridref.h"
#include "util.h"

using namespace gridref;
using namespace usml::ocean;
using pbt::Case;

struct EarthRadius {  // restores the global earth radius
    double keep = wposition::earth_radius;
    ~EarthRadius() { wposition::earth_radius = keep; }
};

struct Surface {
    R height, nr, nt, np;
};

static void put(wposition &p, size_t i, size_t j, const double *at) {
    p.rho(i, j, at[0]), p.theta(i, j, at[1]), p.phi(i, j, at[2]);
}

// grid query, scalar query, and each position alone, against the truth
static void compare(Case &c, const boundary_model &b, const wposition &pos,
                    std::function<Surface(size_t, size_t)> truth,
                    std::function<bool(size_t, size_t)> kink, double htol,
                    double ntol) {
    size_t rows = pos.size1(), cols = pos.size2();
    matrix<double> rho(rows, cols), alone(rows, cols);
    wvector n(rows, cols);
    double g = c.pick<double>({0.0, 777.0});
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            rho(i, j) = g;
            n.rho(i, j, g), n.theta(i, j, g), n.phi(i, j, g);
        }
    b.height(pos, &rho, &n);
    b.height(pos, &alone);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            Surface s = truth(i, j);
            c.close(rho(i, j), s.height, htol, 0, "height", "grid height");
            c.close(alone(i, j), rho(i, j), 0, 0, "height-without-normal");
            wposition1 one(pos, i, j);
            double r1 = g, r2 = g;
            wvector1 v(g, g, g);
            b.height(one, &r1, &v);
            b.height(one, &r2);
            c.close(r1, rho(i, j), 1e-8, 0, "scalar-height",
                    "single position against the grid form");
            c.close(r2, r1, 0, 0, "scalar-height-without-normal");
            c.close(v.rho(), n.rho(i, j), 1e-12, 0, "scalar-normal");
            c.close(v.theta(), n.theta(i, j), 1e-12, 0, "scalar-normal");
            c.close(v.phi(), n.phi(i, j), 1e-12, 0, "scalar-normal");
            c.close(std::sqrt(v.rho() * v.rho() + v.theta() * v.theta() +
                              v.phi() * v.phi()),
                    1.0, 1e-12, 0, "unit-length", "length of the normal");
            if (kink(i, j)) continue;
            c.close(n.rho(i, j), s.nr, ntol, 0, "normal-rho", "vertical");
            c.close(n.theta(i, j), s.nt, ntol, 0, "normal-theta", "south");
            c.close(n.phi(i, j), s.np, ntol, 0, "normal-phi", "east");
        }
}

static bool nokink(size_t, size_t) { return false; }

static void check_loss(Case &c, const boundary_model &b, double amp,
                       double phase, const char *key) {
    seq_vector::csptr f(new seq_linear(100.0, 1000.0, 3));
    vector<double> a(3), p(3);
    b.reflect_loss(wposition1(1, 2, 0), f, c.real(0.01, 1.5), &a, &p);
    for (int n = 0; n < 3; ++n) {
        c.close(a(n), amp, 1e-12, 0, key, "default reflection loss");
        c.close(p(n), phase, 1e-12, 0, key, "default reflection phase");
    }
}

LAW(P19, flat, 8000, 300000,
    "flat surface or bottom at any depth (either sign convention), random "
    "position grids: constant height, unit normal into the water, default "
    "reflection; non-trivial: more than one position") {
    EarthRadius restore;
    if (c.flip(0.3)) wposition::compute_earth_radius(c.real(-89, 89));
    double depth = c.flip(0.3) ? 0.0 : c.real(1, 6000) * c.sign();
    boundary_flat b(depth);
    c.note("depth", depth);
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    wposition pos(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            double at[3] = {wposition::earth_radius - c.real(0, 6000),
                            c.real(0, M_PI), c.real(-M_PI, M_PI)};
            put(pos, i, j, at);
        }
    Surface s = {(R)wposition::earth_radius - std::abs(depth),
                 depth == 0 ? -1.0L : 1.0L, 0, 0};
    compare(c, b, pos, [&](size_t, size_t) { return s; }, nokink, 1e-8, 1e-15);
    check_loss(c, b, 0.0, depth == 0 ? M_PI : 0.0, "flat-default-loss");
    c.nontrivial(rows * cols > 1);
}

LAW(P19, slope, 8000, 300000,
    "sloped bottom through a random reference location (possibly a "
    "temporary), slopes up to 40 degrees in one or both directions: height "
    "against the documented formula, normal documented and, for one slope, "
    "perpendicular to the heights around the reference; non-trivial: both "
    "slopes or several positions") {
    EarthRadius restore;
    if (c.flip(0.3)) wposition::compute_earth_radius(c.real(-89, 89));
    double lat = c.real(-70, 70, {0.0, 45.0}), lng = c.real(-170, 170, {0.0});
    double depth = c.real(10, 6000);
    int which = c.integer(0, 2);
    double a = which != 1 ? c.real(-0.7, 0.7, {0.0}) : 0.0;
    double b = which != 0 ? c.real(-0.7, 0.7, {0.0}) : 0.0;
    if (std::sin(a) * std::sin(a) + std::sin(b) * std::sin(b) > 0.9) c.discard();
    c.note("lat_slope", a), c.note("lng_slope", b), c.note("depth", depth);
    std::unique_ptr<boundary_slope> s(
        new boundary_slope(wposition1(lat, lng, 0.0), depth, a, b));
    // use some stack and heap
    volatile char pad[512];
    for (int i = 0; i < 512; ++i) pad[i] = 0x55;
    std::vector<double> junk(32, 1e10);
    R t0 = ref::rad(90.0L - lat), p0 = ref::rad(lng);
    R h0 = (R)wposition::earth_radius - depth;
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    wposition pos(rows, cols);
    double reach = c.pick<double>({1e-4, 0.01, 0.05});
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            double at[3] = {wposition::earth_radius - c.real(0, 6000),
                            (double)t0 + reach * c.real(-1, 1, {0.0}),
                            (double)p0 + reach * c.real(-1, 1, {0.0})};
            put(pos, i, j, at);
        }
    auto height = [&](R t, R p) {
        R r1 = h0 + h0 * sinl(t0) * tanl((R)b) * (p - p0);
        return r1 + r1 * tanl(-(R)a) * (t - t0);
    };
    R nt = sinl((R)a), np = -sinl((R)b), nr = sqrtl(1 - nt * nt - np * np);
    compare(
        c, *s, pos,
        [&](size_t i, size_t j) {
            return Surface{height(pos.theta(i, j), pos.phi(i, j)), nr, nt, np};
        },
        nokink, 1e-6, 1e-14);
    if (a == 0 || b == 0) {
        // surface points on both sides of the reference, from the library
        double e = 1e-4;
        auto at = [&](double dt, double dp) {
            wposition1 p;
            p.theta((double)t0 + dt), p.phi((double)p0 + dp);
            p.rho(wposition::earth_radius);
            double rho;
            s->height(p, &rho);
            return ref::sph(rho, p.theta(), p.phi());
        };
        ref::Vec dt = (at(e, 0) - at(-e, 0)).unit();
        ref::Vec dp = (at(0, e) - at(0, -e)).unit();
        wvector1 n;
        double rho;
        wposition1 here;
        here.theta((double)t0), here.phi((double)p0);
        here.rho(wposition::earth_radius);
        s->height(here, &rho, &n);
        ref::Vec nv = ref::up_at(t0, p0) * n.rho() +
                      ref::south_at(t0, p0) * n.theta() +
                      ref::east_at(t0, p0) * n.phi();
        c.close(nv.dot(dt), 0, 1e-6, 0, "slope-perpendicular", "south");
        c.close(nv.dot(dp), 0, 1e-6, 0, "slope-perpendicular", "east");
        c.check(nv.dot(ref::up_at(t0, p0)) > 0, "slope-up");
    }
    check_loss(c, *s, 0.0, 0.0, "slope-default-loss");
    c.nontrivial((a != 0 && b != 0) || rows * cols > 1);
}

static seq_vector::csptr geo_axis(Case &c, int dim, size_t N) {
    double first = dim ? c.real(-3, 2.0) : c.real(0.4, 2.0);
    double step = c.logreal(1e-4, 0.1);
    bool falling = c.flip(0.4), even = c.flip(0.5);
    std::vector<double> v(N);
    double x = first;
    for (size_t n = 0; n < N; ++n) {
        v[n] = x;
        x += even ? step : step * c.real(0.3, 2.0);
    }
    if (falling) std::reverse(v.begin(), v.end());
    if (even && N > 1)
        return seq_vector::csptr(new seq_linear(v[0], v[1] - v[0], (int)N));
    return seq_vector::csptr(new seq_data(v.data(), N));
}

template <size_t D>
static void grid_law(Case &c) {
    seq_vector::csptr ax[D];
    Table t;
    size_t total = 1;
    interp_enum type =
        c.pick<interp_enum>({interp_enum::linear, interp_enum::pchip});
    bool fast = D == 2 && c.flip(0.3);
    for (size_t d = 0; d < D; ++d) {
        size_t N = c.integer(fast ? 4 : 2, 6);
        ax[d] = geo_axis(c, d, N);
        t.axis.push_back(elements(*ax[d]));
        t.type.push_back(type);
        t.limit.push_back(!c.flip(0.3));
        total *= N;
    }
    auto *g = new gen_grid<D>(ax);
    typename data_grid<D>::csptr table(g);
    double relief = c.pick<double>({0.0, 1.0, 500.0, 2000.0});
    size_t idx[D] = {0};
    for (size_t n = 0; n < total; ++n) {
        double v = wposition::earth_radius - 3000 + relief * c.real(-1, 1);
        t.data.push_back(v);
        g->setdata(idx, v);
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < t.axis[d].size()) break;
            idx[d] = 0;
        }
    }
    for (size_t d = 0; d < D; ++d)
        g->interp_type(d, t.type[d]), g->edge_limit(d, t.limit[d]);
    if constexpr (D == 2)
        if (fast) table.reset(new data_grid_bathy(table));
    boundary_grid<D> b(table);
    size_t rows = c.integer(1, 3), cols = c.integer(1, 3);
    wposition pos(rows, cols);
    std::vector<bool> skip(rows * cols, false);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            double at[3] = {wposition::earth_radius - c.real(0, 5000),
                            c.real(0.5, 2.5), c.real(-3, 3)};
            for (size_t d = 0; d < D; ++d) {
                bool out = false, near = false, mid = false;
                const auto &x = t.axis[d];
                at[d + 1] = gen_coord(c, x, out, near, mid);
                if (at[1] < 0.05 || at[1] > 3.05) at[1] = x[0], near = true;
                if (near) skip[i * cols + j] = true;
            }
            put(pos, i, j, at);
        }
    if (fast) {
        // the fast grid has its own check; here only height/normal relation
        matrix<double> rho(rows, cols);
        wvector n(rows, cols);
        b.height(pos, &rho, &n);
        for (size_t i = 0; i < rows; ++i)
            for (size_t j = 0; j < cols; ++j) {
                double at[2] = {pos.theta(i, j), pos.phi(i, j)}, der[2];
                double h = table->interpolate(at, der);
                R st = der[0] / h, sp = der[1] / (h * sin(at[0]));
                R N = sqrtl(1 + st * st + sp * sp);
                c.close(rho(i, j), h, 1e-8, 0, "fast-height");
                c.close(n.rho(i, j), 1 / N, 1e-12, 0, "fast-normal");
                c.close(n.theta(i, j), -st / N, 1e-12, 0, "fast-normal");
                c.close(n.phi(i, j), -sp / N, 1e-12, 0, "fast-normal");
            }
        c.nontrivial(relief > 0);
        c.label("fast");
        return;
    }
    double step = HUGE_VAL;
    for (auto &x : t.axis)
        for (size_t n = 0; n + 1 < x.size(); ++n)
            step = std::min(step, std::abs(x[n + 1] - x[n]));
    compare(
        c, b, pos,
        [&](size_t i, size_t j) {
            std::vector<double> at = {pos.theta(i, j), pos.phi(i, j)};
            at.resize(D);
            Result r = t.interp(at);
            R st = r.deriv[0] / r.value;
            R sp = D > 1 ? r.deriv[1] / (r.value * sinl(pos.theta(i, j))) : 0;
            R N = sqrtl(1 + st * st + sp * sp);
            return Surface{r.value, 1 / N, -st / N, -sp / N};
        },
        [&](size_t i, size_t j) { return skip[i * cols + j]; },
        1e-4 + 1e-3 * (relief > 0), 1e-10 + 1e-12 / step);
    // the normal is perpendicular to the surface that the heights form
    if (type == interp_enum::linear) {
        for (size_t i = 0; i < rows; ++i) {
            if (skip[i * cols]) continue;
            bool inside = true;
            for (size_t d = 0; d < D; ++d) {
                double v = d ? pos.phi(i, 0) : pos.theta(i, 0);
                auto lim = std::minmax(t.axis[d].front(), t.axis[d].back());
                // limited heights are flat outside of the table, where the
                // table reports the slope of its edge
                if (t.limit[d] && (v < lim.first || v > lim.second))
                    inside = false;
                for (double x : t.axis[d])
                    if (std::abs(x - v) < 1e-5) inside = false;
            }
            if (!inside) continue;
            double e = 1e-6, rho;
            wvector1 n;
            b.height(wposition1(pos, i, 0), &rho, &n);
            R t0 = pos.theta(i, 0), p0 = pos.phi(i, 0);
            auto at = [&](double dt, double dp) {
                wposition1 p(pos, i, 0);
                p.theta(p.theta() + dt), p.phi(p.phi() + dp);
                double h;
                b.height(p, &h);
                return ref::sph(h, p.theta(), p.phi());
            };
            ref::Vec dt = (at(e, 0) - at(-e, 0)).unit();
            ref::Vec dp = (at(0, e) - at(0, -e)).unit();
            ref::Vec nv = ref::up_at(t0, p0) * n.rho() +
                          ref::south_at(t0, p0) * n.theta() +
                          ref::east_at(t0, p0) * n.phi();
            c.close(nv.dot(dt), 0, 2e-5, 0, "grid-perpendicular", "south");
            c.close(nv.dot(dp), 0, 2e-5, 0, "grid-perpendicular", "east");
            c.check(nv.dot(ref::up_at(t0, p0)) > 0, "grid-up");
        }
    }
    c.nontrivial(relief > 0);
    c.label(name(type));
}
LAW(P19, grid_1d, 6000, 200000,
    "bottom table over latitude, linear or cubic, uneven/falling axes, "
    "queries inside and outside: height, unit normal, perpendicular to the "
    "heights; non-trivial: bottom not flat") {
    grid_law<1>(c);
}
LAW(P19, grid_2d, 8000, 300000,
    "bottom table over latitude and longitude, general and fast grids, as "
    "grid_1d; non-trivial: bottom not flat") {
    grid_law<2>(c);
}

LAW(P19, grid_default_loss, 1500, 30000,
    "default reflection of a gridded bottom is that of sand; explicit models "
    "are used as given, before and after being replaced; non-trivial: always") {
    seq_vector::csptr ax[1] = {seq_vector::csptr(new seq_linear(0.5, 0.1, 5))};
    data_grid<1>::csptr g(new gen_grid<1>(ax));
    seq_vector::csptr f(new seq_linear(100.0, 1000.0, 2));
    double angle = c.real(0.01, 1.5);
    vector<double> a(2), p(2), ra(2), rp(2);
    reflect_loss_model::csptr sand(
        new reflect_loss_rayleigh(bottom_type_enum::sand));
    sand->reflect_loss(wposition1(), f, angle, &ra, &rp);
    boundary_grid<1> b(g);
    b.reflect_loss(wposition1(), f, angle, &a, &p);
    c.close(a(0), ra(0), 1e-12, 0, "grid-default-loss");
    c.close(p(1), rp(1), 1e-12, 0, "grid-default-loss");
    double l1 = c.real(0, 30), ph = c.real(-3, 3), l2 = c.real(0, 30);
    double s1 = c.real(-60, 0), s2 = c.real(-60, 0);
    reflect_loss_model::csptr m1(new reflect_loss_constant(l1, ph));
    reflect_loss_model::csptr m2(new reflect_loss_constant(l2, 0.0));
    scattering_model::csptr k1(new scattering_constant(s1));
    scattering_model::csptr k2(new scattering_constant(s2));
    std::vector<std::shared_ptr<boundary_model>> list;
    list.emplace_back(new boundary_grid<1>(g, m1, k1));
    list.emplace_back(new boundary_flat(c.pick<double>({0.0, 100.0}), m1, k1));
    list.emplace_back(
        new boundary_slope(wposition1(1, 2, 0), 100.0, 0.1, 0.0, m1, k1));
    for (auto &m : list) {
        m->reflect_loss(wposition1(), f, angle, &a, &p);
        c.close(a(1), l1, 1e-12, 0, "explicit-loss");
        c.close(p(1), ph, 1e-12, 0, "explicit-phase");
        vector<double> s(2);
        m->scattering(wposition1(), f, 0.1, 0.2, 0.3, 0.4, &s);
        c.close(s(0), pow(10.0, s1 / 10), 1e-12, 1e-9, "explicit-scattering");
        m->reflect_loss(m2);
        m->scattering(k2);
        m->reflect_loss(wposition1(), f, angle, &a, &p);
        c.close(a(0), l2, 1e-12, 0, "replaced-loss");
        m->scattering(wposition1(), f, 0.1, 0.2, 0.3, 0.4, &s);
        c.close(s(1), pow(10.0, s2 / 10), 1e-12, 1e-9, "replaced-scattering");
    }
    c.nontrivial();
}

LAW(P19, volume_layers, 3000, 60000,
    "flat volume layers of any depth and thickness: depth and thickness for "
    "position grids and single positions; non-trivial: thickness not zero") {
    EarthRadius restore;
    if (c.flip(0.3)) wposition::compute_earth_radius(c.real(-89, 89));
    double depth = c.real(0, 5000) * c.sign(), thick = c.real(0, 500, {0.0});
    double amp = c.real(-100, -10);
    volume_flat v(depth, thick, amp);
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    wposition pos(rows, cols, c.real(-80, 80), c.real(-170, 170), -10.0);
    matrix<double> rho(rows, cols), t(rows, cols), only(rows, cols);
    v.depth(pos, &rho, &t);
    v.depth(pos, &only);
    double r1, t1;
    v.depth(wposition1(pos, 0, 0), &r1, &t1);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            c.close(rho(i, j), wposition::earth_radius - std::abs(depth), 1e-8,
                    0, "layer-depth");
            c.close(only(i, j), rho(i, j), 0, 0, "layer-depth-only");
            c.close(t(i, j), thick, 0, 0, "layer-thickness");
        }
    c.close(r1, rho(0, 0), 0, 0, "layer-single");
    c.close(t1, thick, 0, 0, "layer-single");
    seq_vector::csptr f(new seq_linear(100.0, 1000.0, 2));
    vector<double> s(2);
    v.scattering(wposition1(), f, 0.1, 0.2, 0.3, 0.4, &s);
    c.close(s(1), pow(10.0, amp / 10), 0, 1e-9, "layer-scattering");
    c.nontrivial(thick > 0);
}
