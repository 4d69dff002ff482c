// P18: sound speed profiles return their documented speed and true gradient
#include <usml/ocean/ocean.h>

#include "gridref.h"

using namespace gridref;
using namespace usml::ocean;
using pbt::Case;

struct EarthRadius {  // restores the global earth radius
    double keep = wposition::earth_radius;
    ~EarthRadius() { wposition::earth_radius = keep; }
};

static wposition gen_positions(Case &c, size_t rows, size_t cols,
                               const std::vector<double> &special_depth) {
    wposition pos(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            pos.latitude(i, j, c.real(-85, 85, {0.0, 45.0}));
            pos.longitude(i, j, c.real(-180, 180, {0.0, 180.0}));
            pos.altitude(i, j, -c.real(-10, 6000, special_depth, 0.2));
        }
    return pos;
}

static void garbage(Case &c, matrix<double> &speed, wvector &grad) {
    double g = c.pick<double>({0.0, 777.0, 1e30});
    for (size_t i = 0; i < speed.size1(); ++i)
        for (size_t j = 0; j < speed.size2(); ++j) {
            speed(i, j) = g;
            grad.rho(i, j, g), grad.theta(i, j, g), grad.phi(i, j, g);
        }
}

// speed and derivatives with respect to rho, theta, phi, in long double
struct Truth {
    R c, dr, dt, dp;
};

// flat earth correction c r/R
static Truth flatten(const Truth &t, R rho, bool flat) {
    if (!flat) return t;
    R q = rho / wposition::earth_radius;
    return Truth{t.c * q, t.dr * q + t.c / wposition::earth_radius, t.dt * q,
                 t.dp * q};
}

static void compare(Case &c, const profile_model &p, const wposition &pos,
                    bool flat, std::function<Truth(size_t, size_t)> truth,
                    double tol = 1e-9, std::function<bool(size_t, size_t)> kink = nullptr,
                    double dtol = 0) {
    size_t rows = pos.size1(), cols = pos.size2();
    matrix<double> speed(rows, cols), alone(rows, cols);
    wvector grad(rows, cols);
    garbage(c, speed, grad);
    p.sound_speed(pos, &speed, &grad);
    p.sound_speed(pos, &alone, nullptr);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            Truth t = flatten(truth(i, j), pos.rho(i, j), flat);
            std::ostringstream s;
            s << "at altitude " << pos.altitude(i, j);
            c.close(speed(i, j), t.c, tol, 1e-11, "speed", "speed " + s.str());
            c.close(alone(i, j), speed(i, j), 0, 1e-14, "speed-without-gradient",
                    s.str());
            if (!kink || !kink(i, j)) {
                c.close(grad.rho(i, j), t.dr, 1e-11 + dtol, 1e-9, "gradient-rho",
                        "vertical gradient " + s.str());
                c.close(grad.theta(i, j), t.dt, 1e-11 + dtol * 6e6, 1e-9,
                        "gradient-theta", "gradient in theta " + s.str());
                c.close(grad.phi(i, j), t.dp, 1e-11 + dtol * 6e6, 1e-9,
                        "gradient-phi", "gradient in phi " + s.str());
            }
            // alone, the position gives the same
            wposition one(1, 1);
            one.rho(0, 0, pos.rho(i, j));
            one.theta(0, 0, pos.theta(i, j));
            one.phi(0, 0, pos.phi(i, j));
            matrix<double> s1(1, 1);
            wvector g1(1, 1);
            p.sound_speed(one, &s1, &g1);
            c.close(s1(0, 0), speed(i, j), 0, 1e-14, "independent-speed");
            c.close(g1.rho(0, 0), grad.rho(i, j), 0, 1e-13,
                    "independent-gradient");
            c.close(g1.theta(0, 0), grad.theta(i, j), 0, 1e-13,
                    "independent-gradient");
            c.close(g1.phi(0, 0), grad.phi(i, j), 0, 1e-13,
                    "independent-gradient");
        }
}

LAW(P18, analytic, 20000, 800000,
    "linear (constant, linear, bilinear), N^2, Munk and catenary profiles, "
    "random parameters, 1-4 x 1-4 random positions, flat earth on/off, any "
    "latitude of the earth radius: speed and gradients against the documented "
    "formula, same alone and with pre-filled output; non-trivial: more than "
    "one position") {
    EarthRadius restore;
    if (c.flip(0.3)) wposition::compute_earth_radius(c.real(-89, 89));
    const R radius = wposition::earth_radius;
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    bool flat = c.flip(0.4);
    int kind = c.integer(0, 5);
    double c0 = c.real(1400, 1600);
    double g0 = c.real(-2, 2, {0.0, 0.016}), g1 = c.real(-2, 2, {0.016});
    double z1 = c.real(0, 4000, {0.0, 1000.0});
    std::shared_ptr<profile_model> p;
    std::function<void(R, R &, R &)> f;  // depth -> speed, d/dz
    bool bilinear = false;
    switch (kind) {
        case 0:
            p.reset(new profile_linear(c0));
            f = [=](R, R &s, R &d) { s = c0, d = 0; };
            break;
        case 1:
            p.reset(new profile_linear(c0, g0));
            f = [=](R z, R &s, R &d) { s = c0 + g0 * z, d = g0; };
            break;
        case 2:
            p.reset(new profile_linear(c0, g0, z1, g1));
            bilinear = true;
            f = [=](R z, R &s, R &d) {
                if (z < z1)
                    s = c0 + g0 * z, d = g0;
                else
                    s = c0 + (R)g0 * z1 + g1 * (z - z1), d = g1;
            };
            break;
        case 3: {
            double g = c.real(0.0, 1.5, {0.0, 1.2}) ;
            p.reset(new profile_n2(c0, g));
            // n^2 linear; altitude is negative down
            f = [=](R z, R &s, R &d) {
                R q = 1 + 2 * (R)g / c0 * z;
                s = c0 / sqrtl(q);
                d = -(R)g * powl(q, -1.5L);
            };
            c.note("g", g);
            break;
        }
        case 4: {
            double B = c.real(300, 3000, {1300.0}), e = c.real(1e-4, 1e-2);
            p.reset(new profile_munk(z1, B, c0, e));
            f = [=](R z, R &s, R &d) {
                R q = 2 * (z - z1) / B;
                s = c0 * (1 + e * (q - 1 + expl(-q)));
                d = c0 * e * (1 - expl(-q)) * 2 / B;
            };
            c.note("B", B);
            break;
        }
        default: {
            double g = c.logreal(3e3, 1e6) * (c.flip(0.1) ? -1 : 1);
            p.reset(new profile_catenary(c0, g, z1));
            f = [=](R z, R &s, R &d) {
                s = c0 * coshl((z - z1) / g);
                d = c0 * sinhl((z - z1) / g) / g;
            };
            c.note("g", g);
        }
    }
    p->flat_earth(flat);
    c.note("kind", kind), c.note("flat", flat), c.note("z1", z1);
    wposition pos = gen_positions(c, rows, cols, {0.0, z1, z1 + 1e-3});
    compare(
        c, *p, pos, flat,
        [&](size_t i, size_t j) {
            Truth t = {0, 0, 0, 0};
            R d;
            f(radius - pos.rho(i, j), t.c, d);
            t.dr = -d;
            return t;
        },
        2e-7,
        [&](size_t i, size_t j) {
            return bilinear && std::abs(pos.altitude(i, j) + z1) < 1e-6;
        },
        1e-9);
    c.nontrivial(rows * cols > 1);
    c.label(flat ? "flat-earth" : "round-earth");
    static const char *names[] = {"constant", "linear", "bilinear",
                                  "n2",       "munk",   "catenary"};
    c.label(names[kind]);
}

// axis i of a profile grid: altitude, latitude, longitude in their spherical
// equivalents
static seq_vector::csptr geo_axis(Case &c, int dim, size_t N) {
    double first, step;
    bool falling = c.flip(0.4), even = c.flip(0.4);
    switch (dim) {
        case 0:
            first = -c.real(1000, 6000), step = c.real(20, 800);
            break;
        case 1:
            first = c.real(0.3, 2.2), step = c.real(0.001, 0.1);
            break;
        default:
            first = c.real(-3, 2.5), step = c.real(0.001, 0.1);
    }
    if (dim == 0) first += wposition::earth_radius;
    std::vector<double> v(N);
    double x = first;
    for (size_t n = 0; n < N; ++n) {
        v[n] = x;
        x += even ? step : step * c.real(0.2, 3.0);
    }
    if (falling) std::reverse(v.begin(), v.end());
    if (even && N > 1)
        return seq_vector::csptr(new seq_linear(v[0], v[1] - v[0], (int)N));
    return seq_vector::csptr(new seq_data(v.data(), N));
}

template <size_t D>
static void grid_law(Case &c) {
    seq_vector::csptr ax[D];
    Table t;
    size_t total = 1;
    for (size_t d = 0; d < D; ++d) {
        size_t N = c.integer(d ? 1 : 2, 6);
        ax[d] = geo_axis(c, d, N);
        t.axis.push_back(elements(*ax[d]));
        t.type.push_back(d == 0 && c.flip() ? interp_enum::pchip
                                            : interp_enum::linear);
        t.limit.push_back(d == 0 ? true : !c.flip(0.3));
        total *= N;
    }
    auto *g = new gen_grid<D>(ax);
    typename data_grid<D>::csptr table(g);
    size_t idx[D] = {0};
    for (size_t n = 0; n < total; ++n) {
        double v = 1500 + c.real(-50, 50);
        t.data.push_back(v);
        g->setdata(idx, v);
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < t.axis[d].size()) break;
            idx[d] = 0;
        }
    }
    for (size_t d = 0; d < D; ++d)
        g->interp_type(d, t.type[d]), g->edge_limit(d, t.limit[d]);
    profile_grid<D> p(table);
    bool flat = c.flip(0.4);
    p.flat_earth(flat);
    size_t rows = c.integer(1, 3), cols = c.integer(1, 3);
    wposition pos(rows, cols);
    std::vector<bool> near_node(rows * cols, false);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            double at[3] = {wposition::earth_radius - c.real(0, 5000),
                            c.real(0.5, 2.5), c.real(-3, 3)};
            for (size_t d = 0; d < D; ++d) {
                bool out = false, near = false, mid = false;
                at[d] = gen_coord(c, t.axis[d], out, near, mid);
                if (near) near_node[i * cols + j] = true;
            }
            pos.rho(i, j, at[0]), pos.theta(i, j, at[1]), pos.phi(i, j, at[2]);
            c.notev("at", at, 3);
        }
    compare(
        c, p, pos, flat,
        [&](size_t i, size_t j) {
            std::vector<double> at = {pos.rho(i, j), pos.theta(i, j),
                                      pos.phi(i, j)};
            at.resize(D);
            Result r = t.interp(at);
            Truth q = {r.value, r.deriv[0], D > 1 ? r.deriv[1] : 0,
                       D > 2 ? r.deriv[2] : 0};
            return q;
        },
        1e-4, [&](size_t i, size_t j) { return near_node[i * cols + j]; },
        1e-7);
    c.nontrivial(total > 1);
}
LAW(P18, grids, 10000, 300000,
    "1-3 D tables in (altitude, latitude, longitude), all axis directions, "
    "linear and cubic in depth, limits on/off, flat earth on/off, queries "
    "inside and outside: speed and gradients against the reference table; "
    "non-trivial: more than one node") {
    switch (c.integer(1, 3)) {
        case 1:
            return grid_law<1>(c);
        case 2:
            return grid_law<2>(c);
        default:
            return grid_law<3>(c);
    }
}

LAW(P18, mackenzie, 6000, 200000,
    "random temperature (-2..30), salinity (30..40) and depth (0..8000) "
    "tables: sound speed of every node against the nine term equation, axes, "
    "methods and limits taken from the temperature table; non-trivial: more "
    "than one node") {
    seq_vector::csptr ax[3];
    size_t total = 1, N[3];
    for (int d = 0; d < 3; ++d) {
        N[d] = c.integer(1, 5);
        ax[d] = geo_axis(c, d, N[d]);
        total *= N[d];
    }
    auto *T = new gen_grid<3>(ax), *S = new gen_grid<3>(ax);
    data_grid<3>::csptr tp(T), sp(S);
    for (int d = 0; d < 3; ++d) {
        T->interp_type(d, gen_type(c));
        T->edge_limit(d, c.flip());
    }
    std::vector<double> tv(total), sv(total);
    size_t idx[3] = {0, 0, 0};
    for (size_t n = 0; n < total; ++n) {
        tv[n] = c.real(-2, 30, {0.0});
        sv[n] = c.real(30, 40, {35.0});
        T->setdata(idx, tv[n]), S->setdata(idx, sv[n]);
        for (int d = 2; d >= 0; --d) {
            if (++idx[d] < N[d]) break;
            idx[d] = 0;
        }
    }
    data_grid_mackenzie m(tp, sp);
    for (int d = 0; d < 3; ++d) {
        c.check(m.interp_type(d) == T->interp_type(d), "mackenzie-type");
        c.equal(m.edge_limit(d), T->edge_limit(d), "mackenzie-limit");
        c.equal(m.axis(d).size(), N[d], "mackenzie-axis");
        for (size_t n = 0; n < N[d]; ++n)
            c.equal(m.axis(d)[n], (*ax[d])[n], "mackenzie-axis");
    }
    size_t k[3];
    for (size_t n = 0; n < total; ++n) {
        k[2] = n % N[2], k[1] = n / N[2] % N[1], k[0] = n / N[2] / N[1];
        R D = (R)wposition::earth_radius - (*ax[0])[k[0]], t = tv[n], s = sv[n];
        R want = 1448.96L + 4.591L * t - 5.304e-2L * t * t +
                 2.374e-4L * t * t * t + 1.340L * (s - 35) + 1.630e-2L * D +
                 1.675e-7L * D * D - 1.025e-2L * t * (s - 35) -
                 7.139e-13L * t * D * D * D;
        c.close(m.data(k), want, 1e-7, 0, "mackenzie", "sound speed");
        double loc[3] = {(*ax[0])[k[0]], (*ax[1])[k[1]], (*ax[2])[k[2]]};
        c.close(m.interpolate(loc), want, 1e-6, 0, "mackenzie-node");
    }
    c.nontrivial(total > 1);
}
