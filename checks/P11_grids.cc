// P11: table interpolation passes through its data, stays within its bounds
#include "gridref.h"

using namespace gridref;
using pbt::Case;

template <size_t D>
struct Both {
    std::shared_ptr<gen_grid<D>> grid;
    Table table;
    double amp;
};

template <size_t D>
static void set_all(gen_grid<D> &g, const Table &t) {
    size_t idx[D] = {0};
    for (size_t n = 0; n < t.data.size(); ++n) {
        g.setdata(idx, (double)t.data[n]);
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < t.axis[d].size()) break;
            idx[d] = 0;
        }
    }
}

template <size_t D>
static Both<D> gen_grid_case(Case &c, int max_size) {
    Both<D> b;
    seq_vector::csptr ax[D];
    size_t total = 1;
    for (size_t d = 0; d < D; ++d) {
        size_t N = c.integer(1, max_size);
        if (N < 4 && c.flip(0.6)) N = std::min(max_size, 4);
        ax[d] = gen_axis(c, N);
        b.table.axis.push_back(elements(*ax[d]));
        b.table.type.push_back(gen_type(c));
        b.table.limit.push_back(!c.flip(0.4));
        total *= N;
    }
    b.amp = c.pick<double>({1.0, 1e-3, 1500.0});
    int kind = c.integer(0, 2);
    for (size_t n = 0; n < total; ++n)
        b.table.data.push_back(gen_value(c, kind, b.amp));
    b.grid.reset(new gen_grid<D>(ax));
    set_all<D>(*b.grid, b.table);
    for (size_t d = 0; d < D; ++d) {
        b.grid->interp_type(d, b.table.type[d]);
        b.grid->edge_limit(d, b.table.limit[d]);
        c.equal((int)b.grid->interp_type(d),
                (int)effective(b.table.type[d], b.table.axis[d].size()),
                "interp-type", "type that is in effect");
        c.equal(b.grid->edge_limit(d), b.table.limit[d], "edge-limit-flag");
    }
    return b;
}

// allowance for rounding: cubic extrapolation multiplies the data by (s/h)^3
template <class V>
static double growth(const Table &t, const V &loc) {
    double g = 1;
    for (size_t d = 0; d < t.dims(); ++d) {
        const auto &x = t.axis[d];
        if (x.size() < 2 || t.limit[d]) continue;
        size_t k = cell_of(x, loc[d]);
        double u = (loc[d] - x[k]) / (x[k + 1] - x[k]);
        double e = std::max(1.0, std::max(std::abs(u), std::abs(1 - u)));
        g *= effective(t.type[d], x.size()) == interp_enum::pchip ? e * e * e
                                                                  : e;
    }
    return g;
}
static double min_step(const std::vector<double> &x) {
    double h = HUGE_VAL;
    for (size_t n = 0; n + 1 < x.size(); ++n)
        h = std::min(h, std::abs(x[n + 1] - x[n]));
    return h;
}
// loss of digits in (location-node) for axes far from zero
static double axis_eps(const std::vector<double> &x) {
    double m = std::max(std::abs(x.front()), std::abs(x.back()));
    return x.size() < 2 ? 0 : 1e-15 * m / min_step(x);
}

template <size_t D>
static void reference_law(Case &c, int max_size) {
    Both<D> b = gen_grid_case<D>(c, max_size);
    for (int q = 0; q < 6; ++q) {
        double loc[D], keep[D];
        bool near[D] = {}, mid[D] = {}, outside = false;
        bool skip_deriv = false, skip = false;
        for (size_t d = 0; d < D; ++d) {
            loc[d] = keep[d] =
                gen_coord(c, b.table.axis[d], outside, near[d], mid[d]);
            interp_enum e = b.grid->interp_type(d);
            if (e == interp_enum::nearest && mid[d]) skip = true;
            if (e == interp_enum::linear && near[d]) skip_deriv = true;
        }
        if (skip) continue;
        c.notev("loc", loc, D);
        Result want = b.table.interp(std::vector<double>(loc, loc + D));
        double deriv[D];
        std::fill_n(deriv, D, std::nan(""));
        double v1 = b.grid->interpolate(loc);
        double v2 = b.grid->interpolate(loc, deriv);
        for (size_t d = 0; d < D; ++d)
            c.check(loc[d] == keep[d], "location-modified");
        double eps = 1e-12;
        for (size_t d = 0; d < D; ++d) eps += 10 * axis_eps(b.table.axis[d]);
        double amp = max_abs(b.table.data) * growth(b.table, loc);
        c.close(v1, (double)want.value, eps * amp, 1e-10, "value", "value");
        c.close(v2, v1, 1e-13 * amp, 1e-13, "value-with-derivative",
                "value when the derivative is wanted too");
        if (!skip_deriv) {
            for (size_t d = 0; d < D; ++d) {
                double h = min_step(b.table.axis[d]);
                c.close(deriv[d], (double)want.deriv[d],
                        20 * eps * amp / (std::isinf(h) ? 1 : h), 1e-9,
                        "derivative-" + std::string(d + 1 == D ? "top" : "lower"),
                        "derivative in dimension " + std::to_string(d));
            }
        }
        bool cubic = false, big = false;
        for (size_t d = 0; d < D; ++d) {
            cubic |= b.grid->interp_type(d) == interp_enum::pchip;
            big |= b.table.axis[d].size() > 1;
            c.label(name(b.grid->interp_type(d)));
        }
        if (outside) c.label("outside");
        if (cubic) c.label("cubic");
        c.nontrivial(big);
    }
}

LAW(P11, reference_1d, 60000, 400000,
    "1-D grid, size 1-8, even/uneven/log/falling axis, all methods and edge "
    "modes, 6 queries inside/outside/at nodes; value and derivative against "
    "the long double reference; non-trivial: more than one node") {
    reference_law<1>(c, 8);
}
LAW(P11, reference_2d, 40000, 200000,
    "2-D grid, mixed methods per axis, as reference-1d") {
    reference_law<2>(c, 6);
}
LAW(P11, reference_3d, 25000, 80000,
    "3-D grid, mixed methods per axis, as reference-1d") {
    reference_law<3>(c, 5);
}
LAW(P11, reference_4d, 8000, 20000,
    "4-D grid, mixed methods per axis, as reference-1d") {
    reference_law<4>(c, 4);
}

template <size_t D>
static void nodes_law(Case &c, int max_size) {
    Both<D> b = gen_grid_case<D>(c, max_size);
    size_t idx[D] = {0};
    for (size_t n = 0; n < b.table.data.size(); ++n) {
        double loc[D];
        for (size_t d = 0; d < D; ++d) loc[d] = b.table.axis[d][idx[d]];
        c.equal(b.grid->data(idx), (double)b.table.data[n], "stored",
                "data(index)");
        c.equal(b.grid->data()[n], (double)b.table.data[n], "stored-order",
                "data()[n]");
        double amp = max_abs(b.table.data);
        c.close(b.grid->interpolate(loc), (double)b.table.data[n], 1e-12 * amp,
                1e-11, "node", "value at a node");
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < b.table.axis[d].size()) break;
            idx[d] = 0;
        }
    }
    c.nontrivial(b.table.data.size() > 1);
}
LAW(P11, nodes, 30000, 100000,
    "1-3 D grid of any size and mixture of methods; stored value returned at "
    "every node; non-trivial: more than one node") {
    switch (c.integer(1, 3)) {
        case 1:
            return nodes_law<1>(c, 12);
        case 2:
            return nodes_law<2>(c, 7);
        default:
            return nodes_law<3>(c, 5);
    }
}

template <size_t D>
static void multilinear_law(Case &c) {
    seq_vector::csptr ax[D];
    Table t;
    size_t total = 1;
    for (size_t d = 0; d < D; ++d) {
        ax[d] = gen_axis(c, c.integer(2, 6));
        t.axis.push_back(elements(*ax[d]));
        t.type.push_back(interp_enum::linear);
        t.limit.push_back(false);
        total *= ax[d]->size();
    }
    // product form a0 + sum over subsets, random coefficients, scaled axes
    std::vector<double> coef(1u << D);
    for (double &v : coef) v = c.real(-2, 2);
    std::vector<double> mid(D), span(D);
    for (size_t d = 0; d < D; ++d) {
        mid[d] = 0.5 * (t.axis[d].front() + t.axis[d].back());
        span[d] = std::abs(t.axis[d].back() - t.axis[d].front());
    }
    auto f = [&](const double *x, int wrt) {
        R sum = 0;
        for (size_t m = 0; m < coef.size(); ++m) {
            if (wrt >= 0 && !(m >> wrt & 1)) continue;
            R p = coef[m];
            for (size_t d = 0; d < D; ++d)
                if (m >> d & 1)
                    p *= (int)d == wrt ? 1.0L / span[d]
                                       : ((R)x[d] - mid[d]) / span[d];
            sum += p;
        }
        return sum;
    };
    gen_grid<D> g(ax);
    size_t idx[D] = {0};
    for (size_t n = 0; n < total; ++n) {
        double x[D];
        for (size_t d = 0; d < D; ++d) x[d] = t.axis[d][idx[d]];
        t.data.push_back(f(x, -1));
        g.setdata(idx, (double)t.data.back());
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < t.axis[d].size()) break;
            idx[d] = 0;
        }
    }
    for (size_t d = 0; d < D; ++d) {
        c.check(g.interp_type(d) == interp_enum::linear, "default-type");
        c.check(g.edge_limit(d), "default-limit");
        g.edge_limit(d, false);
    }
    double eps = 1e-12;
    for (size_t d = 0; d < D; ++d) eps += 10 * axis_eps(t.axis[d]);
    for (int q = 0; q < 5; ++q) {
        double loc[D], der[D];
        bool out = false, near = false, m = false;
        for (size_t d = 0; d < D; ++d)
            loc[d] = gen_coord(c, t.axis[d], out, near, m);
        double v = g.interpolate(loc, der);
        double amp = (10 + max_abs(t.data)) * growth(t, loc);
        c.close(v, (double)f(loc, -1), eps * amp, 1e-10, "multilinear",
                "multilinear function");
        for (size_t d = 0; d < D; ++d)
            c.close(der[d], (double)f(loc, d),
                    40 * eps * amp / min_step(t.axis[d]), 1e-9,
                    "multilinear-derivative",
                    "derivative of a multilinear function, dimension " +
                        std::to_string(d));
    }
    c.nontrivial(D > 1);
}
LAW(P11, multilinear, 40000, 150000,
    "random multilinear function on 1-4 D grids: linear interpolation and "
    "extrapolation give the function and its gradient; non-trivial: at least "
    "two dimensions") {
    switch (c.integer(1, 4)) {
        case 1:
            return multilinear_law<1>(c);
        case 2:
            return multilinear_law<2>(c);
        case 3:
            return multilinear_law<3>(c);
        default:
            return multilinear_law<4>(c);
    }
}

// one dimensional shape properties of the monotone cubic
LAW(P11, cubic_shape, 50000, 300000,
    "1-D cubic grid of 4-10 nodes; values inside each cell bounded by its "
    "nodes and monotone; slope continuous through nodes; straight lines are "
    "reproduced; non-trivial: axis uneven or data with an extremum") {
    size_t N = c.integer(4, 10);
    bool uneven = false;
    seq_vector::csptr ax[1] = {gen_axis(c, N, &uneven)};
    std::vector<double> x = elements(*ax[0]), y(N);
    gen_grid<1> g(ax);
    int kind = c.integer(0, 3);
    double amp = c.pick<double>({1.0, 1e-3, 1500.0});
    double a = amp * c.real(-1, 1), b = amp * c.real(-1, 1);
    double run = a;
    bool extremum = false;
    double span = x.back() - x.front();
    for (size_t n = 0; n < N; ++n) {
        switch (kind) {
            case 0:
                y[n] = a + b * (x[n] - x[0]) / span;
                break;
            case 1:
                run += amp * (c.flip(0.2) ? 0.0 : c.logreal(1e-3, 10));
                y[n] = run;
                break;
            default:
                y[n] = gen_value(c, c.integer(0, 1), amp);
        }
        if (n > 1 && (y[n] - y[n - 1]) * (y[n - 1] - y[n - 2]) < 0)
            extremum = true;
        g.setdata(&n, y[n]);
    }
    g.interp_type(0, interp_enum::pchip);
    c.notev("x", x, N);
    c.notev("y", y, N);
    double big = 0;
    for (double v : y) big = std::max(big, std::abs(v));
    double eps = (1e-12 + 10 * axis_eps(x)) * (big + 1e-300);
    for (size_t n = 0; n + 1 < N; ++n) {
        double lo = std::min(y[n], y[n + 1]), hi = std::max(y[n], y[n + 1]);
        double prev = y[n], dir = y[n + 1] >= y[n] ? 1.0 : -1.0;
        for (int i = 1; i <= 8; ++i) {
            double u = i / 8.0;
            double loc = x[n] + (x[n + 1] - x[n]) * u;
            if (i == 8) loc = x[n + 1];
            double v = g.interpolate(&loc);
            c.check(v >= lo - eps && v <= hi + eps, "overshoot",
                    "cell " + std::to_string(n) + " value " +
                        std::to_string(v) + " outside of its nodes");
            c.check(dir * (v - prev) >= -eps, "not-monotone");
            prev = v;
            if (kind == 0)
                c.close(v, a + b * (loc - x[0]) / span, eps + 1e-12 * amp, 0,
                        "straight-line", "straight line");
        }
    }
    // derivative: one sided differences of the value on both sides of a node
    // agree with the reported slope at the node
    for (size_t n = 0; n < N; ++n) {
        double at = x[n], slope;
        g.interpolate(&at, &slope);
        for (int side = -1; side <= 1; side += 2) {
            if ((side < 0 && n == 0) || (side > 0 && n + 1 == N)) continue;
            size_t m = side > 0 ? n + 1 : n - 1;
            double H = x[m] - x[n];
            // cubic: exact derivative from 3 samples and the node value
            double p[4] = {y[n], 0, 0, 0};
            for (int i = 1; i < 4; ++i) {
                double loc = x[n] + H * i / 4.0;
                p[i] = g.interpolate(&loc);
            }
            double d = (-11 * p[0] + 18 * p[1] - 9 * p[2] + 2 * p[3]) /
                       (6 * H / 4.0);
            c.close(d, slope, 100 * eps / std::abs(H), 1e-8, "slope-at-node",
                    "slope " + std::string(side < 0 ? "before" : "after") +
                        " node " + std::to_string(n));
        }
    }
    c.nontrivial(uneven || extremum);
    c.label(kind == 0 ? "line" : kind == 1 ? "monotone" : "any");
}

LAW(P11, edge_limit, 30000, 100000,
    "2-D grid with limits on: any location outside equals the nearest "
    "location of the boundary, value and gradient; non-trivial: outside in "
    "at least one dimension") {
    Both<2> b = gen_grid_case<2>(c, 6);
    for (size_t d = 0; d < 2; ++d) b.grid->edge_limit(d, true);
    double loc[2], clip[2], d1[2], d2[2];
    bool any = false;
    for (size_t d = 0; d < 2; ++d) {
        bool out = false, near = false, mid = false;
        loc[d] = clip[d] = gen_coord(c, b.table.axis[d], out, near, mid);
        if (c.flip(0.2)) loc[d] *= 1e6, clip[d] = loc[d];
        const auto &x = b.table.axis[d];
        if (x.size() < 2) continue;
        double lo = std::min(x.front(), x.back());
        double hi = std::max(x.front(), x.back());
        if (loc[d] < lo) clip[d] = lo, any = true;
        if (loc[d] > hi) clip[d] = hi, any = true;
    }
    double v1 = b.grid->interpolate(loc, d1);
    double v2 = b.grid->interpolate(clip, d2);
    double amp = max_abs(b.table.data);
    c.close(v1, v2, 1e-12 * amp, 0, "edge-value", "value outside");
    for (size_t d = 0; d < 2; ++d)
        c.close(d1[d], d2[d],
                1e-10 * amp / std::min(1e300, min_step(b.table.axis[d])), 1e-12,
                "edge-derivative", "derivative outside");
    c.nontrivial(any);
}

//----------------------------------------------------------------------
// other data types agree element by element with scalar grids

template <class T>
struct Elem;
template <>
struct Elem<boost::numeric::ublas::vector<double>> {
    static boost::numeric::ublas::vector<double> make(size_t n, size_t) {
        return boost::numeric::ublas::vector<double>(n);
    }
    static size_t count(const boost::numeric::ublas::vector<double> &v) { return v.size(); }
    static double &at(boost::numeric::ublas::vector<double> &v, size_t i) { return v(i); }
};
template <>
struct Elem<boost::numeric::ublas::matrix<double>> {
    static boost::numeric::ublas::matrix<double> make(size_t n, size_t m) {
        return boost::numeric::ublas::matrix<double>(n, m);
    }
    static size_t count(const boost::numeric::ublas::matrix<double> &v) {
        return v.size1() * v.size2();
    }
    static double &at(boost::numeric::ublas::matrix<double> &v, size_t i) {
        return v(i / v.size2(), i % v.size2());
    }
};

template <class T, size_t D>
static void array_law(Case &c) {
    size_t n1 = c.integer(1, 4), n2 = c.integer(1, 3);
    seq_vector::csptr ax[D];
    std::vector<std::vector<double>> axes;
    size_t total = 1;
    for (size_t d = 0; d < D; ++d) {
        ax[d] = gen_axis(c, c.integer(1, D == 1 ? 7 : 5));
        axes.push_back(elements(*ax[d]));
        total *= ax[d]->size();
    }
    T model = Elem<T>::make(n1, n2);
    size_t count = Elem<T>::count(model);
    gen_grid<D, T> g(ax);
    std::vector<std::unique_ptr<gen_grid<D>>> s;
    for (size_t i = 0; i < count; ++i) s.emplace_back(new gen_grid<D>(ax));
    size_t idx[D] = {0};
    for (size_t n = 0; n < total; ++n) {
        T v = Elem<T>::make(n1, n2);
        for (size_t i = 0; i < count; ++i) {
            double e = gen_value(c, c.integer(0, 1), 1.0);
            Elem<T>::at(v, i) = e;
            s[i]->setdata(idx, e);
        }
        g.setdata(idx, v);
        for (int d = D - 1; d >= 0; --d) {
            if (++idx[d] < axes[d].size()) break;
            idx[d] = 0;
        }
    }
    for (size_t d = 0; d < D; ++d) {
        interp_enum t = gen_type(c);
        bool e = c.flip();
        g.interp_type(d, t);
        g.edge_limit(d, e);
        for (auto &p : s) p->interp_type(d, t), p->edge_limit(d, e);
    }
    for (int q = 0; q < 4; ++q) {
        double loc[D], hmin = 1;
        bool out = false, near = false, mid = false;
        Table t;
        for (size_t d = 0; d < D; ++d) {
            loc[d] = gen_coord(c, axes[d], out, near, mid);
            hmin = std::min(hmin, min_step(axes[d]));
            t.axis.push_back(axes[d]);
            t.type.push_back(g.interp_type(d));
            t.limit.push_back(g.edge_limit(d));
        }
        T der[D];
        for (size_t d = 0; d < D; ++d) der[d] = Elem<T>::make(n1, n2);
        T v = q == 0 ? g.interpolate(loc) : g.interpolate(loc, der);
        c.equal(Elem<T>::count(v), count, "array-size");
        for (size_t i = 0; i < count; ++i) {
            double sd[D];
            double sv = s[i]->interpolate(loc, sd);
            double amp = 3 * growth(t, loc);
            c.close(Elem<T>::at(v, i), sv, 1e-11 * amp, 1e-10, "array-value",
                    "element");
            if (q > 0)
                for (size_t d = 0; d < D; ++d) {
                    c.equal(Elem<T>::count(der[d]), count, "array-deriv-size");
                    c.close(Elem<T>::at(der[d], i), sd[d], 1e-9 * amp / hmin,
                            1e-9, "array-derivative", "element derivative");
                }
        }
    }
    c.nontrivial(count > 1 && total > 1);
}
LAW(P11, array_values, 25000, 80000,
    "1-2 D grids of vectors or matrices, any method mixture: each element "
    "equals the scalar grid of that element, value and derivatives; "
    "non-trivial: more than one element and node") {
    switch (c.integer(0, 3)) {
        case 0:
            return array_law<boost::numeric::ublas::vector<double>, 1>(c);
        case 1:
            return array_law<boost::numeric::ublas::vector<double>, 2>(c);
        case 2:
            return array_law<boost::numeric::ublas::matrix<double>, 1>(c);
        default:
            return array_law<boost::numeric::ublas::matrix<double>, 2>(c);
    }
}

LAW(P11, complex_values, 25000, 80000,
    "1-2 D complex grids: nearest and linear equal the grids of real and "
    "imaginary parts; cubic returns node values and complex straight lines; "
    "float grids equal double grids; non-trivial: more than 3 nodes") {
    typedef std::complex<double> C;
    size_t N = c.integer(1, 8);
    seq_vector::csptr ax[1] = {gen_axis(c, N)};
    std::vector<double> x = elements(*ax[0]);
    gen_grid<1, C> g(ax);
    gen_grid<1> re(ax), im(ax);
    gen_grid<1, float> fl(ax);
    interp_enum t = gen_type(c);
    bool edge = c.flip(0.7), line = c.flip();
    C a(c.real(-1, 1), c.real(-1, 1)), b(c.real(-1, 1), c.real(-1, 1));
    std::vector<C> y(N);
    double span = N > 1 ? x.back() - x.front() : 1;
    for (size_t n = 0; n < N; ++n) {
        y[n] = line ? a + b * ((x[n] - x[0]) / span)
                    : C(c.real(-1, 1), c.real(-1, 1));
        g.setdata(&n, y[n]);
        re.setdata(&n, y[n].real());
        im.setdata(&n, y[n].imag());
        fl.setdata(&n, (float)y[n].real());
    }
    g.interp_type(0, t), re.interp_type(0, t), im.interp_type(0, t);
    fl.interp_type(0, t);
    g.edge_limit(0, edge), re.edge_limit(0, edge), im.edge_limit(0, edge);
    fl.edge_limit(0, edge);
    bool cubic = g.interp_type(0) == interp_enum::pchip;
    for (int q = 0; q < 5; ++q) {
        bool out = false, near = false, mid = false;
        double loc = gen_coord(c, x, out, near, mid);
        Table tab;
        tab.axis.push_back(x), tab.type.push_back(t), tab.limit.push_back(edge);
        double gr = growth(tab, &loc);
        double h = std::min(1.0, min_step(x));
        C d(0, 0);
        C v = q == 0 ? g.interpolate(&loc) : g.interpolate(&loc, &d);
        double dr, di;
        double vr = re.interpolate(&loc, &dr), vi = im.interpolate(&loc, &di);
        if (!cubic) {
            c.close(v.real(), vr, 1e-11 * gr, 1e-11, "complex-real", "real part");
            c.close(v.imag(), vi, 1e-11 * gr, 1e-11, "complex-imag", "imag part");
            if (q > 0) {
                c.close(d.real(), dr, 1e-9 * gr / h, 1e-9, "complex-derivative");
                c.close(d.imag(), di, 1e-9 * gr / h, 1e-9, "complex-derivative");
            }
        } else if (line) {
            double lo = std::min(x.front(), x.back());
            double hi = std::max(x.front(), x.back());
            double at = edge ? std::min(hi, std::max(lo, loc)) : loc;
            C want = a + b * ((at - x[0]) / span);
            double e = 1e-9 * gr + 1e3 * axis_eps(x) * gr;
            c.close(v.real(), want.real(), e, 0, "complex-line", "complex line");
            c.close(v.imag(), want.imag(), e, 0, "complex-line", "complex line");
        }
        float fd;
        float fv = q == 0 ? fl.interpolate(&loc) : fl.interpolate(&loc, &fd);
        c.close(fv, vr, 4e-5 * gr * gr, 1e-4, "float-value", "float grid");
    }
    for (size_t n = 0; n < N; ++n) {
        C v = g.interpolate(&x[n]);
        c.close(v.real(), y[n].real(), 1e-11, 0, "complex-node");
        c.close(v.imag(), y[n].imag(), 1e-11, 0, "complex-node");
    }
    c.nontrivial(N > 3);
    c.label(cubic ? "cubic" : "other");
}

//----------------------------------------------------------------------
// matrices of locations, and histories of edits

template <size_t D>
static void matrix_law(Case &c) {
    Both<D> b = gen_grid_case<D>(c, 5);
    size_t n1 = c.integer(1, 4), n2 = c.integer(1, 4);
    boost::numeric::ublas::matrix<double> x[3], res(n1, n2), dx[3];
    for (size_t d = 0; d < D; ++d) {
        x[d].resize(n1, n2);
        dx[d].resize(n1, n2);
        for (size_t i = 0; i < n1; ++i)
            for (size_t j = 0; j < n2; ++j) {
                bool o = false, n = false, m = false;
                x[d](i, j) = gen_coord(c, b.table.axis[d], o, n, m);
            }
    }
    bool deriv = c.flip(0.7);
    const data_grid<D> &g = *b.grid;
    auto *p = deriv ? dx : nullptr;
    if constexpr (D == 1)
        g.interpolate(x[0], &res, p);
    else if constexpr (D == 2)
        g.interpolate(x[0], x[1], &res, p, p ? p + 1 : nullptr);
    else
        g.interpolate(x[0], x[1], x[2], &res, p, p ? p + 1 : nullptr,
                      p ? p + 2 : nullptr);
    for (size_t i = 0; i < n1; ++i)
        for (size_t j = 0; j < n2; ++j) {
            double loc[D], der[D];
            for (size_t d = 0; d < D; ++d) loc[d] = x[d](i, j);
            double v = b.grid->interpolate(loc, der);
            c.close(res(i, j), v, 1e-13, 1e-13, "matrix-value");
            if (deriv)
                for (size_t d = 0; d < D; ++d)
                    c.close(dx[d](i, j), der[d], 1e-13, 1e-12,
                            "matrix-derivative");
        }
    c.nontrivial(n1 * n2 > 1 && b.table.data.size() > 1);
}
LAW(P11, matrix_locations, 20000, 60000,
    "matrix of locations on 1-3 D grids equals point by point "
    "interpolation; non-trivial: several points and nodes") {
    switch (c.integer(1, 3)) {
        case 1:
            return matrix_law<1>(c);
        case 2:
            return matrix_law<2>(c);
        default:
            return matrix_law<3>(c);
    }
}

LAW(P11, history, 20000, 60000,
    "history of up to 30 edits (node value, method, limit) and queries "
    "against the reference after every step, queries through a shared "
    "constant pointer too; non-trivial: at least 3 edits and 3 queries") {
    Both<2> b = gen_grid_case<2>(c, 6);
    data_grid<2>::csptr view = b.grid;
    int edits = 0, queries = 0;
    int steps = c.integer(1, 30);
    for (int s = 0; s < steps; ++s) {
        switch (c.integer(0, 4)) {
            case 0: {
                size_t i[2] = {c.below(b.table.axis[0].size()),
                               c.below(b.table.axis[1].size())};
                double v = gen_value(c, c.integer(0, 1), 1.0);
                b.grid->setdata(i, v);
                b.table.data[i[0] * b.table.axis[1].size() + i[1]] = v;
                ++edits;
                break;
            }
            case 1: {
                size_t d = c.below(2);
                b.table.type[d] = gen_type(c);
                b.grid->interp_type(d, b.table.type[d]);
                ++edits;
                break;
            }
            case 2: {
                size_t d = c.below(2);
                b.table.limit[d] = c.flip();
                b.grid->edge_limit(d, b.table.limit[d]);
                ++edits;
                break;
            }
            default: {
                double loc[2];
                bool skip = false;
                for (size_t d = 0; d < 2; ++d) {
                    bool out = false, near = false, mid = false;
                    loc[d] = gen_coord(c, b.table.axis[d], out, near, mid);
                    if (mid && view->interp_type(d) == interp_enum::nearest)
                        skip = true;
                }
                if (skip) break;
                Result want = b.table.interp({loc[0], loc[1]});
                double eps = 1e-12 + 10 * axis_eps(b.table.axis[0]) +
                             10 * axis_eps(b.table.axis[1]);
                double amp = (1 + max_abs(b.table.data)) * growth(b.table, loc);
                c.close(view->interpolate(loc), (double)want.value, eps * amp,
                        1e-10, "history-value", "value");
                ++queries;
            }
        }
    }
    c.nontrivial(edits >= 3 && queries >= 3);
}
