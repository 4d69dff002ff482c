// P12: specialised fast grids agree with the general interpolation
#include "gridref.h"

using namespace gridref;
using pbt::Case;

struct Setup2 {
    seq_vector::csptr ax[2];
    std::vector<double> x[2];
    std::vector<double> f;
    size_t n1() const { return x[1].size(); }
    double at(size_t i, size_t j) const { return f[i * n1() + j]; }
};

static double min_step(const std::vector<double> &x) {
    double h = HUGE_VAL;
    for (size_t n = 0; n + 1 < x.size(); ++n)
        h = std::min(h, std::abs(x[n + 1] - x[n]));
    return h;
}
static double axis_eps(const std::vector<double> &x) {
    return 1e-15 * std::max(std::abs(x.front()), std::abs(x.back())) /
           min_step(x);
}

static std::shared_ptr<gen_grid<2>> make2(Case &c, Setup2 &s, interp_enum t,
                                          int smallest) {
    for (int d = 0; d < 2; ++d) {
        s.ax[d] = gen_axis(c, c.integer(smallest, 7));
        s.x[d] = elements(*s.ax[d]);
    }
    std::shared_ptr<gen_grid<2>> g(new gen_grid<2>(s.ax));
    int kind = c.integer(0, 3);
    double amp = c.pick<double>({1.0, 5000.0});
    double k[4] = {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
    for (size_t i = 0; i < s.x[0].size(); ++i)
        for (size_t j = 0; j < s.x[1].size(); ++j) {
            double v;
            if (kind == 3) {  // bilinear
                double u = (s.x[0][i] - s.x[0][0]) /
                           (s.x[0].back() - s.x[0][0]);
                double w = (s.x[1][j] - s.x[1][0]) /
                           (s.x[1].back() - s.x[1][0]);
                v = amp * (k[0] + k[1] * u + k[2] * w + k[3] * u * w);
            } else {
                v = gen_value(c, kind, amp);
            }
            s.f.push_back(v);
            size_t idx[2] = {i, j};
            g->setdata(idx, v);
        }
    for (int d = 0; d < 2; ++d) {
        g->interp_type(d, t);
        g->edge_limit(d, !c.flip(0.3));
    }
    c.label(kind == 3 ? "bilinear" : "any");
    return g;
}

// documented bicubic surface: Hermite in both directions, node slopes and
// cross slopes from centered differences that stop at the borders
static R bicubic(const Setup2 &s, size_t i0, size_t j0, R x, R y, int wrt) {
    auto hermite = [](R u, int d, R h, R *b) {
        if (d == 0) {
            b[0] = 2 * u * u * u - 3 * u * u + 1;
            b[1] = 3 * u * u - 2 * u * u * u;
            b[2] = h * (u * u * u - 2 * u * u + u);
            b[3] = h * (u * u * u - u * u);
        } else {
            b[0] = (6 * u * u - 6 * u) / h;
            b[1] = -b[0];
            b[2] = 3 * u * u - 4 * u + 1;
            b[3] = 3 * u * u - 2 * u;
        }
    };
    const auto &X = s.x[0], &Y = s.x[1];
    R hx = (R)X[i0 + 1] - X[i0], hy = (R)Y[j0 + 1] - Y[j0];
    R bx[4], by[4];
    hermite((x - X[i0]) / hx, wrt == 0, hx, bx);
    hermite((y - Y[j0]) / hy, wrt == 1, hy, by);
    R sum = 0;
    for (int p = 0; p < 2; ++p)
        for (int q = 0; q < 2; ++q) {
            size_t i = i0 + p, j = j0 + q;
            size_t ia = i ? i - 1 : 0, ib = std::min(i + 1, X.size() - 1);
            size_t ja = j ? j - 1 : 0, jb = std::min(j + 1, Y.size() - 1);
            R dx = (R)X[ib] - X[ia], dy = (R)Y[jb] - Y[ja];
            R f = s.at(i, j);
            R fx = ((R)s.at(ib, j) - s.at(ia, j)) / dx;
            R fy = ((R)s.at(i, jb) - s.at(i, ja)) / dy;
            R fxy = ((R)s.at(ib, jb) - s.at(ib, ja) - s.at(ia, jb) +
                     s.at(ia, ja)) /
                    (dx * dy);
            sum += bx[p] * by[q] * f + bx[p + 2] * by[q] * fx +
                   bx[p] * by[q + 2] * fy + bx[p + 2] * by[q + 2] * fxy;
        }
    return sum;
}

static double clamp(const std::vector<double> &x, bool limit, double v) {
    if (!limit) return v;
    double lo = std::min(x.front(), x.back()), hi = std::max(x.front(), x.back());
    return std::min(hi, std::max(lo, v));
}

LAW(P12, bathy_flat_methods, 150000, 600000,
    "random 2-D table (2-7 nodes per axis, even/uneven/log/falling axes, "
    "limits on/off), nearest or linear in both: value and gradient of the "
    "fast grid equal the general grid inside and outside; non-trivial: some "
    "query is in the last cell or outside") {
    Setup2 s;
    interp_enum t = c.flip() ? interp_enum::nearest : interp_enum::linear;
    data_grid<2>::csptr g = make2(c, s, t, 2);
    data_grid_bathy fast(g);
    const data_grid<2> &base = fast;
    for (int d = 0; d < 2; ++d) {
        c.check(fast.interp_type(d) == t, "fast-type");
        c.equal(fast.edge_limit(d), g->edge_limit(d), "fast-limit");
    }
    double amp = 0;
    for (double v : s.f) amp = std::max(amp, std::abs(v));
    for (int q = 0; q < 5; ++q) {
        double loc[2], keep[2], d1[2], d2[2], grow = 1, eps = 1e-12;
        bool skip = false, skipd = false;
        for (int d = 0; d < 2; ++d) {
            bool out = false, near = false, mid = false;
            loc[d] = keep[d] = gen_coord(c, s.x[d], out, near, mid);
            if (mid && t == interp_enum::nearest) skip = true;
            if (near) skipd = true;
            size_t k = cell_of(s.x[d], loc[d]);
            double u = (loc[d] - s.x[d][k]) / (s.x[d][k + 1] - s.x[d][k]);
            grow *= 1 + std::abs(u);
            eps += 10 * axis_eps(s.x[d]);
            if (out || k + 2 == s.x[d].size()) c.nontrivial();
        }
        if (skip) continue;
        c.notev("loc", loc, 2);
        double v1 = base.interpolate(loc, d1), v2 = g->interpolate(loc, d2);
        c.check(loc[0] == keep[0] && loc[1] == keep[1], "location-modified");
        c.close(v1, v2, eps * amp * grow, 1e-11, "flat-value", "value");
        c.close(base.interpolate(loc), v1, 0, 0, "flat-without-derivative");
        if (t == interp_enum::nearest || !skipd)
            for (int d = 0; d < 2; ++d)
                c.close(d1[d], d2[d], 10 * eps * amp * grow / min_step(s.x[d]),
                        1e-10, "flat-derivative",
                        "derivative " + std::to_string(d));
    }
    c.label(name(t));
}

LAW(P12, bathy_cubic, 150000, 600000,
    "random 2-D table (4-7 nodes per axis), cubic: value and gradient equal "
    "the documented bicubic surface, inside, at edges and outside; bilinear "
    "data equal the general grid; node values are returned; non-trivial: a "
    "query in an edge cell, or uneven axes") {
    Setup2 s;
    data_grid<2>::csptr g = make2(c, s, interp_enum::pchip, 4);
    data_grid_bathy fast(g);
    const data_grid<2> &base = fast;
    double amp = 0;
    for (double v : s.f) amp = std::max(amp, std::abs(v));
    for (int q = 0; q < 5; ++q) {
        double loc[2], at[2], der[2], grow = 1, eps = 1e-12;
        size_t k[2];
        for (int d = 0; d < 2; ++d) {
            bool out = false, near = false, mid = false;
            loc[d] = gen_coord(c, s.x[d], out, near, mid);
            at[d] = clamp(s.x[d], g->edge_limit(d), loc[d]);
            k[d] = cell_of(s.x[d], at[d]);
            if (k[d] == 0 || k[d] + 2 == s.x[d].size()) c.nontrivial();
            double u = (at[d] - s.x[d][k[d]]) / (s.x[d][k[d] + 1] - s.x[d][k[d]]);
            grow *= std::pow(1 + std::abs(u), 3);
            // slopes in a narrow cell may come from wide neighbours and the
            // other way around
            eps += 10 * axis_eps(s.x[d]);
        }
        c.notev("loc", loc, 2);
        double ratio = 1;
        for (int d = 0; d < 2; ++d)
            ratio *= std::abs(s.x[d][k[d] + 1] - s.x[d][k[d]]) / min_step(s.x[d]);
        double tol = 100 * eps * amp * grow * std::max(1.0, ratio);
        double v = base.interpolate(loc, der);
        c.close(v, (double)bicubic(s, k[0], k[1], at[0], at[1], -1), tol, 1e-10,
                "bicubic-value", "value");
        c.close(base.interpolate(loc), v, 0, 0, "bicubic-without-derivative");
        for (int d = 0; d < 2; ++d)
            c.close(der[d], (double)bicubic(s, k[0], k[1], at[0], at[1], d),
                    10 * tol / std::abs(s.x[d][k[d] + 1] - s.x[d][k[d]]), 1e-9,
                    "bicubic-derivative", "derivative " + std::to_string(d));
    }
    // nodes
    for (size_t i = 0; i < s.x[0].size(); ++i)
        for (size_t j = 0; j < s.x[1].size(); ++j) {
            double loc[2] = {s.x[0][i], s.x[1][j]};
            c.close(base.interpolate(loc), s.at(i, j), 1e-10 * amp, 0, "node",
                    "value at a node");
        }
    // continuity of value and gradient across a cell boundary
    int d = c.integer(0, 1);
    size_t n = 1 + c.below(s.x[d].size() - 2);
    double loc[2], lo[2], hi[2];
    loc[1 - d] = c.real(std::min(s.x[1 - d].front(), s.x[1 - d].back()),
                        std::max(s.x[1 - d].front(), s.x[1 - d].back()));
    double step = 1e-7 * min_step(s.x[d]);
    loc[d] = s.x[d][n] - step;
    double v1 = base.interpolate(loc, lo);
    loc[d] = s.x[d][n] + step;
    double v2 = base.interpolate(loc, hi);
    double wide = std::abs(s.x[d].back() - s.x[d].front()) / min_step(s.x[d]);
    c.close(v1, v2, 1e-5 * amp * wide, 0, "continuous", "value across boundary");
    for (int k = 0; k < 2; ++k)
        c.close(lo[k], hi[k], 1e-4 * amp * wide * wide / min_step(s.x[k]), 0,
                "smooth", "gradient across boundary");
}

LAW(P12, bathy_matrix, 40000, 100000,
    "matrix of locations equals point by point, through the fast class and "
    "its base; non-trivial: more than one point") {
    Setup2 s;
    data_grid<2>::csptr g = make2(c, s, gen_type(c), 4);
    data_grid_bathy fast(g);
    const data_grid<2> &base = fast;
    size_t n1 = c.integer(1, 4), n2 = c.integer(1, 4);
    matrix<double> x(n1, n2), y(n1, n2), r1(n1, n2), r2(n1, n2), dx(n1, n2),
        dy(n1, n2);
    for (size_t i = 0; i < n1; ++i)
        for (size_t j = 0; j < n2; ++j) {
            bool a = false, b = false, e = false;
            x(i, j) = gen_coord(c, s.x[0], a, b, e);
            y(i, j) = gen_coord(c, s.x[1], a, b, e);
        }
    fast.interpolate(x, y, &r1, &dx, &dy);
    base.interpolate(x, y, &r2);
    for (size_t i = 0; i < n1; ++i)
        for (size_t j = 0; j < n2; ++j) {
            double loc[2] = {x(i, j), y(i, j)}, der[2];
            double v = fast.interpolate(loc, der);
            c.close(r1(i, j), v, 0, 0, "matrix-value");
            c.close(r2(i, j), v, 0, 0, "matrix-base-value");
            c.close(dx(i, j), der[0], 0, 0, "matrix-derivative");
            c.close(dy(i, j), der[1], 0, 0, "matrix-derivative");
        }
    c.nontrivial(n1 * n2 > 1);
}

LAW(P12, svp, 120000, 400000,
    "random 3-D table (depth 3-8 nodes, 2-5 horizontally, all axis kinds, "
    "limits on/off): cubic in depth and bilinear horizontally; value equals "
    "the general grid (4+ depths) and the reference, gradient is that of the "
    "value; through a base class pointer; non-trivial: query in the first or "
    "last depth cell") {
    seq_vector::csptr ax[3];
    Table t;
    size_t total = 1;
    for (int d = 0; d < 3; ++d) {
        ax[d] = gen_axis(c, d ? c.integer(2, 5) : c.integer(3, 8));
        t.axis.push_back(elements(*ax[d]));
        t.type.push_back(d ? interp_enum::linear : interp_enum::pchip);
        t.limit.push_back(!c.flip(0.3));
        total *= ax[d]->size();
    }
    std::shared_ptr<gen_grid<3>> g(new gen_grid<3>(ax));
    int kind = c.integer(0, 2);
    double amp = c.pick<double>({1.0, 1500.0});
    size_t idx[3] = {0, 0, 0};
    for (size_t n = 0; n < total; ++n) {
        double v = gen_value(c, kind, amp);
        t.data.push_back(v);
        g->setdata(idx, v);
        for (int d = 2; d >= 0; --d) {
            if (++idx[d] < t.axis[d].size()) break;
            idx[d] = 0;
        }
    }
    for (int d = 0; d < 3; ++d) {
        g->edge_limit(d, t.limit[d]);
        g->interp_type(d, t.type[d]);
    }
    data_grid_svp fast(g);
    const data_grid<3> &base = fast;
    double eps = 1e-12, big = max_abs(t.data);
    for (int d = 0; d < 3; ++d) eps += 10 * axis_eps(t.axis[d]);
    for (int q = 0; q < 4; ++q) {
        double loc[3], keep[3], at[3], der[3], grow = 1;
        std::vector<size_t> cell(3);
        bool skipd = false;
        for (int d = 0; d < 3; ++d) {
            bool out = false, near = false, mid = false;
            loc[d] = keep[d] = gen_coord(c, t.axis[d], out, near, mid);
            at[d] = clamp(t.axis[d], t.limit[d], loc[d]);
            cell[d] = cell_of(t.axis[d], at[d]);
            double h = t.axis[d][cell[d] + 1] - t.axis[d][cell[d]];
            double u = (at[d] - t.axis[d][cell[d]]) / h;
            grow *= std::pow(1 + std::abs(u), d ? 1 : 3);
            if (d && near) skipd = true;
        }
        if (cell[0] == 0 || cell[0] + 2 == t.axis[0].size()) c.nontrivial();
        c.notev("loc", loc, 3);
        // reference: slopes per column, Hermite value and its derivative
        R val[2][2], dz[2][2];
        const auto &z = t.axis[0];
        size_t n1 = t.axis[1].size(), n2 = t.axis[2].size(), k = cell[0];
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) {
                std::vector<R> col;
                for (size_t n = 0; n < z.size(); ++n)
                    col.push_back(
                        t.data[(n * n1 + cell[1] + i) * n2 + cell[2] + j]);
                R h = (R)z[k + 1] - z[k], u = ((R)at[0] - z[k]) / h;
                R m1 = pchip_slope(z, col, k), m2 = pchip_slope(z, col, k + 1);
                val[i][j] = along(interp_enum::pchip, z, col, k, at[0], nullptr);
                dz[i][j] = (6 * u * u - 6 * u) * (col[k] - col[k + 1]) / h +
                           (3 * u * u - 4 * u + 1) * m1 +
                           (3 * u * u - 2 * u) * m2;
            }
        R h1 = (R)t.axis[1][cell[1] + 1] - t.axis[1][cell[1]];
        R h2 = (R)t.axis[2][cell[2] + 1] - t.axis[2][cell[2]];
        R p = ((R)at[1] - t.axis[1][cell[1]]) / h1;
        R r = ((R)at[2] - t.axis[2][cell[2]]) / h2;
        auto bil = [&](R a[2][2]) {
            return a[0][0] * (1 - p) * (1 - r) + a[1][0] * p * (1 - r) +
                   a[0][1] * (1 - p) * r + a[1][1] * p * r;
        };
        R want = bil(val), w0 = bil(dz);
        R w1 = ((val[1][0] - val[0][0]) * (1 - r) +
                (val[1][1] - val[0][1]) * r) / h1;
        R w2 = ((val[0][1] - val[0][0]) * (1 - p) +
                (val[1][1] - val[1][0]) * p) / h2;
        double tol = 100 * eps * big * grow;
        double v = base.interpolate(loc, der);
        for (int d = 0; d < 3; ++d)
            c.check(loc[d] == keep[d], "location-modified");
        c.close(v, (double)want, tol, 1e-10, "svp-value", "value");
        c.close(fast.interpolate(loc), v, 0, 0, "svp-without-derivative");
        if (t.axis[0].size() > 3)
            c.close(v, g->interpolate(loc), tol, 1e-10, "svp-general",
                    "value of the general grid");
        c.close(der[0], (double)w0, 10 * tol / min_step(z), 1e-9, "svp-depth",
                "depth derivative");
        if (!skipd) {
            c.close(der[1], (double)w1, 10 * tol / fabsl(h1), 1e-9,
                    "svp-lateral", "first lateral derivative");
            c.close(der[2], (double)w2, 10 * tol / fabsl(h2), 1e-9,
                    "svp-lateral", "second lateral derivative");
        }
    }
    // matrix form
    matrix<double> m[3], res(1, 2), d[3];
    for (int n = 0; n < 3; ++n) {
        m[n].resize(1, 2), d[n].resize(1, 2);
        bool a = false, b = false, e = false;
        m[n](0, 0) = gen_coord(c, t.axis[n], a, b, e);
        m[n](0, 1) = gen_coord(c, t.axis[n], a, b, e);
    }
    base.interpolate(m[0], m[1], m[2], &res, d, d + 1, d + 2);
    for (int q = 0; q < 2; ++q) {
        double loc[3] = {m[0](0, q), m[1](0, q), m[2](0, q)}, der[3];
        double v = fast.interpolate(loc, der);
        c.close(res(0, q), v, 0, 0, "svp-matrix");
        for (int n = 0; n < 3; ++n)
            c.close(d[n](0, q), der[n], 0, 0, "svp-matrix-derivative");
    }
}
