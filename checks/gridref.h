// Reference model for table interpolation, in long double, written from the
// documentation of gen_grid and the published PCHIP algorithm.
#pragma once
#include <usml/types/types.h>

#include <array>
#include <memory>
#include <vector>

#include "pbt.h"

namespace gridref {
using namespace usml::types;
typedef long double R;

inline size_t cell_of(const std::vector<double> &x, double v) {
    if (x.size() < 2) return 0;
    double s = x[1] > x[0] ? 1.0 : -1.0;
    size_t n = 0;
    while (n + 2 < x.size() && s * v >= s * x[n + 1]) ++n;
    return n;
}

// slope of the monotone cubic at node k (Fritsch-Carlson / Matlab pchip)
inline R pchip_slope(const std::vector<double> &x, const std::vector<R> &y,
                     size_t k) {
    const size_t N = x.size();
    auto h = [&](size_t n) { return (R)x[n + 1] - (R)x[n]; };
    auto d = [&](size_t n) { return (y[n + 1] - y[n]) / h(n); };
    auto edge = [](R h0, R h1, R d0, R d1) {
        R m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
        if (m * d0 <= 0) return (R)0;
        if (d0 * d1 < 0 && fabsl(m) > fabsl(3 * d0)) return 3 * d0;
        return m;
    };
    if (k == 0) return edge(h(0), h(1), d(0), d(1));
    if (k == N - 1) return edge(h(N - 2), h(N - 3), d(N - 2), d(N - 3));
    R a = d(k - 1), b = d(k), ha = h(k - 1), hb = h(k);
    if (!(a * b > 0)) return 0;
    R w1 = 2 * hb + ha, w2 = hb + 2 * ha;
    return (w1 + w2) / (w1 / a + w2 / b);
}

struct Result {
    R value;
    std::vector<R> deriv;
};

// one dimensional interpolation of the values on an axis
inline R along(interp_enum type, const std::vector<double> &x,
               const std::vector<R> &y, size_t k, double v, R *slope) {
    if (x.size() < 2) {
        if (slope) *slope = 0;
        return y[0];
    }
    R h = (R)x[k + 1] - (R)x[k], s = (R)v - (R)x[k], u = s / h;
    if (type == interp_enum::nearest) {
        if (slope) *slope = 0;
        return u < 0.5L ? y[k] : y[k + 1];
    }
    if (type == interp_enum::linear) {
        if (slope) *slope = (y[k + 1] - y[k]) / h;
        return y[k] + u * (y[k + 1] - y[k]);
    }
    R m1 = pchip_slope(x, y, k), m2 = pchip_slope(x, y, k + 1);
    if (slope) *slope = m1 * (1 - u) + m2 * u;  // documented: linear change
    R u2 = u * u, u3 = u2 * u;
    return (2 * u3 - 3 * u2 + 1) * y[k] + (u3 - 2 * u2 + u) * h * m1 +
           (3 * u2 - 2 * u3) * y[k + 1] + (u3 - u2) * h * m2;
}

inline interp_enum effective(interp_enum t, size_t n) {
    if (n < 2) return interp_enum::nearest;
    if (n < 4 && t == interp_enum::pchip) return interp_enum::linear;
    return t;
}

// tensor interpolation; data in row-major order (last index fastest)
struct Table {
    std::vector<std::vector<double>> axis;
    std::vector<R> data;
    std::vector<interp_enum> type;  // as requested
    std::vector<bool> limit;

    size_t dims() const { return axis.size(); }

    Result interp(std::vector<double> loc) const {
        std::vector<size_t> cell(dims());
        for (size_t d = 0; d < dims(); ++d) {
            const auto &x = axis[d];
            if (x.size() < 2) {
                loc[d] = x[0];
                cell[d] = 0;
                continue;
            }
            if (limit[d]) {
                double lo = std::min(x.front(), x.back());
                double hi = std::max(x.front(), x.back());
                loc[d] = std::min(hi, std::max(lo, loc[d]));
            }
            cell[d] = cell_of(x, loc[d]);
        }
        return eval((int)dims() - 1, cell, loc, 0, 1, data.size());
    }

   private:
    // dimension 0 is the slowest index; the recursion folds dimension 0 first
    // (innermost), so the values along dimension dim are interpolations of
    // all the lower dimensions
    Result eval(int dim, const std::vector<size_t> &cell,
                const std::vector<double> &loc, size_t offset, size_t stride,
                size_t) const {
        Result r;
        if (dim < 0) {
            r.value = data[offset];
            r.deriv.assign(dims(), 0);
            return r;
        }
        const auto &x = axis[dim];
        const interp_enum t = effective(type[dim], x.size());
        std::vector<R> y(x.size(), 0);
        std::vector<std::vector<R>> dy(dims(), y);
        for (size_t n = 0; n < x.size(); ++n) {
            Result e = eval(dim - 1, cell, loc, offset + n * stride,
                            stride * x.size(), 0);
            y[n] = e.value;
            for (int d = 0; d < dim; ++d) dy[d][n] = e.deriv[d];
        }
        r.deriv.assign(dims(), 0);
        r.value = along(t, x, y, cell[dim], loc[dim], &r.deriv[dim]);
        for (int d = 0; d < dim; ++d)
            r.deriv[d] = along(t, x, dy[d], cell[dim], loc[dim], nullptr);
        return r;
    }
};

//----------------------------------------------------------------------
// generators

// axis as a library sequence plus its elements as the library stores them
inline seq_vector::csptr gen_axis(pbt::Case &c, size_t N, bool *uneven = 0,
                                  bool allow_log = true, bool allow_falling = true) {
    double scale = c.pick<double>({1.0, 1.0, 0.01, 100.0, 1e4});
    double first = c.flip(0.7) ? scale * c.real(-5, 5) : 0.0;
    double sign = allow_falling && c.flip(0.25) ? -1.0 : 1.0;
    int kind = c.integer(0, allow_log ? 2 : 1);
    seq_vector::csptr ax;
    if (kind == 2) {
        double start = scale * c.real(0.1, 5), ratio = c.real(1.05, 3.0);
        if (sign < 0) ratio = 1 / ratio;
        ax.reset(new seq_log(start, ratio, (int)N));
        if (uneven) *uneven = true;
    } else if (kind == 1 || N < 2) {
        std::vector<double> x(N);
        x[0] = first;
        for (size_t n = 1; n < N; ++n)
            x[n] = x[n - 1] + sign * scale * c.logreal(0.05, 5.0);
        ax.reset(new seq_data(x.data(), N));
        if (uneven) *uneven = true;
    } else {
        ax.reset(new seq_linear(first, sign * scale * c.real(0.1, 3.0), (int)N));
        if (uneven) *uneven = false;
    }
    return ax;
}

inline std::vector<double> elements(const seq_vector &s) {
    std::vector<double> v;
    for (size_t n = 0; n < s.size(); ++n) v.push_back(s[n]);
    return v;
}

// query coordinate; outside counts true when beyond the axis; near says the
// coordinate is (almost) on a node, mid that it is on a half-way point
inline double gen_coord(pbt::Case &c, const std::vector<double> &x,
                        bool &outside, bool &near, bool &mid) {
    size_t N = x.size();
    double lo = std::min(x.front(), x.back()), hi = std::max(x.front(), x.back());
    double span = N > 1 ? hi - lo : 1.0;
    double v;
    switch (c.integer(0, 9)) {
        case 0:
            v = x[c.below(N)];
            break;
        case 1:
            v = lo - span * c.logreal(1e-3, 1.5);
            break;
        case 2:
            v = hi + span * c.logreal(1e-3, 1.5);
            break;
        case 3:
        case 4:
        case 5: {  // pick the cell first: first and last cells are as
                   // likely as the others
            size_t n = c.below(N > 1 ? N - 1 : 1);
            size_t m = std::min(n + 1, N - 1);
            v = x[n] + (x[m] - x[n]) * c.real(0, 1, {0.25, 0.75, 0.01, 0.99}, .3);
            break;
        }
        default:
            v = c.real(lo, hi);
    }
    if (N > 1 && (v < lo || v > hi)) outside = true;
    for (size_t n = 0; n < N; ++n) {
        if (std::abs(v - x[n]) < 1e-9 * span) near = true;
        if (n + 1 < N &&
            std::abs(v - 0.5 * (x[n] + x[n + 1])) < 1e-9 * span)
            mid = true;
    }
    return v;
}

inline interp_enum gen_type(pbt::Case &c) {
    return c.pick<interp_enum>({interp_enum::linear, interp_enum::pchip,
                                interp_enum::pchip, interp_enum::nearest});
}

inline const char *name(interp_enum t) {
    return t == interp_enum::nearest  ? "nearest"
           : t == interp_enum::linear ? "linear"
                                      : "pchip";
}

inline double gen_value(pbt::Case &c, int kind, double amp) {
    switch (kind) {
        case 0:
            return amp * c.real(-1, 1);
        case 1:  // plateaus and exact repeats
            return amp * c.integer(-2, 2);
        default:
            return amp * (10 + c.real(-1, 1));
    }
}

// largest data value and derivative scale, for tolerances
inline double max_abs(const std::vector<R> &d) {
    double m = 0;
    for (R v : d) m = std::max(m, (double)fabsl(v));
    return m;
}
}  // namespace gridref
