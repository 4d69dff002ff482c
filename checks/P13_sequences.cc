// P13: axis sequences return the right elements and locate any value
#include <usml/types/types.h>

#include <memory>

#include "pbt.h"

using namespace usml::types;
using pbt::Case;

typedef std::vector<double> Vals;

// index of the interval that holds v, for a strictly monotonic list
static size_t ref_index(const Vals &x, double v) {
    if (x.size() < 2) return 0;
    double s = x[1] > x[0] ? 1.0 : -1.0;
    size_t n = 0;
    while (n + 2 < x.size() && s * v >= s * x[n + 1]) ++n;
    return n;
}

static double gen_lookup(Case &c, const Vals &x, bool &edge) {
    size_t N = x.size();
    double span = std::abs(x[N - 1] - x[0]) + (N < 2 ? 1.0 : 0.0);
    double lo = std::min(x[0], x[N - 1]), hi = std::max(x[0], x[N - 1]);
    switch (c.integer(0, 7)) {
        case 0:
        case 1:
        case 2:
            return c.real(lo, hi);
        case 3:
            edge = true;
            return x[c.below(N)];
        case 4: {
            size_t n = c.below(N);
            size_t m = std::min(n + 1, N - 1);
            return x[n] + (x[m] - x[n]) * c.real(0, 1, {0.5, 1e-3, 0.999}, .5);
        }
        case 5:
            edge = true;
            return lo - span * c.logreal(1e-6, 1e6);
        case 6:
            edge = true;
            return hi + span * c.logreal(1e-6, 1e6);
        default:
            edge = true;
            return c.pick<double>({0.0, -1e300, 1e300, 1e19, -1e19,
                                   -HUGE_VAL, HUGE_VAL});
    }
}

// every documented service of a sequence, against the expected element list
static void inspect(Case &c, const seq_vector &s, const Vals &x, double rtol,
                    bool lookups = true) {
    size_t N = x.size();
    c.equal(s.size(), N, "size", "number of elements");
    double scale = 0;
    for (double v : x) scale = std::max(scale, std::abs(v));
    double tol = rtol * scale;
    for (size_t n = 0; n < N; ++n) {
        c.close(s[n], x[n], tol, 0, "element", "element " + std::to_string(n));
        c.equal(s(n), s[n], "call-operator", "s(n)");
        if (N > 1) {
            size_t m = std::min(n, N - 2);
            c.close(s.increment(n), x[m + 1] - x[m], 2 * tol + 1e-300, 1e-12,
                    "increment", "increment " + std::to_string(n));
        }
    }
    c.equal(s(N), s[N - 1], "beyond-end", "s(N)");
    c.equal(s(N + 1000), s[N - 1], "beyond-end", "s(N+1000)");
    c.equal(s((size_t)-1), s[N - 1], "beyond-end", "s(-1)");
    if (N > 1) {
        c.equal(s.increment(N + 5), s.increment(N - 1), "increment-end", "");
        c.equal(s.increment((size_t)-1), s.increment(N - 1), "increment-end");
    }
    // iterators
    size_t n = 0;
    for (seq_vector::const_iterator it = s.begin(); it != s.end(); ++it)
        c.check(n < N && *it == s[n++], "iterator");
    c.equal(n, N, "iterator-length");
    for (seq_vector::const_reverse_iterator it = s.rbegin(); it != s.rend();
         ++it)
        c.check(n > 0 && *it == s[--n], "reverse-iterator");
    c.equal(n, (size_t)0, "reverse-iterator-length");
    c.check(s == s && !(s != s), "self-equal");
    auto copy = s.data();
    c.equal((size_t)copy.size(), N, "data()");
    for (size_t k = 0; k < N; ++k) c.equal(copy[k], s[k], "data()");

    // strictly monotonic
    for (size_t k = 2; k < N; ++k)
        c.check((s[k] - s[k - 1]) * (s[1] - s[0]) > 0, "monotonic");
    if (!lookups) return;

    // lookups, judged against the elements the sequence reports
    Vals y(N);
    for (size_t k = 0; k < N; ++k) y[k] = s[k];
    bool edge = false;
    for (int k = 0; k < 6; ++k) {
        double v = gen_lookup(c, y, edge);
        c.note("v", v);
        size_t i = s.find_index(v);
        c.check(N == 1 ? i == 0 : i <= N - 2, "index-range",
                "find_index returned " + std::to_string(i));
        size_t e = ref_index(y, v);
        if (i != e) {
            // only roundoff at a node excuses a neighbor
            double eps = 1e-10 * (std::abs(v) + tol / rtol);
            bool ok = std::abs((long)i - (long)e) == 1 &&
                      std::abs(v - y[std::max(i, e)]) <= eps;
            c.check(ok, "find_index",
                    "found interval " + std::to_string(i) + " expected " +
                        std::to_string(e));
        }
        size_t m = s.find_nearest(v);
        c.check(m < N, "nearest-range", "find_nearest " + std::to_string(m));
        if (std::isfinite(v) && std::abs(v) < 1e18 * (1 + tol / rtol)) {
            double best = HUGE_VAL;
            for (double z : y) best = std::min(best, std::abs(z - v));
            c.check(std::abs(y[m] - v) <=
                        best + 1e-10 * (std::abs(v) + tol / rtol),
                    "find_nearest",
                    "nearest to " + std::to_string(v) + " is not " +
                        std::to_string(y[m]));
        } else if (v != 0.0) {
            size_t end = (v > 0) == (N < 2 || y[1] > y[0]) ? N - 1 : 0;
            // all elements are equally far from such a value in floating
            // point, the nearest must still be in the interval at that end
            c.check(m == end || (N > 1 && (m + 1 == end || m == end + 1)),
                    "nearest-far", "");
        }
    }
    c.nontrivial(N > 2 || edge);
}

static void classify(Case &c, const Vals &x) {
    c.label(x.size() == 1 ? "one" : x.size() == 2 ? "two" : "many");
    if (x.size() > 1) c.label(x[1] > x[0] ? "rising" : "falling");
    c.notev("x", x, x.size());
}
static int gen_size(Case &c) {
    return c.flip(.25) ? c.integer(1, 3) : c.integer(2, 60);
}

LAW(P13, linear, 60000, 3000000,
    "seq_linear through its constructors (increment+size as int and size_t, "
    "first+last+size, first+increment+last), rising and falling; oracle: "
    "closed form and linear search; nontrivial: over two elements or an "
    "end/node lookup") {
    int N = gen_size(c);
    double first = c.real(-1000, 1000, {0.0, 1.0, 90.0, -180.0}, .3);
    double inc = c.logreal(1e-3, 1e3) * c.sign();
    if (c.flip(.3)) inc = std::round(inc) == 0 ? 1.0 : std::round(inc);
    int how = c.integer(0, 4);
    c.note("how", how);
    c.note("inc", inc);
    Vals x;
    for (int n = 0; n < N; ++n) x.push_back(first + n * inc);
    classify(c, x);
    const double T = 1e-13 * 60;
    if (how == 0) {
        inspect(c, seq_linear(first, inc, N), x, T);
    } else if (how == 1) {
        inspect(c, seq_linear(first, inc, (size_t)N), x, T);
    } else if (how == 2) {
        if (N < 2) c.discard();
        inspect(c, seq_linear(first, x.back(), (size_t)N, true), x, T);
    } else if (how == 3) {
        // last is on the sequence (up to roundoff), or between elements;
        // stay clear of the tenth of an increment in which it rounds up
        double last = x.back() + inc * c.real(0, 0.85, {0.0}, .5);
        c.note("last", last);
        if (std::abs(inc) * 1e9 < std::abs(first)) c.discard();
        inspect(c, seq_linear(first, inc, last), x, T);
    } else {
        seq_linear a(first, inc, N);
        seq_linear b(a);
        c.check(a == b, "copy-equal");
        inspect(c, b, x, T);
        if (N > 1) {
            seq_linear d(first, inc, N - 1), e(first + inc, inc, N);
            c.check(a != d && !(a == d), "unequal-size");
            c.check(a != e && !(a == e), "unequal-value");
        }
    }
}

LAW(P13, logarithmic, 60000, 3000000,
    "seq_log through its constructors, ratio above and below one; oracle: "
    "first*ratio^n and linear search; nontrivial: over two elements or an "
    "end/node lookup") {
    double ratio = c.pick<double>({2.0, 10.0, 1.0, 1.0, 1.0});
    if (ratio == 1.0) ratio = 1.0 + c.logreal(1e-3, 9);
    if (c.flip(.25)) ratio = 1.0 / ratio;
    int most = std::min(60, (int)(80.0 / std::abs(std::log2(ratio))) + 1);
    int N = std::min(gen_size(c), most);
    double first = c.logreal(1e-6, 1e6);
    if (c.flip(.4)) first = c.pick<double>({1.0, 10.0, 1000.0, 0.001});
    if (c.flip(.1)) {
        first = -first;
        c.label("negative");
    }
    Vals x;
    for (int n = 0; n < N; ++n)
        x.push_back((double)((long double)first * powl(ratio, n)));
    classify(c, x);
    c.note("ratio", ratio);
    const double T = 1e-13 * 60;
    // elements are far apart in size, compare them relatively
    auto relative = [&](const seq_vector &s) {
        c.equal(s.size(), x.size(), "size", "number of elements");
        for (size_t n = 0; n < x.size(); ++n)
            c.close(s[n], x[n], 0, 1e-12, "element");
    };
    int how = c.integer(0, 3);
    c.note("how", how);
    if (how == 0) {
        seq_log s(first, ratio, N);
        relative(s);
        inspect(c, s, x, T);
    } else if (how == 1) {
        seq_log s(first, ratio, (size_t)N);
        relative(s);
        inspect(c, s, x, T);
    } else if (how == 2) {
        double last = x.back() * std::pow(ratio, c.real(0, .85, {0.0}, .5));
        c.note("last", last);
        seq_log s(first, ratio, last);
        relative(s);
        inspect(c, s, x, T);
    } else {
        seq_log a(first, ratio, N), s(a);
        c.check(a == s, "copy-equal");
        relative(s);
        inspect(c, s, x, T);
    }
}

static Vals gen_list(Case &c, int N) {
    Vals x;
    double v = c.real(-1000, 1000, {0.0, 360.0}, .3);
    double s = c.sign();
    int style = c.integer(0, 4);
    double step = c.logreal(1e-3, 100), ratio = 1.0 + c.logreal(1e-2, 1);
    if (style == 3) v = c.logreal(1e-2, 1e2) * s;
    for (int n = 0; n < N; ++n) {
        x.push_back(v);
        if (style == 0)
            v += s * c.logreal(1e-3, 1e3);  // wildly uneven
        else if (style == 1)
            v += s * step;  // linear
        else if (style == 2)
            v += s * step * c.real(1, 1.2);  // almost linear
        else if (style == 3)
            v *= ratio;  // logarithmic
        else {
            v += s * step;
            step *= ratio;  // logarithmic with an offset
        }
    }
    c.label(std::vector<std::string>{"uneven", "linear", "jitter", "log",
                                     "offset-log"}[style]);
    return x;
}

LAW(P13, data, 60000, 3000000,
    "seq_data from std::vector, ublas vector and C arrays holding a monotonic "
    "list (uneven, linear, jittered, logarithmic); oracle: the list and "
    "linear search; nontrivial: over two elements or an end/node lookup") {
    int N = gen_size(c);
    Vals x = gen_list(c, N);
    for (int n = 1; n < N; ++n)
        if (x[n] == x[n - 1]) c.discard();
    classify(c, x);
    int how = c.integer(0, 3);
    boost::numeric::ublas::vector<double> u(N);
    for (int n = 0; n < N; ++n) u(n) = x[n];
    if (how == 0)
        inspect(c, seq_data(x), x, 1e-16);
    else if (how == 1)
        inspect(c, seq_data(u), x, 1e-16);
    else if (how == 2)
        inspect(c, seq_data(&x[0], (size_t)N), x, 1e-16);
    else {
        seq_data a(x), b(a);
        c.check(a == b && !(a != b), "copy-equal");
        inspect(c, b, x, 1e-16);
    }
}

LAW(P13, refuses, 40000, 1000000,
    "a monotonic list of 2 to 60 values in which one value is repeated or "
    "one step goes the other way must be refused by seq_data and "
    "build_best; nontrivial: always") {
    int N = c.integer(2, 60);
    Vals x = gen_list(c, N);
    int n = c.integer(1, N - 1);
    bool repeat = N < 3 || c.flip();
    double shift = repeat ? 0.0 : c.real(.01, 1);
    if (repeat) {
        // shift the rest so that only this pair is at fault
        double d = x[n] - x[n - 1];
        x[n] = x[n - 1];
        for (int k = n + 1; k < N; ++k) x[k] -= d;
        for (int k = n + 1; k < N; ++k)
            if (x[k] == x[k - 1]) c.label("more");
    } else {
        double d = (1 + shift) * (x[n] - x[n - 1]);
        for (int k = n; k < N; ++k) x[k] -= d;
    }
    classify(c, x);
    c.note("n", n);
    c.nontrivial();
    c.label(repeat ? "repeat" : "reversal");
    c.throws([&] { seq_data s(x); }, "seq_data", "non monotonic data");
    // tiny steps are below the resolution that build_best documents
    double span = 0, top = 0;
    for (double v : x) {
        span = std::max(span, std::abs(v - x[0]));
        top = std::max(top, std::abs(v));
    }
    bool clear = false;
    // a fault that is large compared to the mean step and the roundoff of
    // single precision can't be mistaken for noise
    double mean = std::abs(x[N - 1] - x[0]) / (N - 1);
    double dev = 0;
    for (int k = 0; k < N; ++k)
        dev = std::max(dev, std::abs(x[k] - (x[0] + k * (x[N - 1] - x[0]) /
                                                        (N - 1))));
    clear = dev > .05 * mean + 1e-6 * top || mean == 0;
    if (clear) {
        c.label("build_best");
        c.throws([&] { seq_vector::build_best(x); }, "build_best",
                 "non monotonic data");
    }
}

LAW(P13, build_best, 80000, 3000000,
    "build_best on monotonic lists as std::vector, ublas vector and array; "
    "oracle: holds the list (up to 0.2% of a step or single precision "
    "roundoff) and looks it up; nontrivial: over two elements") {
    int N = gen_size(c);
    Vals x = gen_list(c, N);
    for (int n = 1; n < N; ++n)
        if (x[n] == x[n - 1]) c.discard();
    classify(c, x);
    seq_vector::csptr s;
    int how = c.integer(0, 2);
    boost::numeric::ublas::vector<double> u(N);
    for (int n = 0; n < N; ++n) u(n) = x[n];
    if (how == 0)
        s = seq_vector::build_best(x);
    else if (how == 1)
        s = seq_vector::build_best(u);
    else
        s = seq_vector::build_best(&x[0], N);
    c.equal(s->size(), (size_t)N, "size");
    double top = 0;
    for (double v : x) top = std::max(top, std::abs(v));
    Vals y(N);
    for (int n = 0; n < N; ++n) {
        double step = N < 2 ? 0
                      : n == 0 ? std::abs(x[1] - x[0])
                      : n == N - 1
                          ? std::abs(x[n] - x[n - 1])
                          : std::min(std::abs(x[n + 1] - x[n]),
                                     std::abs(x[n] - x[n - 1]));
        y[n] = (*s)[n];
        c.close(y[n], x[n],
                std::max(2e-3 * step, 1e-5 * std::abs(x[n])) + 3e-7 * top, 0,
                "element", "element " + std::to_string(n));
    }
    inspect(c, *s, y, 1e-12);
    c.nontrivial(N > 2);
}

LAW(P13, clip, 60000, 2000000,
    "clip of linear, log and data sequences to a range which may cover all, "
    "part, one or no element; oracle: filter of the element list; "
    "nontrivial: drops some and keeps some") {
    int N = gen_size(c);
    std::unique_ptr<seq_vector> s;
    int kind = c.integer(0, 2);
    if (kind == 0)
        s.reset(new seq_linear(c.real(-100, 100), c.logreal(.01, 10) * c.sign(),
                               N));
    else if (kind == 1)
        s.reset(new seq_log(c.logreal(.1, 10), c.pick<double>({1.5, 2.0, 1.1, .5}),
                            N));
    else {
        Vals x = gen_list(c, N);
        for (int n = 1; n < N; ++n)
            if (x[n] == x[n - 1]) c.discard();
        s.reset(new seq_data(x));
    }
    Vals y(N);
    for (int n = 0; n < N; ++n) y[n] = (*s)[n];
    classify(c, y);
    bool e;
    double a = gen_lookup(c, y, e), b = gen_lookup(c, y, e);
    if (a > b) std::swap(a, b);
    c.note("min", a);
    c.note("max", b);
    Vals kept;
    for (double v : y)
        if (v >= a && v <= b) kept.push_back(v);
    c.note("kept", kept.size());
    c.label(kept.empty()              ? "none"
            : kept.size() == (size_t)N ? "all"
                                      : "part");
    if (kept.empty()) {
        // there is no empty sequence: anything but a made up element
        bool made_up = false;
        try {
            made_up = s->clip(a, b)->size() > 0;
        } catch (const std::exception &) {
        }
        c.check(!made_up, "empty", "clip invented an element");
        return;
    }
    seq_vector::csptr p = s->clip(a, b);
    double top = 0;
    for (double v : kept) top = std::max(top, std::abs(v));
    c.equal(p->size(), kept.size(), "clip-size", "elements kept");
    for (size_t n = 0; n < kept.size(); ++n) {
        double step = kept.size() < 2
                          ? 0
                          : std::abs(kept[std::min(n + 1, kept.size() - 1)] -
                                     kept[n == 0 ? 0 : n - 1]);
        c.close((*p)[n], kept[n],
                std::max(2e-3 * step, 1e-5 * std::abs(kept[n])) + 3e-7 * top,
                0, "clip-element", "element " + std::to_string(n));
    }
    c.nontrivial(kept.size() < (size_t)N);
}

LAW(P13, rayfan, 40000, 1000000,
    "seq_rayfan with random limits (either order), size, center and spread; "
    "oracle: limits, uniform spacing of atan((x-center)/spread), linear "
    "search; nontrivial: over two elements") {
    int N = c.integer(2, 200);
    double a = c.real(-90, 90, {-90.0, 90.0, 0.0}, .3),
           b = c.real(-90, 90, {90.0, -90.0, 0.0}, .3);
    if (std::abs(a - b) < 1) c.discard();
    double center = c.real(-90, 90, {0.0}, .3), spread = c.logreal(.5, 50);
    c.note("first", a);
    c.note("last", b);
    c.note("n", N);
    c.note("center", center);
    c.note("spread", spread);
    seq_rayfan s(a, b, N, center, spread);
    if (a > b) std::swap(a, b);
    Vals x(N);
    long double f = atanl(((long double)a - center) / spread),
                l = atanl(((long double)b - center) / spread);
    for (int n = 0; n < N; ++n)
        x[n] = (double)(center + spread * tanl(f + (l - f) * n / (N - 1)));
    c.close(s[0], a, 1e-9, 0, "first");
    c.close(s[N - 1], b, 1e-9, 0, "last");
    inspect(c, s, x, 1e-9);
    c.nontrivial(N > 2);
}

LAW(P13, augment, 40000, 1000000,
    "seq_augment of a sequence with 3 to 60 elements by 0 to 40 rays; "
    "oracle: strictly monotonic, keeps every original element, adds the "
    "right number evenly to the first and the last interval, looks values "
    "up; nontrivial: rays were added") {
    int M = c.integer(3, 60), add = c.integer(0, 40);
    seq_vector::csptr o;
    int kind = c.integer(0, 2);
    if (kind == 0)
        o.reset(new seq_rayfan(c.real(-90, -1), c.real(1, 90), M,
                               c.real(-30, 30, {0.0}, .5)));
    else if (kind == 1)
        o.reset(new seq_linear(c.real(-90, 0), c.logreal(.1, 3) * c.sign(), M));
    else {
        Vals x = gen_list(c, M);
        double top = 0, least = HUGE_VAL;
        for (int n = 1; n < M; ++n) {
            least = std::min(least, std::abs(x[n] - x[n - 1]));
            top = std::max(top, std::abs(x[n]));
        }
        if (least < 1e-9 * top || least == 0) c.discard();
        o.reset(new seq_data(x));
    }
    c.note("add", add);
    Vals orig(M);
    for (int n = 0; n < M; ++n) orig[n] = (*o)[n];
    classify(c, orig);
    seq_augment s(o, add);
    c.equal(s.size(), (size_t)(M + add), "size");
    Vals y(M + add);
    double top = 0;
    for (int n = 0; n < M + add; ++n) {
        y[n] = s[n];
        top = std::max(top, std::abs(y[n]));
    }
    double sg = orig[1] > orig[0] ? 1 : -1;
    for (int n = 1; n < M + add; ++n)
        c.check(sg * (y[n] - y[n - 1]) > 0, "monotonic");
    for (double v : orig) {
        double best = HUGE_VAL;
        for (double z : y) best = std::min(best, std::abs(z - v));
        c.check(best <= 1e-12 * top, "original-lost");
    }
    int left = add / 2, right = add - left;
    double step = (orig[1] - orig[0]) / (left + 1);
    for (int n = 0; n <= left; ++n)
        c.close(y[n], orig[0] + n * step, 1e-11 * top, 0, "left-rays");
    for (int n = 2; n < M - 1; ++n)
        c.close(y[n + left], orig[n], 1e-11 * top, 0, "middle");
    for (int n = 1; n < right; ++n)  // evenly spaced in the last interval
        c.close(y[M - 2 + left + n + 1] - y[M - 2 + left + n],
                y[M - 2 + left + 1] - y[M - 2 + left], 1e-11 * top, 0,
                "right-rays");
    inspect(c, s, y, 1e-15);
    c.nontrivial(add > 0);
}
