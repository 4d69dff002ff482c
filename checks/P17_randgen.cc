// P17: random numbers are reproducible and follow their distribution
#include <usml/ublas/randgen.h>

#include <algorithm>

#include "pbt.h"

using pbt::Case;
using usml::ublas::randgen;
typedef std::vector<double> Seq;

// one draw request, answered by bulk or by one-at-a-time calls
struct Req {
    int kind;  // 0 uniform, 1 gaussian, 2 cgaussian
    int form;  // 0 scalar, 1 vector, 2 matrix
    int n, m;
};
static Req gen_req(Case &c) {
    Req r;
    r.kind = c.integer(0, 2);
    r.form = c.integer(0, 2);
    r.n = r.form == 0 ? 1 : c.integer(1, 9);
    r.m = r.form == 2 ? c.integer(1, 6) : 1;
    return r;
}
template <class M>
static void take_matrix(const M &x, Seq &out);
static void put(double v, Seq &out) { out.push_back(v); }
static void put(std::complex<double> v, Seq &out) {
    out.push_back(v.real());
    out.push_back(v.imag());
}
template <class V>
static void take_vector(Case &c, const V &x, int n, Seq &out) {
    c.equal((int)x.size(), n, "vector-size");
    for (int i = 0; i < n; ++i) put(x(i), out);
}
template <class M>
static void take_matrix(Case &c, const M &x, const Req &r, Seq &out) {
    c.check((int)x.size1() == r.n && (int)x.size2() == r.m, "matrix-size");
    for (int i = 0; i < r.n; ++i)
        for (int j = 0; j < r.m; ++j) put(x(i, j), out);
}
static void bulk(Case &c, randgen &g, const Req &r, Seq &out) {
    switch (r.form * 3 + r.kind) {
        case 0: put(g.uniform(), out); break;
        case 1: put(g.gaussian(), out); break;
        case 2: put(g.cgaussian(), out); break;
        case 3: take_vector(c, g.uniform(r.n), r.n, out); break;
        case 4: take_vector(c, g.gaussian(r.n), r.n, out); break;
        case 5: take_vector(c, g.cgaussian(r.n), r.n, out); break;
        case 6: take_matrix(c, g.uniform(r.n, r.m), r, out); break;
        case 7: take_matrix(c, g.gaussian(r.n, r.m), r, out); break;
        default: take_matrix(c, g.cgaussian(r.n, r.m), r, out);
    }
}
static void single(randgen &g, const Req &r, Seq &out) {
    for (int k = 0; k < r.n * r.m; ++k) {
        if (r.kind == 0) put(g.uniform(), out);
        if (r.kind == 1) put(g.gaussian(), out);
        if (r.kind == 2) put(g.cgaussian(), out);
    }
}
static void describe(Case &c, const std::vector<Req> &h) {
    std::string s;
    for (const Req &r : h)
        s += std::string(1, "ugc"[r.kind]) + "svm"[r.form] +
             std::to_string(r.n) + "x" + std::to_string(r.m) + " ";
    c.note("draws", s);
}
static std::vector<Req> gen_history(Case &c, int lo) {
    std::vector<Req> h;
    int n = c.integer(lo, 8);
    for (int k = 0; k < n; ++k) h.push_back(gen_req(c));
    return h;
}
static unsigned gen_seed(Case &c) {
    if (c.flip(.3)) return c.pick<unsigned>({0u, 1u, 42u, 0xffffffffu});
    return (unsigned)c.below(1ull << 32);
}

LAW(P17, forms, 60000, 1500000,
    "history of up to 8 draws (uniform, gaussian, complex; scalar, vector, "
    "matrix) replayed one number at a time from a generator with the same "
    "seed; oracle: identical numbers, uniform in [0,1); nontrivial: a vector "
    "or matrix draw") {
    unsigned s = gen_seed(c);
    std::vector<Req> h = gen_history(c, 1);
    c.note("seed", s);
    describe(c, h);
    randgen a(s), b(s);
    Seq x, y;
    for (const Req &r : h) {
        size_t start = x.size();
        bulk(c, a, r, x);
        single(b, r, y);
        if (r.kind == 0)
            for (size_t k = start; k < x.size(); ++k)
                c.check(x[k] >= 0.0 && x[k] < 1.0, "uniform-range");
        if (r.form) c.nontrivial();
    }
    c.equal(x.size(), y.size(), "length");
    for (size_t k = 0; k < x.size(); ++k) {
        std::ostringstream m;
        m << "number " << k;
        c.equal(x[k], y[k], "same-sequence", m.str());
    }
}

LAW(P17, reseed, 60000, 1500000,
    "two histories with a seed() call between them, also on a copy; oracle: "
    "second history equals that of a new generator with that seed; "
    "nontrivial: an odd number of gaussian numbers was drawn before") {
    unsigned s = gen_seed(c), t = gen_seed(c);
    std::vector<Req> before = gen_history(c, 0), after = gen_history(c, 1);
    c.note("seed", s);
    c.note("reseed", t);
    describe(c, before);
    describe(c, after);
    randgen a(s);
    Seq junk, x, y;
    size_t odd = 0;
    for (const Req &r : before) {
        bulk(c, a, r, junk);
        if (r.kind) odd += r.n * r.m * r.kind;
    }
    c.nontrivial(odd % 2 == 1);
    a.seed(t);
    randgen b(t);
    randgen copy(a);
    for (const Req &r : after) {
        bulk(c, a, r, x);
        bulk(c, b, r, y);
    }
    for (size_t k = 0; k < x.size(); ++k)
        c.equal(x[k], y[k], "restart", "number " + std::to_string(k));
    Seq z;
    for (const Req &r : after) bulk(c, copy, r, z);
    c.check(z == x, "copy", "a copy continues differently");
}

LAW(P17, independent, 5000, 100000,
    "two generators with different seeds, and two with random seeds; oracle: "
    "sequences differ; nontrivial: seeds differ") {
    unsigned s = gen_seed(c), t = gen_seed(c);
    c.note("s", s);
    c.note("t", t);
    // the engine documents equality of seeds modulo 2^31-1, with 0 as 1
    auto red = [](unsigned v) {
        unsigned m = v % 2147483647u;
        return m == 0 ? 1u : m;
    };
    if (red(s) == red(t)) c.discard();
    c.nontrivial();
    randgen a(s), b(t), d, e;
    bool same = true, same2 = true;
    for (int k = 0; k < 4; ++k) {
        same = a.uniform() == b.uniform() && same;
        same2 = d.uniform() == e.uniform() && same2;
    }
    c.check(!same, "different-seed");
    c.check(!same2, "random-seed");
}

// largest distance between empirical and exact distribution, times sqrt(N)
static double ks(Seq v, double (*cdf)(double)) {
    std::sort(v.begin(), v.end());
    double d = 0, n = v.size();
    for (size_t k = 0; k < v.size(); ++k) {
        double f = cdf(v[k]);
        d = std::max(d, std::max(std::abs(f - k / n), std::abs((k + 1) / n - f)));
    }
    return d * std::sqrt(n);
}
static double cdf_uniform(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double cdf_normal(double x) { return .5 * std::erfc(-x / std::sqrt(2.)); }
static double corr(const Seq &a, const Seq &b) {
    double ma = 0, mb = 0, n = a.size();
    for (size_t k = 0; k < a.size(); ++k) {
        ma += a[k] / n;
        mb += b[k] / n;
    }
    double sab = 0, sa = 0, sb = 0;
    for (size_t k = 0; k < a.size(); ++k) {
        sab += (a[k] - ma) * (b[k] - mb);
        sa += (a[k] - ma) * (a[k] - ma);
        sb += (b[k] - mb) * (b[k] - mb);
    }
    return sab / std::sqrt(sa * sb) * std::sqrt(n);
}

LAW(P17, distribution, 1500, 20000,
    "4096 numbers of one kind and form from a random seed; oracle: "
    "Kolmogorov-Smirnov distance, correlation with neighbors and between "
    "real and imaginary part, with a false alarm chance below 1e-13 per "
    "case; nontrivial: always") {
    const int N = 4096;
    unsigned s = gen_seed(c);
    int kind = c.integer(0, 2), form = c.integer(0, 2);
    c.note("seed", s);
    c.note("kind", kind);
    c.note("form", form);
    c.label(std::string(1, "ugc"[kind]) + "svm"[form]);
    c.nontrivial();
    randgen g(s);
    Seq v;
    Req r;
    r.kind = kind;
    r.form = form;
    r.n = form == 0 ? 1 : form == 1 ? N : 64;
    r.m = form == 2 ? 64 : 1;
    if (form == 0)
        for (int k = 0; k < N; ++k) bulk(c, g, r, v);
    else
        bulk(c, g, r, v);
    double (*cdf)(double) = kind == 0 ? cdf_uniform : cdf_normal;
    std::vector<Seq> parts;
    if (kind < 2)
        parts.push_back(v);
    else {
        Seq re, im;
        for (size_t k = 0; k < v.size(); k += 2) {
            re.push_back(v[k]);
            im.push_back(v[k + 1]);
        }
        parts.push_back(re);
        parts.push_back(im);
        double z = corr(re, im);
        c.check(std::abs(z) < 8, "complex-correlation", std::to_string(z));
    }
    for (const Seq &p : parts) {
        double d = ks(p, cdf);
        // P(sqrt(N) D > 4) < 2 exp(-32)
        c.check(d < 4.0, "distribution", "KS statistic " + std::to_string(d));
        Seq a(p.begin(), p.end() - 1), b(p.begin() + 1, p.end());
        double z = corr(a, b);
        c.check(std::abs(z) < 8, "serial-correlation", std::to_string(z));
        if (kind) {
            double m = 0, q = 0;
            for (double x : p) {
                m += x / p.size();
                q += x * x / p.size();
            }
            double e = std::sqrt((double)p.size());
            c.check(std::abs(m) * e < 8, "mean", std::to_string(m));
            c.check(std::abs(q - 1) * e / std::sqrt(2.) < 9, "variance",
                    std::to_string(q));
        }
    }
}
