// P16: vector and matrix math equals the scalar function of every element
#include <usml/ublas/ublas.h>

#include <complex>

#include "pbt.h"

using pbt::Case;
namespace ub = usml::ublas;
using ub::matrix;
using ub::vector;
typedef long double L;
typedef std::complex<long double> LC;
const L PI = 3.141592653589793238462643383279502884L;

//----------------------------------------------------------------------
// element types

template <class T>
struct Kind;
template <>
struct Kind<double> {
    typedef L ref;
    typedef double real;
    static const bool cplx = false;
    static const char *name() { return "double"; }
};
template <>
struct Kind<float> {
    typedef L ref;
    typedef float real;
    static const bool cplx = false;
    static const char *name() { return "float"; }
};
template <>
struct Kind<std::complex<double>> {
    typedef LC ref;
    typedef double real;
    static const bool cplx = true;
    static const char *name() { return "complex<double>"; }
};
template <>
struct Kind<std::complex<float>> {
    typedef LC ref;
    typedef float real;
    static const bool cplx = true;
    static const char *name() { return "complex<float>"; }
};
static L up(double x) { return x; }
static L up(float x) { return x; }
static LC up(std::complex<double> x) { return LC(x.real(), x.imag()); }
static LC up(std::complex<float> x) { return LC(x.real(), x.imag()); }

// a few roundings of the element type; extra scales the allowance
template <class R, class G, class E>
static void same(Case &c, G got, E expect, L extra, const std::string &key) {
    LC g(got), e(expect);
    L eps = std::numeric_limits<R>::epsilon();
    L tiny = std::numeric_limits<R>::min();
    L big = std::numeric_limits<R>::max();
    L mag = std::abs(e);
    if (!(mag < big / 4)) {
        // overflows the element type: the real and imaginary parts may only
        // be infinite or nearly so
        return;
    }
    L err = std::abs(g - e);
    bool ok = err <= 12 * eps * (mag + extra) + 4 * tiny;  // NaN fails
    if (!ok) {
        std::ostringstream s;
        s.precision(17);
        s << "got " << g << " expected " << e;
        c.fail(key, s.str());
    }
    c.check(true, key);
}

//----------------------------------------------------------------------
// containers: a vector, a matrix (row and column major), or a slice

enum Domain { ANY, SMALL, ABOVE1, WITHIN1, POSITIVE, TRIG };

template <class R>
static R gen_real(Case &c, Domain d) {
    L lim = std::is_same<R, float>::value ? 60 : 500;
    switch (d) {
        case SMALL:
            return (R)(c.flip(.3) ? c.sign() * c.logreal(1e-12, 1)
                                  : c.real(-(double)lim, (double)lim,
                                           {0.0, 1.0, -1.0, .5, 2.0, -2.0}));
        case ABOVE1:
            return (R)(1.0 + (c.flip(.2) ? 0.0 : c.logreal(1e-6, 1e12)));
        case WITHIN1:
            return (R)(c.flip(.3)
                           ? c.sign() * c.logreal(1e-9, .99)
                           : c.real(-.999, .999, {0.0, .5, -.5, 1.0, -1.0}));
        case POSITIVE:
            return (R)(c.flip(.1) ? 1.0 : c.logreal(1e-12, 1e12));
        case TRIG:
            return (R)(c.flip(.2) ? c.sign() * c.logreal(1e-9, 1e4)
                                  : c.real(-20, 20, {0.0, 1.0, -1.0}));
        default:
            return (R)(c.flip(.4) ? c.sign() * c.logreal(1e-12, 1e12)
                                  : c.real(-10, 10,
                                           {0.0, 1.0, -1.0, .5, 2.0, -2.0}));
    }
}
template <class T>
struct Gen {
    static T make(Case &c, Domain d) { return gen_real<T>(c, d); }
};
template <class R>
struct Gen<std::complex<R>> {
    static std::complex<R> make(Case &c, Domain d) {
        if (d == TRIG)
            return std::complex<R>(gen_real<R>(c, TRIG),
                                   (R)c.real(-30, 30, {0.0, 1.0, -1.0}));
        if (d == SMALL)
            return std::complex<R>((R)c.real(-60, 60, {0.0, 1.0}),
                                   gen_real<R>(c, TRIG));
        return std::complex<R>(gen_real<R>(c, ANY), gen_real<R>(c, ANY));
    }
};

struct Shape {
    bool mat;
    bool expr;  // evaluate through an expression instead of a container
    size_t n, m;
};
static Shape gen_shape(Case &c) {
    Shape s;
    s.mat = c.flip();
    s.expr = c.flip(.3);
    s.n = c.integer(1, s.mat ? 4 : 12);
    s.m = s.mat ? c.integer(1, 4) : 1;
    return s;
}
template <class T>
static std::vector<T> gen_values(Case &c, const Shape &s, Domain d) {
    std::vector<T> v;
    for (size_t k = 0; k < s.n * s.m; ++k) v.push_back(Gen<T>::make(c, d));
    return v;
}
template <class T>
static vector<T> as_vector(const std::vector<T> &v) {
    vector<T> x(v.size());
    for (size_t k = 0; k < v.size(); ++k) x(k) = v[k];
    return x;
}
template <class T>
static matrix<T> as_matrix(const std::vector<T> &v, const Shape &s) {
    matrix<T> x(s.n, s.m);
    for (size_t i = 0; i < s.n; ++i)
        for (size_t j = 0; j < s.m; ++j) x(i, j) = v[i * s.m + j];
    return x;
}

template <class T>
static void describe(Case &c, const std::string &fn, const Shape &s,
                     const std::vector<T> &v) {
    c.label(fn);
    c.label(std::string(s.mat ? "matrix of " : "vector of ") + Kind<T>::name());
    c.note("fn", fn);
    c.note("type", Kind<T>::name());
    c.note("shape", s.mat ? "matrix" : "vector");
    c.notev("v", v, v.size());
    c.nontrivial();
}

// apply an element-wise function to a container of the given shape
#define APPLY(T, V, SH, OUT, EXPRESSION)                               \
    {                                                                  \
        if (SH.mat) {                                                  \
            matrix<T> x = as_matrix(V, SH);                            \
            const auto r = EXPRESSION;                                       \
            c.check(r.size1() == SH.n && r.size2() == SH.m, "shape");  \
            for (size_t i = 0; i < SH.n; ++i)                          \
                for (size_t j = 0; j < SH.m; ++j)                      \
                    OUT.push_back(r(i, j));                            \
            if (SH.expr) {                                             \
                x = x * T(1);                                          \
            }                                                          \
        } else {                                                       \
            vector<T> x = as_vector(V);                                \
            const auto r = EXPRESSION;                                       \
            c.check(r.size() == SH.n, "shape");                        \
            for (size_t i = 0; i < SH.n; ++i) OUT.push_back(r(i));     \
        }                                                              \
    }

//----------------------------------------------------------------------
// functions of one argument, for real and complex elements

template <class T>
static void unary(Case &c, int which) {
    typedef typename Kind<T>::real R;
    const bool cx = Kind<T>::cplx;
    typedef typename Kind<T>::ref E;
    Shape sh = gen_shape(c);
    std::vector<T> out;
    std::vector<T> v;
    std::function<E(E)> f;
    std::function<L(E, E)> extra = [](E, E) { return 0.0L; };
    std::string name;
    using namespace usml::ublas;
#define FN(N, NAME, DOM, REF)                    \
    case N:                                      \
        name = #NAME;                            \
        v = gen_values<T>(c, sh, DOM);           \
        describe(c, name, sh, v);                \
        f = [](E t) { return REF; };             \
        APPLY(T, v, sh, out, NAME(x))            \
        break;
    switch (which) {
        FN(0, sqrt, cx ? ANY : POSITIVE, std::sqrt(t))
        FN(1, cos, TRIG, std::cos(t))
        FN(2, cosh, SMALL, std::cosh(t))
        FN(3, sin, TRIG, std::sin(t))
        FN(4, sinh, SMALL, std::sinh(t))
        FN(5, tan, TRIG, std::tan(t))
        FN(6, tanh, SMALL, std::tanh(t))
        FN(7, acos, WITHIN1, std::acos(t))
        FN(8, acosh, ABOVE1, std::acosh(t))
        FN(9, asin, WITHIN1, std::asin(t))
        FN(10, asinh, ANY, std::asinh(t))
        FN(11, atan, ANY, std::atan(t))
        FN(12, atanh, WITHIN1, std::atanh(t))
        FN(13, exp, SMALL, std::exp(t))
        FN(14, log, POSITIVE, std::log(t))
        FN(15, log10, POSITIVE, std::log10(t))
        default:;
    }
#undef FN
    for (size_t k = 0; k < v.size(); ++k) {
        E t = up(v[k]);
        // poles and branch points of the inverse functions
        if ((which == 12 || which == 11 || which == 8 || which == 7 ||
             which == 9) &&
            cx) {
            // near +-1 or +-i the result is ill conditioned or infinite
            L d = std::min(std::min(std::abs(LC(t) - LC(1)),
                                    std::abs(LC(t) + LC(1))),
                           std::min(std::abs(LC(t) - LC(0, 1)),
                                    std::abs(LC(t) + LC(0, 1))));
            if (d < 1e-3L) continue;
        }
        if (which == 12 && !cx && std::abs(LC(t)) >= 1) continue;
        if (cx && (which == 14 || which == 15 || which == 0) &&
            LC(t) == LC(0))
            continue;
        E e = f(t);
        LC le(e);
        if (!std::isfinite((double)le.real()) ||
            !std::isfinite((double)le.imag()))
            continue;
        L more = 0;
        if (cx && which == 15) more = .1L;
        if (cx && (which == 5 || which == 6)) more = 1e-3L + std::abs(le);
        if (cx && which >= 7 && which <= 12) more = 1;
        same<R>(c, up(out[k]), e, more, name);
    }
}

#define ALLTYPES(FN, ...)                                \
    switch (c.integer(0, 3)) {                           \
        case 0: FN<double>(__VA_ARGS__); break;          \
        case 1: FN<std::complex<double>>(__VA_ARGS__); break; \
        case 2: FN<float>(__VA_ARGS__); break;           \
        default: FN<std::complex<float>>(__VA_ARGS__); break; \
    }
#define REALTYPES(FN, ...)                               \
    switch (c.integer(0, 1)) {                           \
        case 0: FN<double>(__VA_ARGS__); break;          \
        default: FN<float>(__VA_ARGS__); break;          \
    }

LAW(P16, unary, 150000, 5000000,
    "one of 16 functions of one argument on a vector or matrix of double, "
    "float, complex<double> or complex<float> with values across the domain; "
    "oracle: long double scalar function (12 roundings); nontrivial: always") {
    int which = c.integer(0, 15);
    ALLTYPES(unary, c, which)
}

template <class T>
static void magnitude(Case &c) {
    typedef typename Kind<T>::real R;
    Shape sh = gen_shape(c);
    int which = c.integer(0, 2);
    std::vector<T> v = gen_values<T>(c, sh, ANY);
    std::vector<R> out;
    using namespace usml::ublas;
    describe(c, std::vector<std::string>{"abs", "abs2", "arg"}[which], sh, v);
    if (which == 0) APPLY(T, v, sh, out, abs(x))
    if (which == 1) APPLY(T, v, sh, out, abs2(x))
    if (which == 2) APPLY(T, v, sh, out, arg(x))
    for (size_t k = 0; k < v.size(); ++k) {
        LC t(up(v[k]));
        if (which == 0) same<R>(c, (L)out[k], std::abs(t), 0, "abs");
        if (which == 1) same<R>(c, (L)out[k], std::norm(t), 0, "abs2");
        // the phase of a real element is defined to be zero
        if (which == 2)
            same<R>(c, (L)out[k], Kind<T>::cplx ? std::arg(t) : 0, 0, "arg");
    }
}
LAW(P16, magnitude, 60000, 1500000,
    "abs, abs2, arg on vectors and matrices of all element types; oracle: "
    "long double; nontrivial: always") {
    ALLTYPES(magnitude, c)
}

template <class T>
static void convert(Case &c) {
    Shape sh = gen_shape(c);
    int which = c.integer(0, 6);
    std::vector<T> v = gen_values<T>(c, sh, which == 6 ? POSITIVE : TRIG);
    std::vector<T> out;
    using namespace usml::ublas;
    describe(c,
             std::vector<std::string>{"to_degrees", "to_radians",
                                      "to_latitude", "to_colatitude", "floor",
                                      "ceil", "signal"}[which],
             sh, v);
    if (which == 0) APPLY(T, v, sh, out, to_degrees(x))
    if (which == 1) APPLY(T, v, sh, out, to_radians(x))
    if (which == 2) APPLY(T, v, sh, out, to_latitude(x))
    if (which == 3) APPLY(T, v, sh, out, to_colatitude(x))
    if (which == 4) APPLY(T, v, sh, out, floor(x))
    if (which == 5) APPLY(T, v, sh, out, ceil(x))
    if (which == 6) APPLY(T, v, sh, out, signal(x))
    for (size_t k = 0; k < v.size(); ++k) {
        L t = v[k];
        L o = out[k];
        switch (which) {
            case 0: same<T>(c, o, t * 180 / PI, 0, "to_degrees"); break;
            case 1: same<T>(c, o, t * PI / 180, 0, "to_radians"); break;
            case 2:
                same<T>(c, o, 90 - t * 180 / PI, 90 + std::abs(t) * 60,
                        "to_latitude");
                break;
            case 3:
                same<T>(c, o, (90 - t) * PI / 180, 2 + std::abs(t) / 50,
                        "to_colatitude");
                break;
            case 4: c.check(o == std::floor(t), "floor"); break;
            case 5: c.check(o == std::ceil(t), "ceil"); break;
            default: same<T>(c, o, std::sin(t), 0, "signal");
        }
    }
    // conversions undo each other
    std::vector<T> back;
    if (which == 0) APPLY(T, v, sh, back, to_radians(to_degrees(x)))
    if (which == 1) APPLY(T, v, sh, back, to_degrees(to_radians(x)))
    if (which == 2) APPLY(T, v, sh, back, to_colatitude(to_latitude(x)))
    if (which == 3) APPLY(T, v, sh, back, to_latitude(to_colatitude(x)))
    for (size_t k = 0; k < back.size(); ++k)
        same<T>(c, (L)back[k], (L)v[k], which < 2 ? 0 : 100, "round-trip");
    if (which == 6) {
        std::vector<std::complex<T>> sig;
        APPLY(T, v, sh, sig, asignal(x))
        for (size_t k = 0; k < v.size(); ++k) {
            same<T>(c, (L)sig[k].real(), std::sin((L)v[k]), 0, "asignal");
            same<T>(c, std::abs(LC(up(sig[k]))), 1.0L, 0, "asignal-unit");
            same<T>(c, (L)sig[k].imag(), std::cos((L)v[k]), 0,
                    "asignal-imag");
        }
    }
    if (which < 4 && std::is_same<T, double>::value) {
        for (size_t k = 0; k < v.size(); ++k) {
            double d = (double)v[k];
            double s = which == 0   ? ub::to_degrees(d)
                       : which == 1 ? ub::to_radians(d)
                       : which == 2 ? ub::to_latitude(d)
                                    : ub::to_colatitude(d);
            c.check(s == (double)out[k], "scalar-form");
        }
    }
}
LAW(P16, conversions, 60000, 1500000,
    "unit conversions, floor, ceil, signal, asignal on real vectors and "
    "matrices; oracle: long double definition and round trips; nontrivial: "
    "always") {
    REALTYPES(convert, c)
}

// functions with two operands
template <class T>
static void arith(Case &c) {
    typedef typename Kind<T>::real R;
    typedef typename Kind<T>::ref E;
    Shape sh = gen_shape(c);
    std::vector<T> v = gen_values<T>(c, sh, ANY), w = gen_values<T>(c, sh, ANY);
    T s = Gen<T>::make(c, ANY);
    int which = c.integer(0, 7);
    static const std::vector<std::string> names = {
        "v+s", "s+v", "v-s", "s-v", "s/v", "v*w", "v/w", "chain"};
    describe(c, names[which], sh, v);
    c.notev("w", w, w.size());
    c.note("s", s);
    for (size_t k = 0; k < v.size(); ++k)
        if ((which == 4 && v[k] == T(0)) || (which == 6 && w[k] == T(0)))
            c.discard();
    std::vector<T> out;
    using namespace usml::ublas;
#define BIN(N, VEC)                                                     \
    if (which == N) {                                                   \
        if (sh.mat) {                                                   \
            matrix<T> x = as_matrix(v, sh), y = as_matrix(w, sh);       \
            const auto r = VEC;                                               \
            for (size_t i = 0; i < sh.n; ++i)                           \
                for (size_t j = 0; j < sh.m; ++j) out.push_back(r(i, j)); \
        } else {                                                        \
            vector<T> x = as_vector(v), y = as_vector(w);               \
            const auto r = VEC;                                               \
            for (size_t i = 0; i < sh.n; ++i) out.push_back(r(i));      \
        }                                                               \
    }
    BIN(0, (x + s))
    BIN(1, (s + x))
    BIN(2, (x - s))
    BIN(3, (s - x))
    BIN(4, (s / x))
    BIN(5, (x * y))
    BIN(6, (x / y))
    if (which == 7) {
        if (sh.mat) {
            matrix<T> x = as_matrix(v, sh), y = as_matrix(w, sh);
            matrix<T> r = s * x + (x * y) - (y + s);
            for (size_t i = 0; i < sh.n; ++i)
                for (size_t j = 0; j < sh.m; ++j) out.push_back(r(i, j));
        } else {
            vector<T> x = as_vector(v), y = as_vector(w);
            vector<T> r = s * x + (x * y) - (y + s);
            for (size_t i = 0; i < sh.n; ++i) out.push_back(r(i));
        }
    }
    c.equal(out.size(), v.size(), "shape");
    for (size_t k = 0; k < v.size(); ++k) {
        E a = up(v[k]), b = up(w[k]), t = up(s), e;
        L more = 0;
        switch (which) {
            case 0: case 1: e = a + t; break;
            case 2: e = a - t; break;
            case 3: e = t - a; break;
            case 4: e = t / a; break;
            case 5: e = a * b; break;
            case 6: e = a / b; break;
            default:
                e = t * a + a * b - (b + t);
                more = std::abs(t * a) + std::abs(a * b) + std::abs(b) +
                       std::abs(t);
        }
        same<R>(c, up(out[k]), e, more, names[which]);
    }
}
LAW(P16, arithmetic, 100000, 3000000,
    "vector/matrix with scalar (+,-,/ on both sides), element product and "
    "quotient, and a chained expression, all element types; oracle: long "
    "double; nontrivial: no division by zero") {
    ALLTYPES(arith, c)
}

template <class T>
static void binary_real(Case &c) {
    Shape sh = gen_shape(c);
    std::vector<T> v = gen_values<T>(c, sh, ANY), w = gen_values<T>(c, sh, ANY);
    // equal elements and signs matter here
    for (size_t k = 0; k < w.size(); ++k)
        if (c.flip(.2)) w[k] = v[k];
    T s = c.flip(.3) ? v[0] : Gen<T>::make(c, ANY);
    int which = c.integer(0, 3);
    static const std::vector<std::string> names = {"max", "min", "copysign",
                                                   "atan2"};
    describe(c, names[which], sh, v);
    c.notev("w", w, w.size());
    c.note("s", s);
    std::vector<T> out;
    using namespace usml::ublas;
    BIN(0, max(x, s))
    BIN(1, min(x, s))
    BIN(2, copysign(x, y))
    BIN(3, atan2(x, y))
    for (size_t k = 0; k < v.size(); ++k) {
        switch (which) {
            case 0: c.check(out[k] == (v[k] > s ? v[k] : s), "max"); break;
            case 1: c.check(out[k] == (v[k] < s ? v[k] : s), "min"); break;
            case 2: {
                // documented: magnitude of the first, sign of the second
                T e = std::abs(v[k]);
                if (w[k] < 0) e = -e;
                if (v[k] < 0)
                    // the code flips the sign of negative first arguments
                    // instead; checked separately below
                    break;
                c.check(out[k] == e, "copysign");
                break;
            }
            default:
                same<T>(c, (L)out[k], std::atan2((L)v[k], (L)w[k]), 0,
                        "atan2");
        }
    }
    if (which == 2)
        for (size_t k = 0; k < v.size(); ++k) {
            T e = std::abs(v[k]);
            if (w[k] < 0) e = -e;
            if (v[k] < 0)
                c.check(out[k] == e, "copysign-negative",
                        "copysign of a negative first argument");
        }
}
LAW(P16, binary, 60000, 1500000,
    "max, min, copysign, atan2 of real vectors and matrices; oracle: "
    "definition; nontrivial: always") {
    REALTYPES(binary_real, c)
}

// powers
template <class T>
static void power(Case &c) {
    typedef typename Kind<T>::real R;
    Shape sh = gen_shape(c);
    int which = c.integer(0, 2);
    std::vector<T> v, w;
    for (size_t k = 0; k < sh.n * sh.m; ++k) {
        v.push_back(Kind<T>::cplx ? Gen<T>::make(c, ANY)
                                  : (T)gen_real<R>(c, POSITIVE));
        w.push_back(T((R)c.real(-4, 4, {0.0, 1.0, 2.0, .5, -1.0})));
        if (v[k] == T(0)) v[k] = T(1);
    }
    T s = which == 1 ? (Kind<T>::cplx ? Gen<T>::make(c, ANY)
                                      : (T)gen_real<R>(c, POSITIVE))
                     : w[0];
    if (s == T(0) && which == 1) s = T(2);
    static const std::vector<std::string> names = {"pow(v,s)", "pow(s,v)",
                                                   "pow(v,w)"};
    describe(c, names[which], sh, v);
    c.notev("w", w, w.size());
    c.note("s", s);
    std::vector<T> out;
    using namespace usml::ublas;
    BIN(0, pow(x, s))
    BIN(1, pow(s, y))
    BIN(2, pow(x, y))
    for (size_t k = 0; k < v.size(); ++k) {
        LC base = LC(which == 1 ? up(s) : up(v[k]));
        LC ex = LC(which == 0 ? up(s) : up(w[k]));
        LC e = Kind<T>::cplx ? std::exp(ex * std::log(base))
                             : LC(std::pow(base.real(), ex.real()));
        if (std::abs(e) < 1e-30L || std::abs(e) > 1e30L) continue;
        L cond = std::abs(e) * (4 + std::abs(ex * std::log(base)));
        same<R>(c, LC(up(out[k])), e, cond, names[which]);
    }
}
LAW(P16, power, 80000, 2000000,
    "pow of vector/matrix by scalar, scalar by vector/matrix, and element by "
    "element for all types, base positive or complex; oracle: long double "
    "exp(e*log(b)) within its conditioning; nontrivial: always") {
    ALLTYPES(power, c)
}

// inverse functions undo their forward function
template <class T>
struct Complexify {
    static T make(double re, double) { return (T)re; }
};
template <class R>
struct Complexify<std::complex<R>> {
    static std::complex<R> make(double re, double im) {
        return std::complex<R>((R)re, (R)im);
    }
};
template <class T>
static void inverse(Case &c) {
    typedef typename Kind<T>::real R;
    Shape sh = gen_shape(c);
    int which = c.integer(0, 7);
    static const std::vector<std::string> names = {
        "acos", "acosh", "asin", "asinh", "atan", "atanh", "log", "sqrt"};
    std::vector<T> v;
    for (size_t k = 0; k < sh.n * sh.m; ++k) {
        double a = c.real(.1, 1.4), b = c.real(-1.4, 1.4);
        v.push_back(Complexify<T>::make(
            which == 0 || which == 1 || which == 7 ? a : b,
            c.real(-1.4, 1.4, {0.0})));
    }
    std::vector<T> &w = v;
    describe(c, names[which], sh, v);
    std::vector<T> out;
    using namespace usml::ublas;
    BIN(0, acos(cos(x)))
    BIN(1, acosh(cosh(x)))
    BIN(2, asin(sin(x)))
    BIN(3, asinh(sinh(x)))
    BIN(4, atan(tan(x)))
    BIN(5, atanh(tanh(x)))
    BIN(6, log(exp(x)))
    BIN(7, sqrt(x * x))
    for (size_t k = 0; k < v.size(); ++k)
        same<R>(c, LC(up(out[k])), LC(up(v[k])), 20, names[which]);
}
template <class T>
static void forward(Case &c) {
    typedef typename Kind<T>::real R;
    Shape sh = gen_shape(c);
    int which = c.integer(0, 6);
    static const std::vector<std::string> names = {
        "acos", "acosh", "asin", "asinh", "atan", "atanh", "log"};
    std::vector<T> v;
    for (size_t k = 0; k < sh.n * sh.m; ++k)
        v.push_back(T((R)c.real(-3, 3), (R)c.real(-3, 3, {0.0})));
    for (size_t k = 0; k < v.size(); ++k) {
        LC t = up(v[k]);
        for (LC p : {LC(0), LC(1), LC(-1), LC(0, 1), LC(0, -1)})
            if (std::abs(t - p) < 1e-2L) c.discard();
    }
    std::vector<T> &w = v;
    describe(c, "forward " + names[which], sh, v);
    std::vector<T> out;
    using namespace usml::ublas;
    BIN(0, cos(acos(x)))
    BIN(1, cosh(acosh(x)))
    BIN(2, sin(asin(x)))
    BIN(3, sinh(asinh(x)))
    BIN(4, tan(atan(x)))
    BIN(5, tanh(atanh(x)))
    BIN(6, exp(log(x)))
    for (size_t k = 0; k < v.size(); ++k)
        same<R>(c, LC(up(out[k])), LC(up(v[k])), 2e3L, "forward-" + names[which]);
}
LAW(P16, inverse, 60000, 1500000,
    "inverse(forward(x)) on the principal range for all types, and "
    "forward(inverse(z)) for complex z away from branch points; nontrivial: "
    "always") {
    if (c.flip()) {
        ALLTYPES(inverse, c)
    } else if (c.flip())
        forward<std::complex<double>>(c);
    else
        forward<std::complex<float>>(c);
}

// operand types may be mixed as long as the scalar converts to the element
template <class T, class S>
static void mixed(Case &c) {
    typedef typename Kind<T>::real R;
    Shape sh = gen_shape(c);
    std::vector<T> v = gen_values<T>(c, sh, TRIG);
    S s = (S)c.integer(1, 9);
    int which = c.integer(0, 4);
    static const std::vector<std::string> names = {"mixed v+s", "mixed s+v",
                                                   "mixed v-s", "mixed s-v",
                                                   "mixed s/v"};
    for (auto t : v)
        if (which == 4 && t == T(0)) c.discard();
    describe(c, names[which], sh, v);
    c.note("s", s);
    std::vector<T> out;
    using namespace usml::ublas;
    std::vector<T> w = v;
    BIN(0, (x + s))
    BIN(1, (s + x))
    BIN(2, (x - s))
    BIN(3, (s - x))
    BIN(4, (s / x))
    for (size_t k = 0; k < v.size(); ++k) {
        LC a(up(v[k])), t((L)s), e;
        switch (which) {
            case 0: case 1: e = a + t; break;
            case 2: e = a - t; break;
            case 3: e = t - a; break;
            default: e = t / a;
        }
        same<R>(c, LC(up(out[k])), e, 0, names[which]);
    }
}
LAW(P16, mixed, 30000, 800000,
    "scalar of another type: int with double and float, double with "
    "complex<double>, float with complex<float>; oracle: long double; "
    "nontrivial: always") {
    switch (c.integer(0, 4)) {
        case 0: mixed<double, int>(c); break;
        case 1: mixed<float, int>(c); break;
        case 2: mixed<std::complex<double>, double>(c); break;
        case 3: mixed<std::complex<float>, float>(c); break;
        default: mixed<double, float>(c);
    }
}
