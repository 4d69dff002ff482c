// P14: earth geometry conversions are exact and mutually consistent
#include <usml/types/types.h>

#include "pbt.h"
#include "util.h"

using namespace usml::types;
using pbt::Case;
using ref::Vec;

static const double EPS = 2.3e-16;

static double gen_lat(Case &c) {
    return c.real(-89.9, 89.9, {0.0, 45.0, -45.0, 89.9, -89.9, 1e-9, 30.0}, .2);
}
static double gen_lng(Case &c) {
    return c.real(-360.0, 360.0,
                  {0.0, 180.0, -180.0, 360.0, 90.0, 179.9999, -179.9999}, .2);
}
static double gen_alt(Case &c) {
    return c.real(-11000.0, 20000.0, {0.0, -1000.0, -1e-3}, .2);
}
static Vec vec(const wvector1 &p) {
    return ref::sph(p.rho(), p.theta(), p.phi());
}
struct Pos {
    double lat, lng, alt;
};
static Pos gen_pos(Case &c, const char *name) {
    Pos p;
    p.lat = gen_lat(c);
    p.lng = gen_lng(c);
    p.alt = gen_alt(c);
    std::string n(name);
    c.note(n + ".lat", p.lat);
    c.note(n + ".lng", p.lng);
    c.note(n + ".alt", p.alt);
    return p;
}
// another position, at a scale from metres to the other side of the earth
static Pos gen_other(Case &c, const Pos &a) {
    int kind = c.integer(0, 3);
    c.label(kind == 0 ? "anywhere" : kind == 1 ? "km" : kind == 2 ? "far" : "m");
    if (kind == 0) return gen_pos(c, "b");
    double scale = kind == 1 ? 0.1 : kind == 2 ? 10.0 : 1e-3;
    Pos p;
    p.lat = a.lat + c.real(-scale, scale, {0.0}, .1);
    if (p.lat > 89.9) p.lat = 89.9;
    if (p.lat < -89.9) p.lat = -89.9;
    p.lng = a.lng + c.real(-scale, scale, {0.0}, .1);
    p.alt = c.flip() ? a.alt : gen_alt(c);
    c.note("b.lat", p.lat);
    c.note("b.lng", p.lng);
    c.note("b.alt", p.alt);
    return p;
}

LAW(P14, position_round_trip, 20000, 2000000,
    "random lat/lng/alt; scalar and 1x1/NxM grids; nontrivial: off the "
    "equator and prime meridian") {
    Pos p = gen_pos(c, "p");
    c.nontrivial(p.lat != 0 && p.lng != 0);
    wposition1 a(p.lat, p.lng, p.alt);
    const double R = wposition::earth_radius;
    c.close(a.latitude(), p.lat, 1e-13 * 90, 0, "latitude", "latitude");
    c.close(a.longitude(), p.lng, 1e-13 * 360, 0, "longitude", "longitude");
    c.close(a.altitude(), p.alt, 4e-9, 0, "altitude", "altitude");
    c.close(a.theta(), (double)ref::rad(90.0L - p.lat), 1e-15, 4 * EPS, "theta",
            "theta");
    c.close(a.phi(), (double)ref::rad(p.lng), 1e-15, 4 * EPS, "phi", "phi");
    c.close(a.rho(), R + p.alt, 0, 4 * EPS, "rho", "rho");
    // setters one at a time equal the constructor and touch nothing else
    wposition1 b(10.0, 20.0, 30.0);
    b.latitude(p.lat);
    c.close(b.longitude(), 20.0, 1e-12, 0, "setter-touches");
    b.altitude(p.alt);
    c.close(b.latitude(), p.lat, 1e-11, 0, "setter-touches");
    b.longitude(p.lng);
    c.equal(b.rho(), a.rho(), "setter", "rho");
    c.equal(b.theta(), a.theta(), "setter", "theta");
    c.equal(b.phi(), a.phi(), "setter", "phi");
    wposition1 copy(a);
    c.equal(copy.phi(), a.phi(), "copy");

    // grid form
    size_t rows = c.integer(1, 5), cols = c.integer(1, 5);
    wposition g(rows, cols, 1.0, 2.0, 3.0);
    c.close(g.latitude(rows - 1, cols - 1), 1.0, 1e-12, 0, "grid-ctor");
    c.close(g.longitude(0, cols - 1), 2.0, 1e-12, 0, "grid-ctor");
    c.close(g.altitude(rows - 1, 0), 3.0, 4e-9, 0, "grid-ctor");
    size_t r = c.integer(0, rows - 1), q = c.integer(0, cols - 1);
    g.latitude(r, q, p.lat);
    g.longitude(r, q, p.lng);
    g.altitude(r, q, p.alt);
    c.equal(g.rho(r, q), a.rho(), "grid-element", "rho");
    c.equal(g.theta(r, q), a.theta(), "grid-element", "theta");
    c.equal(g.phi(r, q), a.phi(), "grid-element", "phi");
    c.close(g.latitude()(r, q), p.lat, 1e-11, 0, "grid-matrix");
    c.close(g.longitude()(r, q), p.lng, 1e-10, 0, "grid-matrix");
    c.close(g.altitude()(r, q), p.alt, 4e-9, 0, "grid-matrix");
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j)
            if (i != r || j != q) {
                c.close(g.latitude(i, j), 1.0, 1e-12, 0, "grid-other");
                c.close(g.longitude(i, j), 2.0, 1e-12, 0, "grid-other");
                c.close(g.altitude(i, j), 3.0, 4e-9, 0, "grid-other");
            }
    wposition1 e(g, r, q);
    c.equal(e.phi(), a.phi(), "grid-extract");
    c.equal(e.theta(), a.theta(), "grid-extract");
    c.equal(e.rho(), a.rho(), "grid-extract");
    wposition back(a);
    c.equal(back.phi(0, 0), a.phi(), "grid-from-point");
    c.equal(back.theta(0, 0), a.theta(), "grid-from-point");
    c.equal(back.rho(0, 0), a.rho(), "grid-from-point");
    // whole-matrix setters, both assignment modes
    matrix<double> lat(rows, cols), lng(rows, cols), alt(rows, cols);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            lat(i, j) = gen_lat(c);
            lng(i, j) = gen_lng(c);
            alt(i, j) = gen_alt(c);
        }
    bool alias = c.flip();
    g.latitude(lat, alias);
    g.longitude(lng, alias);
    g.altitude(alt, alias);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            c.close(g.latitude(i, j), lat(i, j), 1e-11, 0, "matrix-set", "lat");
            c.close(g.longitude(i, j), lng(i, j), 1e-10, 0, "matrix-set", "lng");
            c.close(g.altitude(i, j), alt(i, j), 4e-9, 0, "matrix-set", "alt");
        }
    // mesh of latitude and longitude axes
    vector<double> alat(rows), alng(cols);
    for (size_t i = 0; i < rows; ++i) alat(i) = gen_lat(c);
    for (size_t j = 0; j < cols; ++j) alng(j) = gen_lng(c);
    wposition mesh(alat, alng, p.alt);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            c.close(mesh.latitude(i, j), alat(i), 1e-11, 0, "mesh", "lat");
            c.close(mesh.longitude(i, j), alng(j), 1e-10, 0, "mesh", "lng");
            c.close(mesh.altitude(i, j), p.alt, 4e-9, 0, "mesh", "alt");
        }
}

LAW(P14, vector_geometry, 40000, 4000000,
    "two positions at separations from metres to antipodes; oracle: long "
    "double Cartesian vectors; nontrivial: the points differ") {
    Pos a = gen_pos(c, "a");
    Pos b = gen_other(c, a);
    wposition1 A(a.lat, a.lng, a.alt), B(b.lat, b.lng, b.alt);
    Vec va = vec(A), vb = vec(B);
    ref::real dist = (va - vb).norm();
    c.nontrivial(dist > 0.01);
    const double R2 = (double)(va.dot(va) + vb.dot(vb));
    // squares cancel: rounding of R^2 limits the accuracy of small distances
    const double tol2 = 24 * EPS * R2;
    c.close(A.dot(B), (double)va.dot(vb), tol2, 0, "dot", "dot");
    c.close(A.dotnorm(B), (double)(va.dot(vb) / va.norm() / vb.norm()),
            16 * EPS, 0, "dotnorm", "dotnorm");
    c.close(A.distance2(B), (double)(dist * dist), tol2, 0, "distance2",
            "distance2");
    double tol1 = dist > 1.0 ? tol2 / (double)dist : 1.0;
    c.close(A.distance(B), (double)dist, tol1, 1e-14, "distance", "distance");
    c.equal(A.dot(B), B.dot(A), "dot-symmetric");
    c.equal(A.distance2(B), B.distance2(A), "distance-symmetric");
    // grid forms agree with the scalar forms
    size_t rows = c.integer(1, 4), cols = c.integer(1, 4);
    wposition g(rows, cols, 3.0, 4.0, 5.0);
    size_t r = c.integer(0, rows - 1), q = c.integer(0, cols - 1);
    g.latitude(r, q, a.lat);
    g.longitude(r, q, a.lng);
    g.altitude(r, q, a.alt);
    matrix<double> m(rows, cols);
    g.dot(B, m);
    wposition1 other(3.0, 4.0, 5.0);
    for (size_t i = 0; i < rows; ++i)
        for (size_t j = 0; j < cols; ++j) {
            const wposition1 &P = (i == r && j == q) ? A : other;
            g.dot(B, m);
            c.close(m(i, j), P.dot(B), tol2, 0, "grid-dot");
            g.dotnorm(B, m);
            c.close(m(i, j), P.dotnorm(B), 8 * EPS, 0, "grid-dotnorm");
            g.distance2(B, m);
            c.close(m(i, j), P.distance2(B), tol2 + 1, 0, "grid-distance2");
            g.distance(B, m);
            double d = P.distance(B);
            c.close(m(i, j), d, d > 1 ? 2 * tol2 / d + 1e-9 : 2.0, 1e-14,
                    "grid-distance");
        }
}

LAW(P14, area, 20000, 1000000,
    "three or four positions within 0.001 to 10 degrees; oracle: half cross "
    "product; nontrivial: triangle with an aspect above 0.05") {
    Pos a = gen_pos(c, "a");
    double scale = c.pick(std::vector<double>{1.0, 0.1, 10.0, 0.01});
    auto near = [&]() {
        Pos p = a;
        p.lat += c.real(-scale, scale);
        if (std::abs(p.lat) > 89.9) p.lat = std::copysign(89.9, p.lat);
        p.lng += c.real(-scale, scale);
        p.alt += c.real(-5e3, 5e3);
        return wposition1(p.lat, p.lng, p.alt);
    };
    wposition1 p1(a.lat, a.lng, a.alt), p2 = near(), p3 = near(), p4 = near();
    Vec v1 = vec(p1), v2 = vec(p2), v3 = vec(p3), v4 = vec(p4);
    ref::real t1 = 0.5L * (v2 - v1).cross(v3 - v1).norm();
    ref::real t2 = 0.5L * (v4 - v1).cross(v3 - v1).norm();
    auto longest = [](ref::real x, ref::real y, ref::real z) {
        return std::max(x, std::max(y, z));
    };
    ref::real L1 = longest((v2 - v1).norm(), (v3 - v1).norm(), (v3 - v2).norm());
    ref::real L2 = longest((v4 - v1).norm(), (v3 - v1).norm(), (v3 - v4).norm());
    // Heron's formula loses accuracy for slivers
    if (t1 < 0.05L * L1 * L1 || t2 < 0.05L * L2 * L2 || L1 < 300 || L2 < 300)
        c.discard();
    c.nontrivial();
    c.note("scale", scale);
    double rel = 1e-5 + 40.0 / (double)(std::min(L1, L2) * 0.05L) * 0.1;
    c.close(p1.area(p2, p3), (double)t1, 0, rel, "triangle", "area of triangle");
    c.close(p1.area(p2, p3, p4), (double)(t1 + t2), 0, rel, "quadrilateral",
            "area of quadrilateral");
}

LAW(P14, great_circle, 40000, 4000000,
    "two positions; oracle: angle between long double vectors and bearing in "
    "the local tangent plane; nontrivial: more than 10 m apart") {
    Pos a = gen_pos(c, "a");
    Pos b = gen_other(c, a);
    wposition1 A(a.lat, a.lng, a.alt), B(b.lat, b.lng, b.alt);
    Vec va = vec(A).unit(), vb = vec(B).unit();
    ref::real ang = ref::angle(va, vb);
    double bearing = -99;
    double range = A.gc_range(B, &bearing);
    ref::real R = A.rho();
    // haversine is ill conditioned near the antipode
    double tol = 1e-8 + (ang > 3.0 ? 10.0 * (double)R * 1e-8 : 0.0);
    c.close(range, (double)(ang * R), tol, 1e-12 * 4, "range", "range");
    c.equal(A.gc_range(B), range, "range-optional-bearing");
    bool far = ang * R > 10.0 && ang < 3.14;
    c.nontrivial(far);
    if (far) {
        Vec t = vb - va * va.dot(vb);
        ref::real n = t.dot(ref::north_at(A.theta(), A.phi()));
        ref::real e = t.dot(ref::east_at(A.theta(), A.phi()));
        ref::real want = ref::deg(std::atan2(e, n));
        ref::real d = ref::angdiff(ref::deg(bearing), want);
        ref::real btol = 1e-9 + 1e-12 / std::sin(std::min(ang, ref::PI - ang)) *
                                    57.0L * 10;
        // a start within 1e-10 rad of the equator is mistaken for a pole
        // (known finding: the answer is then exactly 0 or pi)
        bool equator = std::abs((double)ref::rad(a.lat)) < 1.1e-10 &&
                       (bearing == 0.0 || bearing == M_PI);
        if (equator && std::abs(d) >= btol)
            c.fail("bearing-from-equator", "bearing from the equator");
        c.check(std::abs(d) < btol && bearing >= 0.0 && bearing < 6.2831854,
                "bearing",
                "bearing " + std::to_string(bearing) + " rad, expected " +
                    std::to_string((double)ref::wrap360(want)) + " deg");
    }
}

LAW(P14, travel, 40000, 4000000,
    "start, range, bearing; the end point must lie at that range and bearing; "
    "nontrivial: range above 10 m") {
    Pos a = gen_pos(c, "a");
    double range = c.logreal(1.0, 1.9e7), bearing = c.real(0.0, 6.2831853);
    c.note("range", range);
    c.note("bearing", bearing);
    c.nontrivial(range > 10.0);
    wposition1 A(a.lat, a.lng, a.alt);
    wposition1 B(A, range, bearing);
    c.close(B.altitude(), a.alt, 1e-8, 0, "altitude", "altitude kept");
    Vec va = vec(A).unit(), vb = vec(B).unit();
    ref::real ang = range / (ref::real)A.rho();
    Vec n = ref::north_at(A.theta(), A.phi()), e = ref::east_at(A.theta(), A.phi());
    Vec want = va * std::cos(ang) +
               (n * std::cos((ref::real)bearing) +
                e * std::sin((ref::real)bearing)) *
                   std::sin(ang);
    // asin() is ill conditioned near the poles
    double polar = std::cos((double)ref::rad(B.latitude()));
    double tol = 1e-14 / std::max(polar, 1e-7) + 1e-14;
    c.check((want - vb).norm() < 8 * tol, "end-point",
            "end point is off by " + std::to_string((double)(want - vb).norm()) +
                " earth radii");
    if (polar > 1e-4 && range > 10.0 && ang < 3.1 &&
        std::abs((double)ref::rad(a.lat)) > 1.1e-10) {
        double back;
        double r2 = A.gc_range(B, &back);
        c.close(r2, range, 1e-6, 1e-9, "round-trip-range", "range");
        double s = std::sin((double)std::min(ang, ref::PI - ang));
        c.check(std::abs(ref::angdiff(ref::deg(back), ref::deg(bearing))) <
                    1e-8 + 1e-12 / s / polar,
                "round-trip-bearing", "bearing " + std::to_string(back));
    }
}

LAW(P14, tangent_plane, 30000, 2000000,
    "position and second point; direction from one to the other in the local "
    "tangent plane, and its angles; oracle: long double vectors") {
    Pos a = gen_pos(c, "a");
    Pos b = gen_other(c, a);
    wposition1 A(a.lat, a.lng, a.alt), B(b.lat, b.lng, b.alt);
    Vec d = vec(B) - vec(A);
    ref::real len = d.norm();
    if (len < 10.0) c.discard();
    c.nontrivial();
    double tol = 1e-8 / (double)std::min(len, 1e6L) + 1e-13;
    tol *= 16;
    wvector1 dir;
    double got = dir.direction(A, B);
    c.close(got, (double)len, 1e-7, 1e-13, "length", "length");
    Vec u = ref::up_at(A.theta(), A.phi()), s = ref::south_at(A.theta(), A.phi()),
        e = ref::east_at(A.theta(), A.phi());
    c.close(dir.rho(), (double)(d.dot(u) / len), tol, 0, "local-up");
    c.close(dir.theta(), (double)(d.dot(s) / len), tol, 0, "local-south");
    c.close(dir.phi(), (double)(d.dot(e) / len), tol, 0, "local-east");
    // angles of a tangent plane direction
    double de = c.real(-89.5, 89.5), az = c.real(-179.5, 179.5),
           mag = c.logreal(1e-4, 1e3);
    c.note("de", de);
    c.note("az", az);
    double rde = (double)ref::rad(de), raz = (double)ref::rad(az);
    wvector1 t(mag * std::sin(rde), -mag * std::cos(rde) * std::cos(raz),
               mag * std::cos(rde) * std::sin(raz));
    double gde, gaz;
    t.direction(&gde, &gaz);
    c.close(gde, de, 1e-10, 0, "de", "depression/elevation");
    c.close(gaz, az, 1e-10, 0, "az", "azimuth");
    // geocentric direction of a tangent plane direction
    wvector1 geo;
    t.direction(A, &geo);
    Vec want = (u * (ref::real)t.rho() + s * (ref::real)t.theta() +
                e * (ref::real)t.phi())
                   .unit();
    c.check((vec(geo) - want).norm() < 1e-13, "geocentric",
            "geocentric direction is off by " +
                std::to_string((double)(vec(geo) - want).norm()));
}

LAW(P14, earth_radius, 2000, 100000,
    "latitude; oracle: geometric mean of the WGS-84 radii of curvature in "
    "long double") {
    double lat = c.real(-90.0, 90.0, {0.0, 45.0, 90.0, -90.0}, .2);
    c.note("lat", lat);
    c.nontrivial();
    double saved = wposition::earth_radius;
    wposition::compute_earth_radius(lat);
    double got = wposition::earth_radius;
    ref::real f = 1.0L / 298.257223563L, e2 = f * (2 - f),
              s = std::sin(ref::rad(lat)), w2 = 1 - e2 * s * s;
    ref::real want = 6378137.0L * std::sqrt(1 - e2) / w2;
    c.close(got, (double)want, 0, 1e-13, "radius", "earth radius");
    // altitudes are relative to the radius in force
    wposition1 p(lat, 12.0, -321.0);
    wposition::earth_radius = saved;
    c.close(p.rho(), (double)want - 321.0, 1e-8, 0, "altitude-datum");
}
