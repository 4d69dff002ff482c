// helpers shared by the checks: long double vector geometry used as oracle
#pragma once
#include <cmath>
#include <string>
#include <vector>

namespace ref {

typedef long double real;
const real PI = 3.141592653589793238462643383279502884L;
inline real rad(real d) { return d * PI / 180.0L; }
inline real deg(real r) { return r * 180.0L / PI; }

struct Vec {
    real x = 0, y = 0, z = 0;
    Vec() {}
    Vec(real a, real b, real c) : x(a), y(b), z(c) {}
    Vec operator+(const Vec &o) const { return Vec(x + o.x, y + o.y, z + o.z); }
    Vec operator-(const Vec &o) const { return Vec(x - o.x, y - o.y, z - o.z); }
    Vec operator*(real s) const { return Vec(x * s, y * s, z * s); }
    real dot(const Vec &o) const { return x * o.x + y * o.y + z * o.z; }
    Vec cross(const Vec &o) const {
        return Vec(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x);
    }
    real norm() const { return std::sqrt(dot(*this)); }
    Vec unit() const { return *this * (1.0L / norm()); }
};
inline real angle(const Vec &a, const Vec &b) {
    return std::atan2(a.cross(b).norm(), a.dot(b));
}

// spherical earth coordinates: theta colatitude, phi longitude (radians)
inline Vec sph(real rho, real theta, real phi) {
    return Vec(rho * std::sin(theta) * std::cos(phi),
               rho * std::sin(theta) * std::sin(phi), rho * std::cos(theta));
}
// local unit vectors at a position
inline Vec up_at(real theta, real phi) { return sph(1, theta, phi); }
inline Vec south_at(real theta, real phi) {
    return Vec(std::cos(theta) * std::cos(phi), std::cos(theta) * std::sin(phi),
               -std::sin(theta));
}
inline Vec north_at(real theta, real phi) { return south_at(theta, phi) * -1; }
inline Vec east_at(real /*theta*/, real phi) {
    return Vec(-std::sin(phi), std::cos(phi), 0);
}
inline real wrap360(real d) {
    d = std::fmod(d, 360.0L);
    return d < 0 ? d + 360.0L : d;
}
// difference of two angles in degrees, in (-180,180]
inline real angdiff(real a, real b) {
    real d = std::fmod(a - b, 360.0L);
    if (d > 180.0L) d -= 360.0L;
    if (d <= -180.0L) d += 360.0L;
    return d;
}

}  // namespace ref
