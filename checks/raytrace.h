// Independent ray tracer for oceans whose sound speed depends only on depth,
// with a surface and a bottom of constant depth on a spherical earth.
// The ray is followed in its great-circle plane with 4th order Runge-Kutta in
// long double, reflections are located by bisection.
#pragma once
#include <usml/ocean/ocean.h>

#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "pbt.h"
#include "util.h"

namespace rt {

typedef long double R;
using usml::types::wposition;
using usml::types::wposition1;

// sound speed against depth, with the library's model of it
struct Medium {
    std::function<void(R z, R &c, R &dcdz)> f;
    usml::ocean::profile_model::csptr model;
    std::string name;
    R rate = 0;   // bound of the sound speed gradient (1/s)
    R scale = 0;  // sound speed over the length on which the gradient changes
    R c(R z) const {
        R s, d;
        f(z, s, d);
        return s;
    }
};

// smooth profile that the library knows nothing about
class smooth_profile : public usml::ocean::profile_model {
   public:
    std::function<void(R z, R &c, R &dcdz)> f;
    void sound_speed(const wposition &at, matrix<double> *speed,
                     usml::types::wvector *gradient = nullptr) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                R c, d;
                f((R)wposition::earth_radius - at.rho(i, j), c, d);
                (*speed)(i, j) = c;
                if (gradient) {
                    gradient->rho(i, j, -d);
                    gradient->theta(i, j, 0.0);
                    gradient->phi(i, j, 0.0);
                }
            }
    }
};

// kind < 0 for any
inline Medium gen_medium(pbt::Case &c, int kind = -1, double strong = 1.0) {
    using namespace usml::ocean;
    Medium m;
    if (kind < 0) kind = c.integer(0, 5);
    auto none = attenuation_model::csptr(new attenuation_constant(0.0));
    switch (kind) {
        case 0: {
            double c0 = c.real(1400, 1600, {1500.0});
            m.f = [=](R, R &s, R &d) { s = c0, d = 0; };
            m.model.reset(new profile_linear(c0, none));
            m.name = "iso";
            break;
        }
        case 1: {
            double c0 = c.real(1450, 1550), g = strong * c.real(-0.1, 0.1);
            m.f = [=](R z, R &s, R &d) { s = c0 + g * z, d = g; };
            m.model.reset(new profile_linear(c0, g, none));
            m.name = "linear";
            m.rate = std::abs(g);
            break;
        }
        case 2: {
            double c0 = c.real(1450, 1550), g = strong * c.real(0.001, 0.3);
            m.f = [=](R z, R &s, R &d) {
                R q = 1 + 2 * (R)g / c0 * z;
                s = c0 / sqrtl(q);
                d = -(R)g * powl(q, -1.5L);
            };
            m.model.reset(new profile_n2(c0, g, none));
            m.name = "n2";
            m.rate = g * 1.5;
            m.scale = 4 * g;
            break;
        }
        case 3: {
            double z1 = c.real(300, 1500), B = c.real(1000, 2000);
            double e = strong * c.real(0.001, 0.01), c0 = c.real(1450, 1550);
            m.f = [=](R z, R &s, R &d) {
                R q = 2 * (z - z1) / B;
                s = c0 * (1 + e * (q - 1 + expl(-q)));
                d = c0 * e * (1 - expl(-q)) * 2 / B;
            };
            m.model.reset(new profile_munk(z1, B, c0, e, none));
            m.name = "munk";
            R grow = expl(2 * z1 / B);
            m.rate = c0 * e * grow * 2 / B;
            m.scale = 2 * c0 / B;
            break;
        }
        case 4: {
            double c0 = c.real(1450, 1550), g = c.real(1e5, 4e5) / strong;
            double z1 = c.real(0, 2000);
            m.f = [=](R z, R &s, R &d) {
                s = c0 * coshl((z - z1) / g);
                d = c0 * sinhl((z - z1) / g) / g;
            };
            m.model.reset(new profile_catenary(c0, g, z1, none));
            m.name = "catenary";
            m.rate = c0 / g * 0.1;
            m.scale = c0 / g;
            break;
        }
        default: {
            double c0 = c.real(1450, 1550), a = strong * c.real(1, 10);
            double L = c.real(200, 2000), z1 = c.real(0, 2000);
            auto *p = new smooth_profile();
            m.f = [=](R z, R &s, R &d) {
                s = c0 + a * sinl((z - z1) / L);
                d = a / L * cosl((z - z1) / L);
            };
            p->f = m.f;
            p->usml::ocean::profile_model::attenuation(none);
            m.model.reset(p);
            m.name = "sine";
            m.rate = a / L;
            m.scale = c0 / L;
        }
    }
    c.note("medium", m.name);
    c.note("rate", (double)m.rate);
    return m;
}

struct Contact {
    R t, psi, r, gamma, s, c;  // gamma is that of the incident ray
    bool surface;
};

struct State {
    R t = 0, r = 0, psi = 0, gamma = 0, s = 0;
};

struct Ray {
    const Medium *m = nullptr;
    R top = 0, bottom = 0;  // radii, bottom of 0 for none
    State y;
    std::vector<Contact> hits;
    int upper = 0, lower = 0;
    R near_vertex = 1e9;  // closest vertex to a boundary (m)
    R h = 0.01;

    Ray() {}
    Ray(const Medium &medium, R r, R gamma, R top_, R bottom_)
        : m(&medium), top(top_), bottom(bottom_) {
        y.r = r, y.gamma = gamma;
    }
    void rate(const State &a, State &d) const {
        R c, dz;
        m->f((R)wposition::earth_radius - a.r, c, dz);
        R cg = cosl(a.gamma);
        d.r = c * sinl(a.gamma);
        d.psi = c * cg / a.r;
        d.gamma = cg * (c / a.r + dz);
        d.s = c;
    }
    static State add(const State &a, R h, const State &d) {
        State b;
        b.t = a.t + h;
        b.r = a.r + h * d.r;
        b.psi = a.psi + h * d.psi;
        b.gamma = a.gamma + h * d.gamma;
        b.s = a.s + h * d.s;
        return b;
    }
    State rk4(const State &a, R h_) const {
        State k1, k2, k3, k4, k;
        rate(a, k1);
        rate(add(a, h_ / 2, k1), k2);
        rate(add(a, h_ / 2, k2), k3);
        rate(add(a, h_, k3), k4);
        k.r = (k1.r + 2 * k2.r + 2 * k3.r + k4.r) / 6;
        k.psi = (k1.psi + 2 * k2.psi + 2 * k3.psi + k4.psi) / 6;
        k.gamma = (k1.gamma + 2 * k2.gamma + 2 * k3.gamma + k4.gamma) / 6;
        k.s = (k1.s + 2 * k2.s + 2 * k3.s + k4.s) / 6;
        return add(a, h_, k);
    }
    bool outside(const State &a) const {
        return (a.r > top && a.gamma > 0) ||
               (bottom > 0 && a.r < bottom && a.gamma < 0);
    }
    // advance to time t
    void to(R t) {
        while (y.t < t - 1e-12L) {
            R step = std::min(h, t - y.t);
            State n = rk4(y, step);
            if (outside(n)) {
                R lo = 0, hi = step;
                for (int k = 0; k < 60; ++k) {
                    R mid = (lo + hi) / 2;
                    if (outside(rk4(y, mid)))
                        hi = mid;
                    else
                        lo = mid;
                }
                State at = rk4(y, hi);
                vertex(y, at);
                Contact k;
                k.t = at.t, k.psi = at.psi, k.r = at.r, k.gamma = at.gamma;
                k.s = at.s, k.surface = at.gamma > 0;
                k.c = m->c((R)wposition::earth_radius - at.r);
                hits.push_back(k);
                at.gamma = -at.gamma;
                at.r = k.surface ? top : bottom;
                y = at;
                continue;
            }
            vertex(y, n);
            y = n;
        }
    }
    void vertex(const State &a, const State &b) {
        bool up = a.gamma > 0 && b.gamma <= 0, down = a.gamma < 0 && b.gamma >= 0;
        if (up) ++upper, near_vertex = std::min(near_vertex, top - b.r);
        if (down) ++lower, near_vertex = std::min(near_vertex, b.r - bottom);
    }
};

// point at angular distance psi along the great circle
struct Circle {
    ref::Vec up0, head0;
    Circle(const wposition1 &from, R az_deg) {
        R th = from.theta(), ph = from.phi(), a = ref::rad(az_deg);
        up0 = ref::up_at(th, ph);
        head0 = ref::north_at(th, ph) * cosl(a) + ref::east_at(th, ph) * sinl(a);
    }
    ref::Vec up(R psi) const { return up0 * cosl(psi) + head0 * sinl(psi); }
    ref::Vec head(R psi) const { return head0 * cosl(psi) - up0 * sinl(psi); }
    ref::Vec point(const State &y) const { return up(y.psi) * y.r; }
    ref::Vec direction(const State &y) const {
        return up(y.psi) * sinl(y.gamma) + head(y.psi) * cosl(y.gamma);
    }
};

// vector given by components up, south, east at a position
template <class P, class V>
ref::Vec tangent(const P &pos, const V &v) {
    R th = pos.theta(), ph = pos.phi();
    return ref::up_at(th, ph) * v.rho() + ref::south_at(th, ph) * v.theta() +
           ref::east_at(th, ph) * v.phi();
}

}  // namespace rt
