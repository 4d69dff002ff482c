// Exact acoustic paths in isovelocity water between two spheres (a sea surface
// and a bottom of constant depth on a spherical earth). Rays are straight
// lines: the perigee p of the line is kept by every reflection.
#pragma once
#include <usml/eigenrays/eigenray_listener.h>
#include <usml/ocean/ocean.h>
#include <usml/waveq3d/waveq3d.h>

#include <map>
#include <string>
#include <vector>

#include "raytrace.h"

namespace eig {

typedef long double R;
using usml::types::wposition;
using usml::types::wposition1;

struct Event {
    char type;  // S surface, B bottom, V lower vertex
    R t, graze;
};

// where a ray passes the radius of a target
struct Crossing {
    uint64_t key;     // counts, direction on launch and arrival
    R psi, t, gamma;  // gamma on arrival
    int surface = 0, bottom = 0, lower = 0;
};

// ray launched at an angle, until a time
struct Path {
    R top, bottom, c;
    std::vector<Event> events;
    std::vector<Crossing> cross;

    Path(R r0, R gamma, R end, R top_, R bottom_, R c_, R rt = -1)
        : top(top_), bottom(bottom_), c(c_) {
        R p = r0 * cosl(gamma), r = r0, psi = 0, t = 0;
        bool up = gamma > 0;
        Crossing k;
        const bool first = up;
        auto root = [&](R q) { return sqrtl(std::max<R>(0, q * q - p * p)); };
        while (t < end) {
            // along the line from u0 to u1, perigee at 0
            R u0 = up ? root(r) : -root(r), u1;
            bool vertex = !up && p >= bottom;
            if (up || vertex)
                u1 = root(top);
            else
                u1 = -root(bottom);
            for (int side = 0; side < 2 && rt > p; ++side) {
                R u = side ? root(rt) : -root(rt);
                if (u <= u0 || u > u1) continue;
                Crossing x = k;
                x.lower = k.lower + (vertex && side);
                x.key = ((((uint64_t)k.surface << 16 | k.bottom) << 16 | x.lower) << 2) | side << 1 | first;
                x.psi = psi + atan2l(u, p) - atan2l(u0, p);
                x.t = t + (u - u0) / c;
                x.gamma = side ? acosl(p / rt) : -acosl(p / rt);
                cross.push_back(x);
            }
            if (vertex) {
                ++k.lower;
                events.push_back({'V', t - u0 / c, 0});
            }
            psi += atan2l(u1, p) - atan2l(u0, p);
            t += (u1 - u0) / c;
            Event e;
            e.t = t;
            if (u1 > 0) {
                e.type = 'S', r = top, up = false, ++k.surface;
                e.graze = acosl(p / top);
            } else {
                e.type = 'B', r = bottom, up = true, ++k.bottom;
                e.graze = acosl(p / bottom);
            }
            events.push_back(e);
        }
    }
    // events before a time
    std::string history(R t) const {
        std::string s;
        for (auto &e : events)
            if (e.t <= t) s += e.type;
        return s;
    }
};

struct Expected {
    R t, source_de, target_de;  // degrees
    int surface, bottom, lower;
    bool up = false;           // on launch
    std::vector<R> graze;      // of each contact
    std::vector<char> type;
};

// all paths to a target at angular distance psi
inline std::vector<Expected> paths(R r0, R rt, R psi, R lo, R hi, R end, R top,
                                   R bottom, R c, int N = 800) {
    std::vector<Expected> out;
    auto find = [](const std::vector<Crossing> &v, uint64_t key,
                   size_t hint) -> const Crossing * {
        for (size_t d = 0; d < 4; ++d) {
            if (hint + d < v.size() && v[hint + d].key == key) return &v[hint + d];
            if (hint >= d && hint - d < v.size() && v[hint - d].key == key)
                return &v[hint - d];
        }
        for (auto &x : v)
            if (x.key == key) return &x;
        return nullptr;
    };
    // paths of a kind begin and end at horizontal launch, and where the ray is
    // tangent to the depth of the target or to the bottom
    std::vector<R> grid;
    for (int n = 0; n <= N; ++n) grid.push_back(lo + (hi - lo) * n / N);
    std::vector<R> ends(1, 0);
    for (R r : {rt, bottom})
        if (r < r0)
            for (int side : {-1, 1}) ends.push_back(side * ref::deg(acosl(r / r0)));
    for (R e : ends)
        for (R d = 1; d > 1e-12L; d /= 3) {
            if (e - d > lo) grid.push_back(e - d);
            if (e + d < hi) grid.push_back(e + d);
        }
    std::sort(grid.begin(), grid.end());
    std::vector<Crossing> a;
    for (size_t n = 0; n < grid.size(); ++n) {
        R g1 = grid[n], g0 = n ? grid[n - 1] : g1;
        std::vector<Crossing> b = Path(r0, ref::rad(g1), 1.5L * end, top, bottom, c, rt).cross;
        for (size_t q = 0; n > 0 && q < b.size(); ++q) {
            const Crossing *y = find(a, b[q].key, q);
            if (!y) continue;
            R f0 = y->psi - psi, f1 = b[q].psi - psi;
            if ((f0 < 0) == (f1 < 0)) continue;
            R u = g0, v = g1;
            Crossing z;
            bool ok = true;
            for (int k = 0; k < 45 && ok; ++k) {
                R w = (u + v) / 2;
                Path p(r0, ref::rad(w), 1.5L * end, top, bottom, c, rt);
                const Crossing *x = find(p.cross, b[q].key, q);
                if (!x) ok = false;
                else z = *x, ((x->psi - psi < 0) == (f0 < 0) ? u : v) = w;
            }
            if (!ok || z.t > end) continue;
            Expected e;
            e.up = b[q].key & 1;
            e.t = z.t;
            e.source_de = (u + v) / 2;
            e.target_de = ref::deg(z.gamma);
            e.surface = z.surface, e.bottom = z.bottom, e.lower = z.lower;
            Path p(r0, ref::rad(e.source_de), e.t, top, bottom, c);
            for (auto &h : p.events)
                if (h.t <= e.t && h.type != 'V')
                    e.graze.push_back(h.graze), e.type.push_back(h.type);
            out.push_back(e);
        }
        a.swap(b);
    }
    return out;
}

struct Found {
    size_t t1, t2;
    usml::eigenrays::eigenray_model ray;
};
class Listener : public usml::eigenrays::eigenray_listener {
   public:
    std::map<std::pair<size_t, size_t>,
             std::vector<usml::eigenrays::eigenray_model::csptr>>
        rays;
    std::vector<size_t> runs;
    size_t checks = 0;
    void add_eigenray(size_t t1, size_t t2,
                      usml::eigenrays::eigenray_model::csptr ray,
                      size_t run) override {
        rays[{t1, t2}].push_back(ray);
        runs.push_back(run);
    }
    void check_eigenrays(double, size_t) override { ++checks; }
};

}  // namespace eig
