// P15: directions and platform orientations form consistent rotations
#include <usml/types/types.h>

#include "pbt.h"
#include "util.h"

using namespace usml::types;
using pbt::Case;
using ref::Vec;

// model of an orientation: columns are the forward, right and up axes of the
// body in (north, east, up) components
struct Rot {
    Vec f, r, u;
};
static Rot model(double yaw, double pitch, double roll) {
    ref::real y = ref::rad(yaw), p = ref::rad(pitch), q = ref::rad(roll);
    using std::cos;
    using std::sin;
    Vec f(cos(p) * cos(y), cos(p) * sin(y), sin(p));
    Vec r0(-sin(y), cos(y), 0);
    Vec u0(-sin(p) * cos(y), -sin(p) * sin(y), cos(p));
    Rot m;
    m.f = f;
    m.r = r0 * cos(q) - u0 * sin(q);  // positive roll lowers the right side
    m.u = u0 * cos(q) + r0 * sin(q);
    return m;
}
static Vec apply(const Rot &m, const Vec &v) {  // body to world
    return m.f * v.x + m.r * v.y + m.u * v.z;
}
static Vec invert(const Rot &m, const Vec &v) {  // world to body
    return Vec(m.f.dot(v), m.r.dot(v), m.u.dot(v));
}
static Rot compose(const Rot &a, const Rot &b) {
    Rot m;
    m.f = apply(a, b.f);
    m.r = apply(a, b.r);
    m.u = apply(a, b.u);
    return m;
}
static Vec vec(const vector<double> &v) { return Vec(v(0), v(1), v(2)); }
static const double TOL = 1e-13;

static void same(Case &c, const orientation &o, const Rot &m,
                 const std::string &key, double tol = TOL) {
    double e = (double)((vec(o.front()) - m.f).norm() +
                        (vec(o.right()) - m.r).norm() +
                        (vec(o.up()) - m.u).norm());
    // written so that NaN fails
    c.check(e < tol, key, "axes are off by " + std::to_string(e));
    matrix<double> R = o.rotation();
    c.check((Vec(R(0, 0), R(1, 0), R(2, 0)) - m.f).norm() < tol &&
                (Vec(R(0, 1), R(1, 1), R(2, 1)) - m.r).norm() < tol &&
                (Vec(R(0, 2), R(1, 2), R(2, 2)) - m.u).norm() < tol,
            key + "-matrix");
}
static double gen_angle(Case &c) {
    return c.real(-180.0, 180.0, {0.0, 90.0, -90.0, 180.0, 45.0}, .25);
}
static double gen_pitch(Case &c) {
    return c.real(-89.0, 89.0, {0.0, 45.0, -89.0, 89.0}, .2);
}
static Vec gen_vec(Case &c) {
    return Vec(c.real(-10, 10, {0.0, 1.0}), c.real(-10, 10, {0.0, 1.0}),
               c.real(-10, 10, {0.0, 1.0}));
}
static void angles(Case &c, orientation &o, double yaw, double pitch,
                   double roll, const std::string &key) {
    double y = o.yaw(), p = o.pitch(), r = o.roll();
    bool ok = std::abs(ref::angdiff(y, yaw)) < 1e-9 &&
              std::abs((ref::real)p - pitch) < 1e-9 &&
              std::abs(ref::angdiff(r, roll)) < 1e-9;
    std::ostringstream s;
    s << "yaw/pitch/roll are " << y << "/" << p << "/" << r << ", expected "
      << yaw << "/" << pitch << "/" << roll;
    c.check(ok, key, s.str());
}

LAW(P15, history, 100000, 4000000,
    "history of 1 to 10 operations (construct, copy, assign, from matrix, "
    "set one angle, set all, compose, read angles) on three orientations; "
    "oracle: yaw/pitch/roll triples and long double axes; nontrivial: a "
    "partial update follows a copy or the history composes rotations") {
    const int N = 3;
    orientation obj[N];
    double a[N][3] = {{0}};
    bool copied[N] = {false};
    int steps = c.integer(1, 10);

    for (int k = 0; k < steps; ++k) {
        int i = c.integer(0, N - 1), j = c.integer(0, N - 1);
        int op = c.integer(0, 8);
        switch (op) {
            case 0:
                a[i][0] = gen_angle(c);
                a[i][1] = gen_pitch(c);
                a[i][2] = gen_angle(c);
                obj[i].update_orientation(a[i][0], a[i][1], a[i][2]);
                c.note("op", std::string("set;"));
                copied[i] = false;
                break;
            case 1:
                obj[i] = obj[j];
                for (int n = 0; n < 3; ++n) a[i][n] = a[j][n];
                c.note("op", std::string("assign;"));
                copied[i] = true;
                break;
            case 2: {
                orientation o(obj[j]);
                same(c, o, model(a[j][0], a[j][1], a[j][2]), "copy", 1e-11);
                angles(c, o, a[j][0], a[j][1], a[j][2], "copy-angles");
                c.note("op", std::string("copy;"));
                break;
            }
            case 3: {
                orientation o(obj[j].rotation());
                obj[i] = o;
                for (int n = 0; n < 3; ++n) a[i][n] = a[j][n];
                copied[i] = true;
                c.note("op", std::string("matrix;"));
                break;
            }
            case 4:
                a[i][0] = gen_angle(c);
                obj[i].yaw(a[i][0]);
                c.nontrivial(copied[i]);
                c.note("op", std::string(copied[i] ? "yaw-after-copy;" : "yaw;"));
                break;
            case 5:
                a[i][1] = gen_pitch(c);
                obj[i].pitch(a[i][1]);
                c.nontrivial(copied[i]);
                c.note("op", std::string(copied[i] ? "pitch-after-copy;" : "pitch;"));
                break;
            case 6:
                a[i][2] = gen_angle(c);
                obj[i].roll(a[i][2]);
                c.nontrivial(copied[i]);
                c.note("op", std::string(copied[i] ? "roll-after-copy;" : "roll;"));
                break;
            case 7: {
                // combining equals applying one after the other
                orientation o;
                o.rotate(obj[i], obj[j]);
                Rot m = compose(model(a[i][0], a[i][1], a[i][2]),
                                model(a[j][0], a[j][1], a[j][2]));
                same(c, o, m, "compose", 1e-11);
                if (std::abs((double)m.f.z) < 0.9998) {
                    obj[i] = o;
                    a[i][0] = (double)ref::deg(std::atan2(m.f.y, m.f.x));
                    a[i][1] = (double)ref::deg(std::asin(m.f.z));
                    a[i][2] = (double)ref::deg(-std::atan2(m.r.z, m.u.z));
                    angles(c, o, a[i][0], a[i][1], a[i][2], "compose-angles");
                    copied[i] = true;
                    c.nontrivial();
                }
                c.note("op", std::string("compose;"));
                break;
            }
            case 8:
                angles(c, obj[j], a[j][0], a[j][1], a[j][2], "angles");
                c.note("op", std::string("read;"));
                break;
        }
    }

    for (int i = 0; i < N; ++i) {
        same(c, obj[i], model(a[i][0], a[i][1], a[i][2]), "axes", 1e-11);
        angles(c, obj[i], a[i][0], a[i][1], a[i][2], "final-angles");
        same(c, obj[i], model(a[i][0], a[i][1], a[i][2]), "axes-after-read",
             1e-11);
    }
}

LAW(P15, rotation, 100000, 4000000,
    "one orientation with any angles (also gimbal lock) and 1 to 5 vectors; "
    "oracle: long double rotation, isometry, inverse") {
    double y = gen_angle(c), r = gen_angle(c),
           p = c.real(-90.0, 90.0, {90.0, -90.0, 0.0, 89.99}, .2);
    c.note("yaw", y);
    c.note("pitch", p);
    c.note("roll", r);
    c.nontrivial(y != 0 && p != 0 && r != 0);
    orientation o(y, p, r);
    Rot m = model(y, p, r);
    same(c, o, m, "axes");
    // angles recovered from the rotation always give the same rotation
    orientation copy(o.rotation());
    double y2 = copy.yaw(), p2 = copy.pitch(), r2 = copy.roll();
    orientation again(y2, p2, r2);
    same(c, again, m, "angles-of-rotation", 3e-8);
    size_t n = c.integer(1, 5);
    matrix<double> v(3, n);
    std::vector<Vec> in;
    for (size_t k = 0; k < n; ++k) {
        Vec q = gen_vec(c);
        in.push_back(q);
        v(0, k) = (double)q.x;
        v(1, k) = (double)q.y;
        v(2, k) = (double)q.z;
    }
    o.rotate_vector(v);
    c.equal(v.size2(), n, "size");
    for (size_t k = 0; k < n; ++k) {
        Vec got(v(0, k), v(1, k), v(2, k));
        c.check((got - invert(m, in[k])).norm() < 1e-12, "world-to-body");
        c.close((double)got.norm(), (double)in[k].norm(), 1e-12, 0, "length");
        for (size_t i = 0; i < k; ++i)
            c.close((double)got.dot(Vec(v(0, i), v(1, i), v(2, i))),
                    (double)in[k].dot(in[i]), 1e-11, 0, "angle-between");
        // and back
        bvector body((double)got.x, (double)got.y, (double)got.z), world;
        world.rotate(o, body);
        c.check((Vec(world.front(), world.right(), world.up()) - in[k]).norm() <
                    1e-12,
                "undo");
        world.rotate(o, world);  // in place
        c.check((Vec(world.front(), world.right(), world.up()) -
                 apply(m, in[k]))
                        .norm() < 1e-12,
                "in-place");
    }
    orientation id, back;
    back.rotate(o, id);
    same(c, back, m, "identity-right");
    back.rotate(id, o);
    same(c, back, m, "identity-left");
    back = o;
    back.rotate(back, back);  // aliasing
    same(c, back, compose(m, m), "alias", 1e-12);
}

LAW(P15, direction_vector, 50000, 2000000,
    "depression/elevation and azimuth angles, setters, copies") {
    double de = c.real(-90, 90, {0.0, 90.0, -90.0}), az = c.real(-360, 360, {0.0, 90.0, 180.0});
    c.note("de", de);
    c.note("az", az);
    c.nontrivial(de != 0 && az != 0);
    bvector b(de, az);
    ref::real d = ref::rad(de), a = ref::rad(az);
    c.close(b.front(), (double)(std::cos(d) * std::cos(a)), 1e-14, 0, "front");
    c.close(b.right(), (double)(std::cos(d) * std::sin(a)), 1e-14, 0, "right");
    c.close(b.up(), (double)std::sin(d), 1e-14, 0, "up");
    // the forward axis of an orientation is the direction (pitch, yaw)
    orientation o(az, de, c.real(-180, 180));
    c.check((vec(o.front()) - vec(b.data())).norm() < 1e-13, "front-axis");
    bvector e(b), f;
    f = b;
    c.check((vec(e.data()) - vec(b.data())).norm() == 0, "copy");
    c.check((vec(f.data()) - vec(b.data())).norm() == 0, "assign");
    double x = c.real(-5, 5);
    int k = c.integer(0, 2);
    if (k == 0) f.front(x);
    if (k == 1) f.right(x);
    if (k == 2) f.up(x);
    c.equal(f.front(), k == 0 ? x : b.front(), "setter");
    c.equal(f.right(), k == 1 ? x : b.right(), "setter");
    c.equal(f.up(), k == 2 ? x : b.up(), "setter");
    bvector g(b.data());
    c.equal(g.up(), b.up(), "from-vector");
}
