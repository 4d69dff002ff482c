// P27: sensor updates deliver the acoustic picture of the current geometry
#include <usml/beampatterns/bp_omni.h>
#include <usml/biverbs/biverbs.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/motion_thresholds.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/thread_controller.h>
#include <usml/transmit/transmit.h>
#include <usml/types/seq_linear.h>
#include <usml/wavegen/wavegen.h>
#include <usml/waveq3d/waveq3d.h>

#include <algorithm>
#include <iostream>
#include <map>
#include <mutex>
#include <netcdf>
#include <set>

#include "pbt.h"
#include "util.h"

using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using usml::threads::thread_controller;
using usml::threads::thread_task;
typedef uint64_t Key;

// leaves no task behind, and nothing on the screen
struct Clean {
    std::streambuf *old;
    std::vector<std::function<void()>> undo;
    Clean() : old(std::cout.rdbuf(nullptr)) { clear(); }
    ~Clean() {
        finish();
        for (auto &u : undo) u();
        clear();
        std::cout.rdbuf(old);
        std::cout.clear();
    }
    static void finish() {
        while (thread_task::num_active() > 0) thread_task::sleep();
    }
    static void clear() {
        sensor_manager::reset();
        platform_manager::reset();
        ocean_shared::reset();
    }
};

// one computation
struct Launch {
    ocean_model::csptr ocean;
    wposition1 pos;
    std::vector<Key> ids;
    std::vector<wposition1> targets;
    // direct run of the propagation model, when needed
    std::shared_ptr<eigenray_collection> rays;
    std::shared_ptr<eigenverb_collection> verbs;
};

struct Delivered {
    eigenray_collection::csptr rays;
    eigenverb_collection::csptr verbs;
};
struct Ears : public usml::wavegen::wavefront_listener {
    std::mutex lock;
    std::vector<Delivered> got;
    void update_wavefront_data(const sensor_model *, eigenray_collection::csptr rays,
                               eigenverb_collection::csptr verbs) override {
        std::lock_guard<std::mutex> g(lock);
        got.push_back({rays, verbs});
    }
};
struct Told : public update_listener<sensor_pair> {
    std::mutex lock;
    std::map<std::string, int> count;
    void notify_update(const sensor_pair *pair) override {
        std::lock_guard<std::mutex> g(lock);
        ++count[pair->keyID()];
    }
    int of(const std::string &k) {
        std::lock_guard<std::mutex> g(lock);
        return count[k];
    }
};

struct Unit {
    sensor_model::sptr s;
    Ears ears;
    wposition1 last_pos;
    double last_orient[3] = {0, 0, 0};
    wposition1 pos;
    double orient[3] = {0, 0, 0};
    bool needs = true, source = false, receiver = false;
    std::vector<Launch> launches;  // since the last time all was quiet
    Launch picture;                // of the last computation
    bool has_picture = false;
    bool changed = false;  // since the last time all was quiet
};

static bool same_ray(const eigenray_model &a, const eigenray_model &b) {
    if (a.travel_time != b.travel_time || a.source_de != b.source_de || a.source_az != b.source_az ||
        a.target_de != b.target_de || a.target_az != b.target_az || a.surface != b.surface || a.bottom != b.bottom ||
        a.caustic != b.caustic || a.upper != b.upper || a.lower != b.lower ||
        a.intensity.size() != b.intensity.size())
        return false;
    for (size_t k = 0; k < a.intensity.size(); ++k)
        if (a.intensity(k) != b.intensity(k) || a.phase(k) != b.phase(k)) return false;
    return true;
}
static bool same_rays(const eigenray_list &a, const eigenray_list &b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto &x, auto &y) {
               return same_ray(*x, *y);
           });
}
static eigenray_list swapped(const eigenray_list &a) {
    eigenray_list out;
    for (auto &r : a) {
        auto *n = new eigenray_model(*r);
        std::swap(n->source_de, n->target_de);
        std::swap(n->source_az, n->target_az);
        out.push_back(eigenray_model::csptr(n));
    }
    return out;
}
static std::vector<double> flat(const eigenverb_model &v) {
    std::vector<double> out = {v.travel_time, v.length, v.width, v.position.rho(), v.position.theta(),
                               v.position.phi(), v.direction, v.grazing, v.sound_speed, (double)v.de_index,
                               (double)v.az_index, v.source_de, v.source_az, (double)v.surface, (double)v.bottom,
                               (double)v.caustic, (double)v.upper, (double)v.lower};
    out.insert(out.end(), v.power.begin(), v.power.end());
    return out;
}
static std::vector<double> flat(const biverb_model &v) {
    std::vector<double> out = {v.travel_time, v.duration, v.source_de, v.source_az, v.receiver_de, v.receiver_az,
                               (double)v.de_index, (double)v.az_index};
    out.insert(out.end(), v.power.begin(), v.power.end());
    return out;
}
template <class L>
static std::vector<std::vector<double>> sorted(const L &list) {
    std::vector<std::vector<double>> out;
    for (auto &v : list) out.push_back(flat(*v));
    std::sort(out.begin(), out.end());
    return out;
}
static bool same_verbs(const eigenverb_collection &a, const eigenverb_collection &b) {
    if (a.num_interfaces() != b.num_interfaces()) return false;
    for (size_t i = 0; i < a.num_interfaces(); ++i)
        if (sorted(a.eigenverbs(i)) != sorted(b.eigenverbs(i))) return false;
    return true;
}
static bool same_position(const wposition1 &a, const wposition1 &b) {
    return std::abs(a.latitude() - b.latitude()) < 1e-9 &&
           std::abs(std::remainder(a.longitude() - b.longitude(), 360)) < 1e-9 &&
           std::abs(a.altitude() - b.altitude()) < 1e-4;
}

static void direct_run(const sensor_model &s, const seq_vector::csptr &f, Launch &l) {
    if (l.rays) return;
    size_t n = l.ids.size();
    wposition tpos(n, 1);
    boost::numeric::ublas::matrix<uint64_t> ids(n, 1);
    for (size_t k = 0; k < n; ++k) {
        tpos.latitude(k, 0, l.targets[k].latitude());
        tpos.longitude(k, 0, l.targets[k].longitude());
        tpos.altitude(k, 0, l.targets[k].altitude());
        ids(k, 0) = l.ids[k];
    }
    wave_queue w(l.ocean, f, l.pos, s.de_fan(), s.az_fan(), s.time_step(), &tpos);
    w.intensity_threshold(s.intensity_threshold());
    w.max_bottom(s.max_bottom());
    w.max_surface(s.max_surface());
    l.rays.reset(new eigenray_collection(f, l.pos, tpos, s.keyID(), ids));
    l.verbs.reset(new eigenverb_collection(l.ocean->num_volume()));
    if (n) w.add_eigenray_listener(l.rays.get());
    if (s.compute_reverb()) w.add_eigenverb_listener(l.verbs.get());
    while (w.time() < s.time_maximum()) w.step();
    l.rays->sum_eigenrays();
}

// the text says why they differ, or nothing
static std::string differs(const Delivered &d, const Launch &l, const seq_vector::csptr &f) {
    auto &r = *d.rays;
    if (r.size1() * r.size2() != l.ids.size()) return "targets";
    for (size_t k = 0; k < l.ids.size(); ++k) {
        if (r.targetID(k, 0) != l.ids[k]) return "target id";
        if (!same_position(r.position(k, 0), l.targets[k])) return "target position";
        if (!same_rays(r.eigenrays(k, 0), l.rays->eigenrays(k, 0))) return "eigenrays";
        if (r.initial_time(k, 0) != l.rays->initial_time(k, 0)) return "initial time";
        if (!same_ray(r.total(k, 0), l.rays->total(k, 0))) return "total";
    }
    if (r.frequencies() != f) return "frequencies";
    if (!same_verbs(*d.verbs, *l.verbs)) return "eigenverbs";
    return "";
}

static scattering_model::csptr scattering(Case &c, double dB) {
    if (c.flip()) return scattering_model::csptr(new scattering_lambert(dB));
    return scattering_model::csptr(new scattering_constant(dB));
}
static ocean_model::csptr gen_ocean(Case &c, bool layer) {
    double depth = c.real(80, 400), c0 = c.real(1450, 1550);
    c.note("depth", depth);
    boundary_model::csptr top(new boundary_flat(0.0, nullptr, scattering(c, -40))),
        bottom(new boundary_flat(depth, nullptr, scattering(c, -27)));
    profile_model::csptr water(new profile_linear(c0, c.pick<double>({0.0, 0.05, -0.05})));
    auto *o = new ocean_model(top, bottom, water);
    if (layer)
        o->add_volume(volume_model::csptr(new volume_flat(depth / 2, depth / 10, -40)));
    return ocean_model::csptr(o);
}
static transmit_list gen_schedule(Case &c) {
    transmit_list out;
    int n = c.integer(1, 3);
    for (int k = 0; k < n; ++k)
        out.push_back(transmit_model::csptr(new transmit_cw("CW", c.real(0.05, 0.6), c.real(900, 1100),
                                                            c.real(0, 0.2), c.real(180, 220))));
    return out;
}

LAW(P27, histories, 1500, 20000,
    "histories of 3-25 moves, turns, forced and suppressed updates, pauses, new "
    "oceans and schedules of 1-4 sensors of random roles, settings, ranges and "
    "places (near the date line also) and 0-2 plain targets, with 1-4 threads, "
    "against a model of the thresholds and direct runs of the propagation; "
    "non-trivial: a computation was started while one for the same sensor ran, "
    "a small move started none, and a pair had two pictures with paths") {
    std::map<Key, std::unique_ptr<Unit>> unit;
    std::map<Key, platform_model::sptr> plain;
    Told told;
    Clean clean;  // ends before those
    thread_controller::reset(c.integer(1, 4));
    auto *pmgr = platform_manager::instance();
    auto *mgr = sensor_manager::instance();
    bool layer = c.flip(0.3);
    auto ocean = gen_ocean(c, layer);
    ocean_shared::update(ocean);
    seq_vector::csptr f(new seq_linear(c.pick<double>({900.0, 200.0}), 100.0, c.integer(1, 2)));
    mgr->frequencies(f);
    double lat0 = c.pick<double>({45.0, 0.0, -30.0, 62.0});
    double lng0 = c.pick<double>({10.0, 179.9995, 0.0, -179.9998});
    c.note("lat0", lat0), c.note("lng0", lng0);
    int ns = c.integer(1, 4), np = c.integer(0, 2);
    std::vector<Key> keys;
    auto place = [&](const wposition1 &near, double far) {
        return wposition1(near.latitude() + c.real(-far, far) / 111000,
                          near.longitude() + c.real(-far, far) / 111000, c.real(-70, -5));
    };
    wposition1 middle(lat0, lng0, 0);
    clean.undo.push_back([&] {
        for (auto &u : unit) u.second->s->remove_wavefront_listener(&u.second->ears);
    });
    for (int n = 0; n < np; ++n) {
        Key k = 50 + n;
        plain[k].reset(new platform_model(k, "plain", 0, place(middle, 600)));
        if (c.flip(0.2)) plain[k]->is_acoustic_target(false);
        pmgr->add(plain[k]);
    }
    bool reverb = c.flip(0.6);
    for (int n = 0; n < ns; ++n) {
        Key k = n + 1;
        keys.push_back(k);
        auto &u = unit[k];
        u.reset(new Unit());
        u->pos = place(middle, 600);
        for (double &x : u->orient) x = c.real(-60, 60);
        u->s.reset(new sensor_model(k, "sensor " + std::to_string(k), 0, u->pos,
                                    orientation(u->orient[0], u->orient[1], u->orient[2])));
        auto &s = *u->s;
        int kind = c.integer(0, 4);
        u->source = kind != 1, u->receiver = kind != 0;
        if (u->source) s.src_beam(0, bp_model::csptr(new bp_omni()));
        if (u->receiver) s.rcv_beam(0, bp_model::csptr(new bp_omni()));
        s.multistatic(c.pick<uint64_t>({1, 1, 1, 0}));
        s.compute_reverb(reverb && c.flip(0.8));
        s.min_range(c.pick<double>({0.0, 0.0, 50.0}));
        s.max_range(c.pick<double>({0.0, 0.0, 700.0}));
        int nde = c.integer(5, 11), naz = c.integer(5, 9);
        s.de_fan(seq_vector::csptr(new seq_linear(-c.real(30, 80), 140.0 / nde, nde)));
        s.az_fan(seq_vector::csptr(new seq_linear(0.0, 360.0 / (naz - 1), naz)));
        s.time_step(c.pick<double>({0.05, 0.1, 0.03}));
        s.time_maximum(c.real(0.2, 1.2));
        if (c.flip(0.3)) s.intensity_threshold(c.real(-90, -50));
        if (c.flip(0.3)) s.max_bottom(c.integer(0, 3));
        if (c.flip(0.3)) s.max_surface(c.integer(0, 3));
        s.add_wavefront_listener(&u->ears);
        mgr->add_sensor(u->s, &told);
    }
    struct Pair {
        sensor_pair::sptr p;
        Unit *src, *rcv;
        std::string key;
        bool src_verbs = false, rcv_verbs = false;  // known
        bool echoes = false;                        // to come, or known
        transmit_list schedule;                     // of the last series
        bool series = false;
        eigenray_collection::csptr paths;
        biverb_collection::csptr biverbs;
        rvbts_collection::csptr rvbts;
        int told = 0, pictures = 0;
    };
    std::vector<Pair> pairs;
    for (auto &p : mgr->list()) {
        Pair q;
        q.p = p, q.key = p->keyID();
        q.src = unit[p->source()->keyID()].get(), q.rcv = unit[p->receiver()->keyID()].get();
        pairs.push_back(q);
    }
    std::map<Key, transmit_list> schedule;
    int restarted = 0, ignored = 0;

    // what an update should do
    auto expect = [&](Unit &u, const wposition1 &pos, const double o[3],
                      platform_model::update_type_enum type) -> int {
        u.pos = pos;
        std::copy(o, o + 3, u.orient);
        if (type == platform_model::NO_UPDATE) return 0;
        double d[6] = {pos.latitude() - u.last_pos.latitude(),
                       std::remainder(pos.longitude() - u.last_pos.longitude(), 360.0),
                       pos.altitude() - u.last_pos.altitude(),
                       std::remainder(o[0] - u.last_orient[0], 360.0),
                       o[1] - u.last_orient[1],
                       std::remainder(o[2] - u.last_orient[2], 360.0)};
        const double limit[6] = {0.01, 0.01, 5, 5, 5, 5};
        bool far = false, edge = false;
        for (int k = 0; k < 6; ++k) {
            far = far || std::abs(d[k]) > limit[k];
            edge = edge || std::abs(std::abs(d[k]) - limit[k]) < 1e-5;
        }
        bool go = type == platform_model::FORCE_UPDATE || u.needs;
        if (!go && edge) c.discard();
        go = go || far;
        if (!go) {
            ++ignored;
            return 0;
        }
        u.needs = false, u.last_pos = pos;
        std::copy(o, o + 3, u.last_orient);
        Launch l;
        l.ocean = ocean, l.pos = pos;
        double lo = u.s->min_range(), hi = u.s->max_range();
        for (auto &p : pmgr->list()) {
            if (!p->is_acoustic_target()) continue;
            wposition1 at = p->keyID() == u.s->keyID() ? pos : p->position();
            double range = std::sqrt(at.distance2(pos));
            if (at.distance2(pos) < 0.2) range = 0;
            if ((lo > 0 && std::abs(range - lo) < 1) || (hi > 0 && std::abs(range - hi) < 1)) c.discard();
            if (range < lo || (hi > 0 && range > hi)) continue;
            l.ids.push_back(p->keyID());
            l.targets.push_back(at);
        }
        if (l.ids.empty() && !u.s->compute_reverb()) return 1;  // nothing to compute
        u.launches.push_back(l);
        u.changed = true;
        return 2;
    };

    auto quiet = [&] {
        Clean::finish();
        for (Key k : keys) {
            Unit &u = *unit[k];
            std::lock_guard<std::mutex> g(u.ears.lock);
            std::string who = "sensor " + std::to_string(k);
            if (u.launches.empty()) {
                c.check(u.ears.got.empty(), "delivered-nothing", who);
                continue;
            }
            c.check(!u.ears.got.empty(), "not-delivered", who);
            c.check(u.ears.got.size() <= u.launches.size(), "delivered-twice", who);
            // each one that was delivered, in order, is one that was started
            size_t next = 0;
            std::string why;
            for (auto &d : u.ears.got) {
                bool found = false;
                for (; next < u.launches.size() && !found; ++next) {
                    if (&d == &u.ears.got.back() && next + 1 < u.launches.size()) continue;
                    direct_run(*u.s, f, u.launches[next]);
                    why = differs(d, u.launches[next], f);
                    found = why.empty();
                }
                c.check(found, "picture", who + ": " + why);
                c.equal(d.rays->sourceID(), k, "picture-source");
            }
            u.picture = u.launches.back();
            u.has_picture = true;
            u.ears.got.clear();
            u.launches.clear();
        }
        for (auto &q : pairs) {
            bool one = q.src == q.rcv;
            bool fresh = q.src->changed || q.rcv->changed;
            auto paths = q.p->dirpaths();
            if (!fresh) {
                c.check(paths == q.paths, "paths-changed", q.key);
            } else {
                c.check(paths != nullptr && paths != q.paths, "paths-missing", q.key);
                c.equal(paths->sourceID(), q.src->s->keyID(), "paths-source-id", q.key);
                c.equal(paths->size1() * paths->size2(), (size_t)1, "paths-targets", q.key);
                c.equal(paths->targetID(0, 0), q.rcv->s->keyID(), "paths-target-id", q.key);
                c.check(paths->frequencies() == f, "paths-frequencies", q.key);
                bool found = false;
                for (int way = 0; way < 2 && !found; ++way) {
                    Unit &from = way ? *q.rcv : *q.src, &to = way ? *q.src : *q.rcv;
                    if (!from.changed || (one && way)) continue;
                    size_t at = 0;
                    auto &l = from.picture;
                    while (at < l.ids.size() && l.ids[at] != to.s->keyID()) ++at;
                    eigenray_list rays;
                    bool known = at < l.ids.size();
                    if (known) rays = l.rays->eigenrays(at, 0);
                    if (way) rays = swapped(rays);
                    if (!same_rays(paths->eigenrays(0, 0), rays)) continue;
                    wposition1 a = l.pos, b = known ? l.targets[at] : to.pos;
                    if (way) std::swap(a, b);
                    // without any path the ends do not matter
                    if (known && !same_position(paths->position(0, 0), b)) continue;
                    if (known && !same_position(paths->source_position(), a)) continue;
                    found = true;
                    if (!rays.empty()) {
                        ++q.pictures;
                        eigenray_collection sum(f, a, wposition(b));
                        for (auto &r : rays) sum.add_eigenray(0, 0, r);
                        sum.sum_eigenrays();
                        c.check(same_ray(sum.total(0, 0), paths->total(0, 0)), "paths-total", q.key);
                    }
                }
                c.check(found, "paths", q.key);
                q.paths = paths;
            }
            int heard = told.of(q.key);
            if (!q.p->compute_reverb()) {
                c.check(q.p->biverbs() == nullptr && q.p->rvbts() == nullptr, "echoes-of-others", q.key);
                c.check(heard > q.told || !fresh, "not-told", q.key);
                c.check(heard == q.told || fresh, "told", q.key);
                q.told = heard;
                continue;
            }
            q.src_verbs = q.src_verbs || q.src->changed;
            q.rcv_verbs = q.rcv_verbs || q.rcv->changed;
            auto sv = q.p->src_eigenverbs(), rv = q.p->rcv_eigenverbs();
            c.equal(sv != nullptr, q.src_verbs, "src-verbs", q.key);
            c.equal(rv != nullptr, q.rcv_verbs, "rcv-verbs", q.key);
            if (sv) c.check(same_verbs(*sv, *q.src->picture.verbs), "src-verbs", q.key);
            if (rv) c.check(same_verbs(*rv, *q.rcv->picture.verbs), "rcv-verbs", q.key);
            auto bv = q.p->biverbs();
            c.equal(bv != nullptr, sv && rv, "biverbs", q.key);
            if (!bv) {
                c.check(q.p->rvbts() == nullptr, "series-early", q.key);
                continue;
            }
            auto &list = schedule[q.src->s->keyID()];
            bool again = fresh;
            if (!fresh) {
                c.check(bv == q.biverbs, "biverbs-changed", q.key);
            } else {
                c.check(heard > q.told, "not-told", q.key);
                // overlap of the two, in the ocean as it is
                biverb_collection want(ocean->num_volume());
                boost::numeric::ublas::vector<double> scatter(f->size(), 0.0);
                for (size_t i = 0; i < rv->num_interfaces(); ++i)
                    for (auto &r : rv->eigenverbs(i))
                        for (auto &t : sv->find_eigenverbs(r, i)) {
                            ocean->scattering(i, r->position, r->frequencies, t->grazing, r->grazing, t->direction,
                                              r->direction, &scatter);
                            want.add_biverb(t, r, scatter, i);
                        }
                c.equal(bv->num_interfaces(), want.num_interfaces(), "biverbs", q.key);
                for (size_t i = 0; i < want.num_interfaces(); ++i)
                    c.check(sorted(bv->biverbs(i)) == sorted(want.biverbs(i)), "biverbs", q.key);
                q.biverbs = bv;
            }
            auto ts = q.p->rvbts();
            if (again) q.schedule = list;
            if (!q.schedule.empty() && ts != q.rvbts) {
                c.check(ts != nullptr, "series", q.key);
                double treverb = 1e9;
                for (auto &t : q.schedule) treverb = std::min(treverb, t->duration);
                treverb = std::max(0.1, treverb / 2);
                seq_vector::csptr times(
                    new seq_linear(q.rcv->s->time_minimum(), treverb, q.rcv->s->time_maximum()));
                rvbts_collection want(q.src->s, q.src->pos, q.src->s->orient(), 0.0, q.rcv->s, q.rcv->pos,
                                      q.rcv->s->orient(), 0.0, times);
                for (size_t i = 0; i < bv->num_interfaces(); ++i)
                    for (auto &v : bv->biverbs(i)) {
                        double start = 0;
                        for (auto &t : q.schedule) {
                            want.add_biverb(v, t, bvector(t->orderedDE, t->orderedAZ), start);
                            start += t->delay + t->duration;
                        }
                    }
                auto &a = want.time_series(), &b = ts->time_series();
                c.equal(a.size1(), b.size1(), "series-channels", q.key);
                c.equal(a.size2(), b.size2(), "series-times", q.key);
                double top = 0;
                for (size_t j = 0; j < a.size2(); ++j) top = std::max(top, a(0, j));
                for (size_t j = 0; j < a.size2(); ++j)
                    c.close(b(0, j), a(0, j), 1e-9 * top, 1e-9, "series", q.key);
                c.label("series");
            } else
                c.check((ts == q.rvbts) && (q.schedule.empty() || !again), "series-changed", q.key);
            q.rvbts = ts;
            q.told = heard;
        }
        for (auto &u : unit) u.second->changed = false;
    };

    int steps = c.integer(3, 25);
    for (int n = 0; n < steps; ++n) {
        int op = c.integer(0, 11);
        Key k = c.pick<Key>(keys);
        Unit &u = *unit[k];
        if (op == 0 || op == 1) {
            quiet();
        } else if (op == 2) {  // only once all has been computed
            quiet();
            ocean = gen_ocean(c, layer);
            ocean_shared::update(ocean);
            c.label("new ocean");
        } else if (op == 3 && u.source) {
            quiet();
            bool force = c.flip();
            auto list = gen_schedule(c);
            if (c.flip(0.2)) list.clear();
            bool again = schedule[k].empty() || force;
            schedule[k] = list;
            u.s->transmit_schedule(list, force ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
            Clean::finish();
            if (again)
                for (auto &q : pairs)
                    if (q.src == &u && q.p->compute_reverb() && q.p->biverbs() != nullptr) {
                        q.schedule = list;
                        if (!list.empty())
                            c.check(q.p->rvbts() != q.rvbts, "series-schedule", q.key);
                    }
            c.label("schedule");
            quiet();
        } else if (op == 4 && !plain.empty()) {
            auto &p = plain[50 + c.integer(0, np - 1)];
            p->update(0, place(middle, 600), orientation(), 0.0);
        } else {
            wposition1 pos = u.pos;
            double o[3] = {u.orient[0], u.orient[1], u.orient[2]};
            int kind = c.integer(0, 3);
            if (kind == 0) {
                pos = place(middle, 600);  // up to half of the threshold
                pos.altitude(u.pos.altitude());
            } else if (kind == 1) {
                // some of the six by some part of its threshold
                double part = c.pick<double>({0.3, 0.6, 0.95, 1.05, 2.0});
                if (c.flip(0.4)) pos.latitude(pos.latitude() + 0.01 * part * (c.flip() ? 1 : -1));
                if (c.flip(0.4)) pos.longitude(pos.longitude() + 0.01 * part * (c.flip() ? 1 : -1));
                if (c.flip(0.4))
                    pos.altitude(std::max(-75.0, std::min(-1.0, pos.altitude() + 5 * part * (c.flip() ? 1 : -1))));
            } else if (kind == 2) {
                double part = c.pick<double>({0.3, 0.6, 0.95, 1.05, 2.0});
                for (int j = 0; j < 3; ++j)
                    if (c.flip(0.4)) o[j] += 5 * part * (c.flip() ? 1 : -1);
                o[1] = std::max(-70.0, std::min(70.0, o[1]));
                if (c.flip(0.2)) o[0] += 360.0 * (o[0] < 0 ? 1 : -1);  // the same heading
            }
            if (c.flip()) pos.longitude(std::remainder(pos.longitude(), 360.0));  // the same place
            auto type = c.pick<platform_model::update_type_enum>(
                {platform_model::TEST_THRESHOLD, platform_model::TEST_THRESHOLD, platform_model::FORCE_UPDATE,
                 platform_model::NO_UPDATE});
            auto before = u.s->wavefront_task();
            bool running = before != nullptr && !before->done();
            int will = expect(u, pos, o, type);
            u.s->update(0, pos, orientation(o[0], o[1], o[2]), 0.0, type);
            auto after = u.s->wavefront_task();
            c.check(after == before || will == 2, "started", "sensor " + std::to_string(k));
            c.check(after != before || will != 2, "not-started", "sensor " + std::to_string(k));
            restarted += running && will == 2;
            c.check(same_position(u.s->position(), pos), "moved");
        }
    }
    quiet();
    int most = 0;
    for (auto &q : pairs) most = std::max(most, q.pictures);
    c.nontrivial(restarted && ignored && most >= 2);
    for (auto &q : pairs) q.p.reset();
}

static eigenverb_model::csptr patch(Case &c, const seq_vector::csptr &f, double size) {
    auto *v = new eigenverb_model();
    v->travel_time = c.real(0.5, 2), v->frequencies = f;
    v->power.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) v->power(k) = c.logreal(0.1, 10);
    v->length = v->width = size;
    v->position = wposition1(45.0 + c.real(-0.001, 0.001), 10.0 + c.real(-0.001, 0.001), -100.0);
    v->direction = c.real(0, 6), v->grazing = c.real(0.1, 1.4), v->sound_speed = 1500;
    v->de_index = v->az_index = 0, v->source_de = c.real(-1, 1), v->source_az = c.real(-3, 3);
    v->surface = v->bottom = v->caustic = v->upper = v->lower = 0;
    return eigenverb_model::csptr(v);
}

LAW(P27, superseded, 200, 3000,
    "a pair gets 2-4 pictures in a row, each before the echoes of the one "
    "before it have been computed, those that come first take longest, with 2-6 "
    "threads: the echoes are those of the last one, and listeners hear of it; "
    "non-trivial: the first takes a hundred times longer than the last") {
    Told told;
    Clean clean;
    thread_controller::reset(c.integer(2, 6));
    ocean_shared::update(gen_ocean(c, false));
    auto *mgr = sensor_manager::instance();
    seq_vector::csptr f(new seq_linear(900.0, 100.0, 2));
    mgr->frequencies(f);
    sensor_model::sptr s(new sensor_model(1, "s", 0, wposition1(45.0, 10.0, -50)));
    s->src_beam(0, bp_model::csptr(new bp_omni()));
    s->rcv_beam(0, bp_model::csptr(new bp_omni()));
    s->compute_reverb(true);
    s->time_maximum(5);
    mgr->add_sensor(s, &told);
    bool echo = c.flip();
    if (echo) {
        if (c.flip()) {
            // known before anything was computed
            s->transmit_schedule(gen_schedule(c));
            Clean::finish();
            c.check(mgr->list().front()->rvbts() == nullptr, "series-early");
            c.label("schedule first");
        } else
            s->transmit_schedule(gen_schedule(c));
    }
    int runs = c.integer(2, 4);
    std::vector<int> size;
    int now = echo ? c.integer(40, 120) : c.integer(100, 250);
    for (int n = 0; n < runs; ++n) size.push_back(now), now = std::max(40, now / c.integer(1, 4));
    size.back() = c.pick<int>({1, 2, 5, 10});
    c.notev("size", size, size.size());
    auto pair = mgr->list().front();
    boost::numeric::ublas::matrix<uint64_t> ids(1, 1);
    size_t expect = 0;
    // each but the last takes long enough to be at work when it is superseded
    std::vector<std::shared_ptr<eigenverb_collection>> v;
    for (int n = 0; n < runs; ++n) {
        v.emplace_back(new eigenverb_collection(ocean_shared::current()->num_volume()));
        for (int m = 0; m < size[n]; ++m) v[n]->add_eigenverb(patch(c, f, 1000.0), eigenverb_model::BOTTOM);
    }
    // identical places are degenerate, so ask
    for (auto &r : v.back()->eigenverbs(eigenverb_model::BOTTOM))
        expect += v.back()->find_eigenverbs(r, eigenverb_model::BOTTOM).size();
    ids(0, 0) = 1;
    for (int n = 0; n < runs; ++n) {
        eigenray_collection::csptr rays(
            new eigenray_collection(f, s->position(), wposition(s->position()), 1, ids));
        s->notify_wavefront_listeners(s.get(), rays, v[n]);
    }
    Clean::finish();
    auto bv = pair->biverbs();
    c.check(bv != nullptr, "biverbs");
    c.equal(bv->size(eigenverb_model::BOTTOM), expect, "newest");
    c.check(told.of(pair->keyID()) > 0, "not-told");
    if (echo) {
        auto ts = pair->rvbts();
        c.check(ts != nullptr, "series");
        rvbts_collection want(s, s->position(), s->orient(), 0.0, s, s->position(), s->orient(), 0.0, ts->travel_times());
        for (auto &b : bv->biverbs(eigenverb_model::BOTTOM)) {
            double start = 0;
            for (auto &t : s->transmit_schedule()) {
                want.add_biverb(b, t, bvector(t->orderedDE, t->orderedAZ), start);
                start += t->delay + t->duration;
            }
        }
        auto &a = want.time_series(), &b = ts->time_series();
        double top = 0;
        for (size_t j = 0; j < a.size2(); ++j) top = std::max(top, a(0, j));
        for (size_t j = 0; j < a.size2(); ++j) c.close(b(0, j), a(0, j), 1e-9 * top, 1e-9, "newest-series");
    }
    c.nontrivial(size.front() * size.front() > 100 * size.back() * size.back());
}

LAW(P27, schedules, 60, 1200,
    "the schedule of a source with many contributions is replaced 1-3 times while "
    "the series of the one before, which has many more pulses, is being made, with "
    "2-6 threads: the series is the one of the last schedule; non-trivial: always") {
    Told told;
    Clean clean;
    thread_controller::reset(c.integer(2, 6));
    ocean_shared::update(gen_ocean(c, false));
    auto *mgr = sensor_manager::instance();
    seq_vector::csptr f(new seq_linear(900.0, 100.0, 2));
    mgr->frequencies(f);
    sensor_model::sptr s(new sensor_model(1, "s", 0, wposition1(45.0, 10.0, -50)));
    s->src_beam(0, bp_model::csptr(new bp_omni()));
    s->rcv_beam(0, bp_model::csptr(new bp_omni()));
    s->compute_reverb(true);
    s->time_maximum(5);
    mgr->add_sensor(s, &told);
    auto pair = mgr->list().front();
    std::shared_ptr<eigenverb_collection> v(new eigenverb_collection(ocean_shared::current()->num_volume()));
    int size = c.integer(20, 30);
    for (int m = 0; m < size; ++m) v->add_eigenverb(patch(c, f, 1000.0), eigenverb_model::BOTTOM);
    boost::numeric::ublas::matrix<uint64_t> ids(1, 1);
    ids(0, 0) = 1;
    eigenray_collection::csptr rays(new eigenray_collection(f, s->position(), wposition(s->position()), 1, ids));
    s->notify_wavefront_listeners(s.get(), rays, v);
    Clean::finish();
    auto bv = pair->biverbs();
    c.check(bv != nullptr && bv->size(eigenverb_model::BOTTOM) > 0, "biverbs");
    c.check(pair->rvbts() == nullptr, "series-early");
    // durations tell the schedules apart
    int runs = c.integer(2, 4);
    transmit_list last;
    for (int n = 0; n < runs; ++n) {
        last.clear();
        int pulses = n + 1 < runs ? 60 : c.integer(1, 2);
        double duration = 0.2 + 0.2 * n;
        for (int k = 0; k < pulses; ++k)
            last.push_back(transmit_model::csptr(new transmit_cw("CW", duration, c.real(900, 1000), c.real(0, 0.02),
                                                                 c.real(180, 220))));
        s->transmit_schedule(last, platform_model::FORCE_UPDATE);
    }
    Clean::finish();
    auto ts = pair->rvbts();
    c.check(ts != nullptr, "series");
    double treverb = std::max(0.1, last.front()->duration / 2);
    seq_linear times(s->time_minimum(), treverb, s->time_maximum());
    c.equal(ts->travel_times()->size(), times.size(), "newest-schedule");
    for (size_t k = 0; k < times.size(); ++k)
        c.close((*ts->travel_times())(k), times(k), 1e-12, 1e-12, "newest-schedule");
    rvbts_collection want(s, s->position(), s->orient(), 0.0, s, s->position(), s->orient(), 0.0, ts->travel_times());
    for (auto &b : bv->biverbs(eigenverb_model::BOTTOM)) {
        double start = 0;
        for (auto &t : last) {
            want.add_biverb(b, t, bvector(t->orderedDE, t->orderedAZ), start);
            start += t->delay + t->duration;
        }
    }
    auto &a = want.time_series(), &b = ts->time_series();
    double top = 0;
    for (size_t j = 0; j < a.size2(); ++j) top = std::max(top, a(0, j));
    for (size_t j = 0; j < a.size2(); ++j) c.close(b(0, j), a(0, j), 1e-9 * top, 1e-9, "newest-schedule");
    c.check(told.of(pair->keyID()) > 0, "not-told");
    c.nontrivial(true);
}
