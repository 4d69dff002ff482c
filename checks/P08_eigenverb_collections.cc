// P08: eigenverb collections return every stored patch that a search should find
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/types/seq_data.h>

#include <set>
#include <thread>

#include "pbt.h"
#include "util.h"

using namespace usml::eigenverbs;
using namespace usml::types;
using pbt::Case;
using ref::Vec;
typedef long double R;
typedef eigenverb_model::csptr Verb;

static seq_vector::csptr gen_freq(Case &c) {
    int n = c.integer(1, 4);
    std::vector<double> f;
    double x = c.logreal(10, 5000);
    for (int i = 0; i < n; ++i) f.push_back(x), x *= c.real(1.1, 3);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}

static Verb gen_verb(Case &c, const seq_vector::csptr &f, double lat, double lon, double alt) {
    Verb v(new eigenverb_model());
    v->travel_time = c.logreal(0.01, 200);
    v->frequencies = f;
    v->power.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) v->power(k) = c.logreal(1e-25, 10);
    v->length = c.logreal(10, 20000), v->width = c.logreal(10, 20000);
    v->position = wposition1(lat, lon, alt);
    v->direction = c.real(-M_PI, 2 * M_PI, {0.0, M_PI_2});
    v->grazing = c.real(0.001, M_PI_2);
    v->sound_speed = c.real(1400, 1600);
    v->de_index = c.integer(0, 300), v->az_index = c.integer(0, 360);
    v->source_de = c.real(-1.57, 1.57), v->source_az = c.real(-M_PI, 2 * M_PI);
    v->surface = c.integer(0, 50), v->bottom = c.integer(0, 50);
    v->caustic = c.integer(0, 50), v->upper = c.integer(0, 50), v->lower = c.integer(0, 50);
    return v;
}

static bool same(const eigenverb_model &a, const eigenverb_model &b, double tol) {
    auto near = [&](double x, double y) { return std::abs(x - y) <= tol * std::max(1.0, std::abs(x)); };
    bool ok = near(a.travel_time, b.travel_time) && near(a.length, b.length) && near(a.width, b.width) &&
              near(a.position.latitude(), b.position.latitude()) &&
              near(a.position.longitude(), b.position.longitude()) &&
              std::abs(a.position.altitude() - b.position.altitude()) < 1e-6 &&
              near(a.direction, b.direction) && near(a.grazing, b.grazing) &&
              near(a.sound_speed, b.sound_speed) && a.de_index == b.de_index && a.az_index == b.az_index &&
              near(a.source_de, b.source_de) && near(a.source_az, b.source_az) && a.surface == b.surface &&
              a.bottom == b.bottom && a.caustic == b.caustic && a.upper == b.upper && a.lower == b.lower &&
              a.power.size() == b.power.size() && a.frequencies->size() == b.frequencies->size();
    for (size_t k = 0; ok && k < a.power.size(); ++k)
        ok = std::abs(a.power(k) / b.power(k) - 1) < tol * 10 + 1e-12 &&
             near((*a.frequencies)(k), (*b.frequencies)(k));
    return ok;
}

LAW(P08, history, 4000, 150000,
    "0-2 volume layers, 0-60 additions to random interfaces, anywhere on the "
    "globe and often on top of each other: every interface holds exactly the "
    "patches added to it, unchanged; non-trivial: ten patches or more") {
    size_t volumes = c.integer(0, 2), n = 2 * (1 + volumes);
    eigenverb_collection made(volumes);
    c.equal(made.num_interfaces(), n, "interfaces");
    auto f = gen_freq(c);
    std::vector<std::multiset<eigenverb_model *>> model(n);
    std::vector<Verb> keep;
    std::vector<eigenverb_model> before;
    int adds = c.integer(0, 60);
    c.note("volumes", volumes), c.note("adds", adds);
    for (int i = 0; i < adds; ++i) {
        double lat = c.real(-90, 90, {0.0}), lon = c.real(-180, 180, {0.0, 180.0});
        if (!keep.empty() && c.flip(0.3)) {
            lat = keep.back()->position.latitude();
            lon = keep.back()->position.longitude();
        }
        Verb v = gen_verb(c, f, lat, lon, -c.real(0, 5000));
        size_t k = c.integer(0, n - 1);
        made.add_eigenverb(v, k);
        model[k].insert(v.get());
        keep.push_back(v), before.push_back(*v);
        if (c.flip(0.05)) {
            size_t q = c.integer(0, n - 1);
            c.equal(made.size(q), model[q].size(), "size");
        }
    }
    for (size_t k = 0; k < n; ++k) {
        c.equal(made.size(k), model[k].size(), "size");
        std::multiset<eigenverb_model *> got;
        for (auto &v : made.eigenverbs(k)) got.insert(v.get());
        c.check(got == model[k], "kept", "eigenverbs of interface " + std::to_string(k));
    }
    for (size_t i = 0; i < keep.size(); ++i) c.check(same(*keep[i], before[i], 0), "unchanged");
    c.nontrivial(adds >= 10);
}

LAW(P08, search, 4000, 150000,
    "patches around a search patch of any size, shape and direction (20-1 to 1-20), "
    "at latitudes up to 80 and any longitude: searches return those well inside "
    "the diamond of the searched area and none well outside of it, and searches "
    "leave the collection as it is; non-trivial: patches both inside and outside") {
    auto f = gen_freq(c);
    double lat = c.real(-80, 80, {0.0, 45.0}), lon = c.real(-180, 180, {0.0, 180.0});
    double alt = -c.real(0, 5000);
    Verb at = gen_verb(c, f, lat, lon, alt);
    at->length = c.logreal(20, 10000), at->width = at->length * c.logreal(0.05, 20);
    if (at->width > 10000) at->width = 10000;
    R L = eigenverb_collection::search_scale * at->length, W = eigenverb_collection::search_scale * at->width;
    c.note("lat", lat), c.note("lon", lon), c.note("length", at->length), c.note("width", at->width);
    c.note("direction", at->direction);
    eigenverb_collection made(0);
    size_t where = c.integer(0, 1);
    int n = c.integer(1, 40), inside = 0, outside = 0;
    std::map<eigenverb_model *, R> size;  // 1 on the edge of the area
    std::map<eigenverb_model *, std::pair<R, R>> local;
    std::vector<Verb> keep;
    R r = at->position.rho(), th = at->position.theta(), ph = at->position.phi();
    R s = sinl(at->direction), k = cosl(at->direction);
    Vec up = ref::up_at(th, ph), north = ref::north_at(th, ph), east = ref::east_at(th, ph);
    for (int i = 0; i < n; ++i) {
        R x = L * c.real(-1.6, 1.6), y = W * c.real(-1.6, 1.6);
        R e = x * s + y * k, nn = x * k - y * s, d = std::hypot(e, nn);
        Vec head = d > 0 ? (east * (e / d) + north * (nn / d)) : east;
        Vec p = up * cosl(d / r) + head * sinl(d / r);
        Verb v = gen_verb(c, f, (double)(90 - ref::deg(std::acos(p.z))),
                          (double)ref::deg(std::atan2(p.y, p.x)), -c.real(0, 5000));
        made.add_eigenverb(v, where);
        size[v.get()] = fabsl(x) / L + fabsl(y) / W;
        local[v.get()] = {x / L, y / W};
        (size[v.get()] < 1 ? inside : outside)++;
        keep.push_back(v);
    }
    // other interfaces
    made.add_eigenverb(gen_verb(c, f, lat, lon, alt), 1 - where);
    std::multiset<eigenverb_model *> got;
    for (auto &v : made.find_eigenverbs(at, where)) got.insert(v.get());
    // the sides of the area are straight in one way or another: deeper patches
    // lie at smaller distances too
    R slack = 0.01L + (L + W) * 2 / 6.3e6L *
                       (1 + fabsl(tanl(ref::rad(lat))) +
                        fabsl(tanl(ref::rad(lon)) / cosl(ref::rad(lat))));
    // the area of a search is left open from its last corner D to its first A
    // (known finding): what lies at latitudes in between is judged apart, and
    // so is what larger trees miss, whose nodes are compared with that area
    R sA = L * k, sD = W * s;  // north of A and D
    R lo = std::min(sA, sD) - slack * (L + W), hi = std::max(sA, sD) + slack * (L + W);
    // and so is all of a search across longitudes of +/-90, which stand where
    // latitudes belong (known finding)
    R reach = ref::deg((L + W) / r / std::max<R>(0.01, cosl(ref::rad(lat))));
    bool across = fabsl(fabsl((R)lon) - 90) < 4 * reach + 1;
    int node = 0, strip = 0, wrong = 0;
    std::string node_what, strip_what, wrong_what;
    for (auto &v : keep) {
        R q = size[v.get()];
        auto xy = local[v.get()];
        R to_n = xy.first * L * k - xy.second * W * s;
        bool open = to_n > lo && to_n < hi;
        size_t times = got.count(v.get());
        std::ostringstream w;
        w << "patch at " << (double)xy.first << "," << (double)xy.second << " of the area, " << times << " times";
        c.check(times <= 1, "twice", w.str());
        if (across) {
            if ((q < 1 - slack && !times) || (q > 1 + slack && times)) ++wrong, wrong_what = w.str();
            continue;
        }
        bool missed = q < 1 - slack && !times, extra = q > 1 + slack && times;
        if (open) {
            if (missed || extra) ++strip, strip_what = w.str();
        } else {
            c.check(!extra, "extra", w.str());
            if (missed && keep.size() <= 8) c.check(false, "missed", w.str());
            if (missed) ++node, node_what = w.str();
        }
    }
    c.check(got.size() <= keep.size(), "other-interface");
    c.equal(made.size(where), keep.size(), "search-changed");
    c.nontrivial(inside && outside);
    if (inside) c.label(node ? "missed by nodes" : "complete");
    c.check(!wrong, "across-90", wrong_what);
    c.check(!strip, "open-side", strip_what);
    c.check(!node, "missed-by-node", node_what);
}

LAW(P08, file, 500, 15000,
    "collections of 0-40 patches written by interface and read into another "
    "collection, which may hold some already: every patch comes back with all of "
    "its parts; non-trivial: two patches or more") {
    size_t volumes = c.integer(0, 3), n = 2 * (1 + volumes);
    eigenverb_collection made(volumes), other(volumes);
    auto f = gen_freq(c);
    size_t k = c.integer(0, n - 1), to = c.integer(0, n - 1);
    std::vector<Verb> keep;
    int adds = c.integer(0, 40);
    for (int i = 0; i < adds; ++i) {
        Verb v = gen_verb(c, f, c.real(-89, 89, {0.0}), c.real(-180, 180, {0.0}), -c.real(0, 5000));
        made.add_eigenverb(v, k);
        keep.push_back(v);
    }
    int had = c.flip(0.2) ? c.integer(1, 3) : 0;
    std::set<eigenverb_model *> old;
    for (int i = 0; i < had; ++i) {
        Verb v = gen_verb(c, f, 1, 1, -10);
        old.insert(v.get());
        other.add_eigenverb(v, to);
    }
    c.note("interface", k), c.note("adds", adds), c.note("had", had);
    std::string name = pbt::scratch_dir() + "/verbs.nc";
    made.write_netcdf(name.c_str(), k);
    other.read_netcdf(name.c_str(), to);
    c.equal(other.size(to), keep.size() + had, "file-count");
    std::vector<Verb> left = keep;
    for (auto &v : other.eigenverbs(to)) {
        if (old.erase(v.get())) continue;
        bool hit = false;
        for (size_t i = 0; i < left.size() && !hit; ++i)
            if (same(*left[i], *v, 1e-9)) hit = true, left.erase(left.begin() + i);
        c.check(hit, "file-patch", "an eigenverb that was not written");
    }
    c.check(left.empty() && old.empty(), "file-patch", "eigenverbs missing");
    for (size_t i = 0; i < n; ++i)
        if (i != to) c.equal(other.size(i), 0, "file-interface");
    c.nontrivial(adds >= 2);
}
