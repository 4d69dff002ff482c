// P25: managed objects and their listeners keep exact membership, platforms
// and their children move together
#include <usml/managed/managed.h>
#include <usml/platforms/platforms.h>

#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <thread>

#include "pbt.h"
#include "util.h"

using namespace usml::managed;
using namespace usml::platforms;
using pbt::Case;
using ref::Vec;

//--------------------------------------------------------------------------
// managers against std::map

template <typename K>
class Object : public managed_obj<K, Object<K>> {
   public:
    Object(K key, const std::string &name)
        : managed_obj<K, Object<K>>(key, name) {
        ++alive;
    }
    ~Object() { --alive; }
    static std::atomic<int> alive;
};
template <typename K>
std::atomic<int> Object<K>::alive{0};

template <typename K>
struct Log {
    // what happened, key, listener
    std::vector<std::tuple<char, K, int>> events;
};
template <typename K>
class Listener : public manager_listener<Object<K>> {
   public:
    Listener(Log<K> *log, int n) : _log(log), _n(n) {}
    void notify_add(const Object<K> *object) const override {
        _log->events.emplace_back('a', object->keyID(), _n);
    }
    void notify_remove(K key) const override {
        _log->events.emplace_back('r', key, _n);
    }

   private:
    Log<K> *_log;
    int _n;
};
// keeps the default notify_remove
template <typename K>
class AddOnly : public manager_listener<Object<K>> {
   public:
    mutable int added = 0;
    void notify_add(const Object<K> *) const override { ++added; }
};

template <typename K>
static void history(Case &c, const std::vector<K> &keys) {
    typedef Object<K> O;
    std::map<K, typename O::sptr> model;
    Log<K> log, expect;
    std::set<int> on;
    int before = O::alive;
    bool refused = false, removed = false;
    {
        manager_template<O> manager;
        std::vector<std::unique_ptr<Listener<K>>> listener;
        for (int n = 0; n < 3; ++n)
            listener.emplace_back(new Listener<K>(&log, n));
        AddOnly<K> plain;
        manager.add_listener(&plain);
        int steps = c.integer(1, 30), added = 0;
        for (int k = 0; k < steps; ++k) {
            log.events.clear(), expect.events.clear();
            K key = c.pick<K>(keys);
            auto has = model.find(key);
            switch (c.integer(0, 5)) {
                case 0:
                case 1: {
                    typename O::sptr o =
                        std::make_shared<O>(key, "step " + std::to_string(k));
                    bool thrown = false;
                    try {
                        c.check(manager.add(o) == key, "add-result");
                    } catch (
                        const typename manager_template<O>::duplicate_key &) {
                        thrown = true;
                    }
                    c.equal(thrown, has != model.end(), "duplicate");
                    if (!thrown) {
                        model[key] = o, ++added;
                        for (int n : on) expect.events.emplace_back('a', key, n);
                    } else {
                        refused = true;
                    }
                    break;
                }
                case 2: {
                    bool ok = manager.remove(key);
                    c.equal(ok, has != model.end(), "remove-result");
                    if (ok) {
                        std::weak_ptr<O> weak(has->second);
                        model.erase(key);
                        c.check(weak.expired(), "removed-kept");
                        for (int n : on) expect.events.emplace_back('r', key, n);
                        removed = true;
                    } else {
                        refused = true;
                    }
                    break;
                }
                case 3: {
                    int n = c.integer(0, 2);
                    manager.add_listener(listener[n].get());
                    if (c.flip(0.3)) manager.add_listener(listener[n].get());
                    on.insert(n);
                    break;
                }
                case 4: {
                    int n = c.integer(0, 2);
                    manager.remove_listener(listener[n].get());
                    on.erase(n);
                    break;
                }
                default: {
                    // keys of objects elsewhere, which may be changed
                    typename O::sptr o = manager.find(key);
                    if (has != model.end()) c.check(o == has->second, "find");
                }
            }
            // any order among listeners
            auto a = log.events, b = expect.events;
            std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
            c.check(a == b, "notified", "listeners of step " +
                                            std::to_string(k));
            c.equal(plain.added, added, "notified", "count");
            for (const K &q : keys) {
                auto it = model.find(q);
                auto o = manager.find(q);
                c.check(o == (it == model.end() ? nullptr : it->second),
                        "find");
            }
            std::multiset<O *> all, want;
            for (auto &o : manager.list()) all.insert(o.get());
            for (auto &p : model) want.insert(p.second.get());
            c.check(all == want, "list");
            for (auto &p : model) {
                c.check(p.second->keyID() == p.first, "key");
                c.check(!p.second->description().empty(), "description");
            }
        }
    }
    // the manager has gone, objects live on as long as they are used
    c.equal(O::alive - before, (int)model.size(), "leak");
    model.clear();
    c.equal((int)O::alive, before, "leak");
    c.nontrivial(refused && removed);
}

LAW(P25, manager_history, 4000, 100000,
    "histories of up to 30 additions, removals, lookups and listener changes "
    "on a manager with integer or text keys, against a map: membership, "
    "results, notifications and lifetimes; non-trivial: something was refused "
    "and something removed") {
    if (c.flip())
        history<int>(c, {-5, 0, 1, 7, 1000000, 2});
    else
        history<std::string>(c, {"", "a", "A", "ab", "long name"});
}

class Counter : public update_listener<int> {
   public:
    std::vector<const int *> seen;
    void notify_update(const int *o) override { seen.push_back(o); }
};
LAW(P25, update_history, 3000, 80000,
    "histories of up to 30 listener changes and updates of a notifier: each "
    "listener is told once per update while it is registered; non-trivial: "
    "updates with and without some listener") {
    const int N = 4;
    update_notifier<int> notifier;
    Counter listener[N];
    std::set<int> on;
    std::vector<const int *> expect[N];
    int object[3] = {0, 1, 2};
    bool some = false, missed = false;
    int steps = c.integer(1, 30);
    for (int k = 0; k < steps; ++k) {
        int n = c.integer(0, N - 1), o = c.integer(0, 2);
        switch (c.integer(0, 3)) {
            case 0:
                notifier.add_listener(&listener[n]);
                on.insert(n);
                break;
            case 1:
                notifier.remove_listener(&listener[n]);
                on.erase(n);
                break;
            default:
                notifier.notify_update(&object[o]);
                for (int m : on) expect[m].push_back(&object[o]);
                some = some || !on.empty();
                missed = missed || on.size() < N;
        }
        for (int m = 0; m < N; ++m)
            c.check(listener[m].seen == expect[m], "notified",
                    "listener " + std::to_string(m));
    }
    c.nontrivial(some && missed);
}

LAW(P25, concurrent_manager, 300, 4000,
    "two to six threads that add, remove, find and list the same keys at "
    "once: for each key the successful additions and removals alternate, "
    "listeners are told of each, nothing is lost; non-trivial: ten or more "
    "operations per thread") {
    typedef Object<int> O;
    int T = c.integer(2, 6), N = c.integer(1, 60), K = c.integer(1, 5);
    manager_template<O> manager;
    struct Count : manager_listener<O> {
        mutable std::map<int, int> adds, removes;  // within the lock
        void notify_add(const O *o) const override { ++adds[o->keyID()]; }
        void notify_remove(int k) const override { ++removes[k]; }
    } count;
    manager.add_listener(&count);
    std::vector<std::vector<int>> script(T);
    for (auto &s : script)
        for (int n = 0; n < N; ++n) s.push_back(c.integer(0, 4 * K - 1));
    std::vector<std::map<int, int>> adds(T), removes(T);
    std::atomic<int> ready{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> threads;
    for (int t = 0; t < T; ++t)
        threads.emplace_back([&, t] {
            ++ready;
            while (ready < T) {
            }
            for (int op : script[t]) {
                int key = op % K;
                switch (op / K) {
                    case 0:
                        try {
                            manager.add(std::make_shared<O>(key, "x"));
                            ++adds[t][key];
                        } catch (const manager_template<O>::duplicate_key &) {
                        }
                        break;
                    case 1:
                        if (manager.remove(key)) ++removes[t][key];
                        break;
                    case 2: {
                        auto o = manager.find(key);
                        if (o && o->keyID() != key) bad = true;
                        break;
                    }
                    default: {
                        std::set<int> seen;
                        for (auto &o : manager.list())
                            if (!seen.insert(o->keyID()).second) bad = true;
                    }
                }
            }
        });
    for (auto &t : threads) t.join();
    c.check(!bad, "concurrent-read");
    for (int k = 0; k < K; ++k) {
        int a = 0, r = 0;
        for (int t = 0; t < T; ++t) a += adds[t][k], r += removes[t][k];
        int here = manager.find(k) ? 1 : 0;
        c.equal(a - r, here, "concurrent-count");
        c.equal(count.adds[k], a, "concurrent-notified");
        c.equal(count.removes[k], r, "concurrent-notified");
    }
    c.nontrivial(N >= 10);
}

//--------------------------------------------------------------------------
// platforms

struct Rot {
    Vec f, r, u;
};
static Rot model(double yaw, double pitch, double roll) {
    ref::real y = ref::rad(yaw), p = ref::rad(pitch), q = ref::rad(roll);
    using std::cos;
    using std::sin;
    Vec f(cos(p) * cos(y), cos(p) * sin(y), sin(p));
    Vec r0(-sin(y), cos(y), 0);
    Vec u0(-sin(p) * cos(y), -sin(p) * sin(y), cos(p));
    Rot m;
    m.f = f;
    m.r = r0 * cos(q) - u0 * sin(q);
    m.u = u0 * cos(q) + r0 * sin(q);
    return m;
}
static Vec apply(const Rot &m, const Vec &v) {
    return m.f * v.x + m.r * v.y + m.u * v.z;
}
static Rot compose(const Rot &a, const Rot &b) {
    Rot m;
    m.f = apply(a, b.f), m.r = apply(a, b.r), m.u = apply(a, b.u);
    return m;
}
static Vec vec(const boost::numeric::ublas::vector<double> &v) {
    return Vec(v(0), v(1), v(2));
}
static Vec place(const wposition1 &p) {
    return ref::sph((ref::real)p.rho(), (ref::real)p.theta(),
                     (ref::real)p.phi());
}
// point at a distance along local north, east and up
static Vec offset_place(const wposition1 &p, const Vec &neu) {
    ref::real st = std::sin((ref::real)p.theta()),
              ct = std::cos((ref::real)p.theta()),
              sp = std::sin((ref::real)p.phi()),
              cp = std::cos((ref::real)p.phi());
    Vec up(st * cp, st * sp, ct), east(-sp, cp, 0),
        north(-ct * cp, -ct * sp, st);
    return place(p) + north * neu.x + east * neu.y + up * neu.z;
}
static double gen_yaw(Case &c) {
    return c.real(-180.0, 180.0, {0.0, 90.0, -90.0, 180.0}, .25);
}
struct Motion {
    time_t time = 0;
    wposition1 pos;
    double yaw = 0, pitch = 0, roll = 0, speed = 0;
};
static Motion gen_motion(Case &c, double max_pitch = 80) {
    Motion m;
    m.time = c.integer(0, 100000);
    m.pos = wposition1(c.real(-75, 75, {0.0}),
                       c.real(-180, 180, {0.0, 180.0, 179.999}),
                       c.real(-5000, 100, {0.0}));
    m.yaw = gen_yaw(c);
    m.pitch = c.real(-max_pitch, max_pitch, {0.0}, 0.4);
    m.roll = c.real(-90, 90, {0.0}, 0.4);
    m.speed = c.real(-5, 30, {0.0});
    return m;
}
class Motions : public update_listener<platform_model> {
   public:
    int count = 0;
    void notify_update(const platform_model *) override { ++count; }
};

LAW(P25, platform_tree, 4000, 100000,
    "histories of up to 25 operations on up to seven platforms: attach, "
    "detach, refused attachments, moves, dead reckoning, destruction of "
    "hosts: children and hosts agree, positions and orientations of all "
    "generations follow; non-trivial: a grandchild moved") {
    const int N = 7;
    struct Node {
        platform_model::sptr p;
        int host = -1;
        uint64_t key = 0;
        Vec offset;      // relative to the host: front, right, up
        Rot turn, rot;   // relative, in the world
        Vec at;
        double slack = 0;  // error of flat geometry at the time of the update
        time_t time = 0;
        double speed = 0;
    };
    std::vector<Node> node(N);
    auto put = [&](Node &n, const Motion &m) {
        n.at = place(m.pos), n.rot = model(m.yaw, m.pitch, m.roll);
        n.time = m.time, n.speed = m.speed, n.slack = 0;
    };
    for (int n = 0; n < N; ++n) {
        Motion m = gen_motion(c);
        // some keys are equal, which only matters for a common host
        node[n].key = c.flip(0.2) ? 1 : n + 1;
        node[n].p = std::make_shared<platform_model>(
            node[n].key, "platform " + std::to_string(n), m.time, m.pos,
            orientation(m.yaw, m.pitch, m.roll), m.speed);
        put(node[n], m);
    }
    std::function<void(int)> follow = [&](int h) {
        for (auto &k : node)
            if (k.host == h && k.p) {
                Node &host = node[h];
                wposition1 at = host.p->position();
                Vec neu = apply(host.rot, k.offset);
                k.at = offset_place(at, neu);
                ref::real len = neu.norm();
                k.slack = (double)(len * len / 6.3e6 * 6) + 1e-5;
                k.rot = compose(host.rot, k.turn);
                k.time = host.time, k.speed = host.speed;
                follow((int)(&k - &node[0]));
            }
    };
    std::function<int(int)> depth = [&](int n) {
        return node[n].host < 0 ? 0 : 1 + depth(node[n].host);
    };
    auto above = [&](int n, int m) {  // m is n or one of its hosts
        while (n >= 0 && n != m) n = node[n].host;
        return n == m;
    };
    bool deep = false;
    int steps = c.integer(2, 25);
    for (int k = 0; k < steps; ++k) {
        int i = c.integer(0, N - 1), j = c.integer(0, N - 1);
        Node &a = node[i], &b = node[j];
        if (!a.p) continue;
        switch (c.integer(0, 7)) {
            case 0:
            case 1:
            case 2: {  // attach b to a
                if (!b.p || b.host >= 0 || above(i, j)) break;
                bool dup = false;
                for (auto &x : node)
                    if (x.p && x.host == i && x.key == b.key) dup = true;
                double far = c.pick<double>({0, 5, 100});
                Vec off(c.real(-far, far), c.real(-far, far),
                        c.real(-far, far));
                double y = gen_yaw(c), p = c.real(-80, 80, {0.0}),
                       r = c.real(-90, 90, {0.0});
                bool thrown = false;
                try {
                    auto key = a.p->add_child(
                        b.p, bvector((double)off.x, (double)off.y,
                                     (double)off.z),
                        orientation(y, p, r));
                    c.check(key == b.key, "add-child-result");
                } catch (const std::exception &) {
                    thrown = true;
                }
                c.equal(thrown, dup, "duplicate-child");
                if (thrown) break;
                b.host = i, b.offset = off, b.turn = model(y, p, r);
                follow(i);
                break;
            }
            case 3: {  // detach
                int child = -1;
                for (int x = 0; x < N; ++x)
                    if (node[x].p && node[x].host == i &&
                        node[x].key == b.key)
                        child = x;
                bool ok = a.p->remove_child(b.key);
                c.equal(ok, child >= 0, "remove-child-result");
                if (ok) node[child].host = -1;
                break;
            }
            case 4: {  // destroy a host, children stay
                if (!c.flip(0.3) || a.host >= 0) break;
                a.p.reset();
                for (auto &x : node)
                    if (x.host == i) x.host = -1;
                break;
            }
            case 5: {  // dead reckoning
                if (a.host >= 0) break;
                int dt = c.integer(0, 200);
                time_t when = a.time + dt;
                wposition1 was = a.p->position();
                a.p->update(when,
                            c.flip() ? platform_model::TEST_THRESHOLD
                                     : platform_model::FORCE_UPDATE);
                ref::real d = (ref::real)a.speed * dt;
                Vec expect = offset_place(was, a.rot.f * d);
                double slack = (double)(d * d / 6.3e6 * 6) + 1e-5;
                double miss = (double)(place(a.p->position()) - expect).norm();
                c.check(miss <= slack, "dead-reckoning",
                        "moved " + std::to_string((double)d) + " m, off by " +
                            std::to_string(miss));
                a.at = place(a.p->position());
                a.slack = 1e-5;
                a.time = when;
                follow(i);
                break;
            }
            default: {
                if (a.host >= 0) break;
                Motion m = gen_motion(c);
                platform_model::update_type_enum type =
                    c.pick<platform_model::update_type_enum>(
                        {platform_model::TEST_THRESHOLD,
                         platform_model::FORCE_UPDATE,
                         platform_model::NO_UPDATE});
                a.p->update(m.time, m.pos,
                            orientation(m.yaw, m.pitch, m.roll), m.speed, type);
                put(a, m);
                follow(i);
                for (int x = 0; x < N; ++x)
                    if (node[x].p && above(x, i) && depth(x) >= 2) deep = true;
            }
        }
        for (int n = 0; n < N; ++n) {
            Node &x = node[n];
            if (!x.p) continue;
            std::string who = "platform " + std::to_string(n) + " step " +
                              std::to_string(k);
            const platform_model *h =
                x.host < 0 ? nullptr : node[x.host].p.get();
            c.check(x.p->host() == h, "host", who);
            std::multiset<platform_model *> got, want;
            for (auto &kid : x.p->children()) got.insert(kid.get());
            for (auto &y : node)
                if (y.p && y.host == n) want.insert(y.p.get());
            c.check(got == want, "children", who);
            time_t time;
            wposition1 pos;
            orientation orient;
            double speed;
            x.p->get_motion(&time, &pos, &orient, &speed);
            c.check(time == x.time && time == x.p->time(), "time", who);
            c.check(speed == x.speed && speed == x.p->speed(), "speed", who);
            c.check((place(pos) - place(x.p->position())).norm() == 0,
                    "position", who);
            double miss = (double)(place(pos) - x.at).norm();
            c.check(miss <= x.slack + 1e-6, "position",
                    who + " off by " + std::to_string(miss) + " m");
            double e = (double)((vec(orient.front()) - x.rot.f).norm() +
                                (vec(orient.right()) - x.rot.r).norm() +
                                (vec(orient.up()) - x.rot.u).norm());
            c.check(e < 1e-6, "orientation",
                    who + " off by " + std::to_string(e));
        }
    }
    c.nontrivial(deep);
}

LAW(P25, moving_while_read, 200, 3000,
    "a platform with children and a grandchild moved by one thread while "
    "others read their motion: time, position, orientation and speed belong "
    "to the same update; non-trivial: 20 or more updates") {
    int Rd = c.integer(1, 4), N = c.integer(1, 80);
    auto host = std::make_shared<platform_model>(1, "host"),
         child = std::make_shared<platform_model>(2, "child"),
         grand = std::make_shared<platform_model>(3, "grandchild");
    host->add_child(child);
    child->add_child(grand);
    platform_model *all[3] = {host.get(), child.get(), grand.get()};
    auto move = [&](int k) {
        host->update(k, wposition1(0.5 * k, 0.25 * k), orientation(k, 0.0, 0.0),
                     2.0 * k);
    };
    move(0);
    std::atomic<bool> stop{false}, bad{false};
    std::vector<std::thread> threads;
    for (int r = 0; r < Rd; ++r)
        threads.emplace_back([&, r] {
            time_t last[3] = {0, 0, 0};
            while (!stop)
                for (int n = 0; n < 3; ++n) {
                    time_t t;
                    wposition1 p;
                    orientation o;
                    double s;
                    all[n]->get_motion(&t, &p, &o, &s);
                    if (t < last[n] || std::abs(p.latitude() - 0.5 * t) > 1e-6 ||
                        std::abs(p.longitude() - 0.25 * t) > 1e-6 ||
                        std::abs(o.yaw() - (double)t) > 1e-6 || s != 2.0 * t)
                        bad = true;
                    last[n] = t;
                    all[n]->children();
                }
        });
    for (int k = 1; k <= N; ++k) move(k);
    stop = true;
    for (auto &t : threads) t.join();
    c.check(!bad, "torn", "motion of two updates mixed");
    c.equal(grand->time(), (time_t)N, "time");
    c.nontrivial(N >= 20);
}

LAW(P25, platform_manager, 1500, 30000,
    "histories of up to 25 operations on the manager of all platforms, with "
    "given and automatic keys, and resets: keys are unique and found; "
    "non-trivial: automatic keys after given ones") {
    struct Listener : manager_listener<platform_model> {
        mutable std::vector<uint64_t> added, removed;
        void notify_add(const platform_model *p) const override {
            added.push_back(p->keyID());
        }
        void notify_remove(uint64_t k) const override { removed.push_back(k); }
    } listener;
    platform_manager::reset();
    platform_manager *m = platform_manager::instance();
    m->add_listener(&listener);
    std::map<uint64_t, platform_model::sptr> model;
    std::vector<uint64_t> added, removed;
    bool given = false, automatic = false;
    int steps = c.integer(1, 25);
    for (int k = 0; k < steps; ++k) {
        switch (c.integer(0, 4)) {
            case 0: {
                auto p = std::make_shared<platform_model>(0, "auto");
                auto key = m->add(p);
                c.check(key != 0 && key == p->keyID(), "auto-key");
                c.check(model.count(key) == 0, "auto-key-used");
                model[key] = p;
                added.push_back(key);
                automatic = automatic || given;
                break;
            }
            case 1:
            case 2: {
                uint64_t key = c.integer(1, 12);
                auto p = std::make_shared<platform_model>(key, "given");
                bool thrown = false;
                try {
                    c.check(m->add(p) == key, "add-result");
                } catch (
                    const manager_template<platform_model>::duplicate_key &) {
                    thrown = true;
                }
                c.equal(thrown, model.count(key) > 0, "duplicate");
                if (!thrown) model[key] = p, added.push_back(key);
                given = true;
                break;
            }
            case 3: {
                uint64_t key = c.integer(1, 14);
                c.equal(m->remove(key), model.erase(key) > 0, "remove-result");
                if (removed.size() < listener.removed.size())
                    removed.push_back(key);
                break;
            }
            default:
                if (c.flip(0.3)) {
                    platform_manager::reset();
                    m = platform_manager::instance();
                    m->add_listener(&listener);
                    model.clear();
                }
        }
        c.check(platform_manager::instance() == m, "two-managers");
        c.check(listener.added == added, "notified");
        c.check(listener.removed == removed, "notified");
        for (uint64_t q = 1; q < 40; ++q) {
            auto it = model.find(q);
            c.check(m->find(q) == (it == model.end() ? nullptr : it->second),
                    "find", std::to_string(q));
        }
        c.equal(m->list().size(), model.size(), "list");
    }
    platform_manager::reset();
    c.nontrivial(automatic);
}

LAW(P25, concurrent_platform_manager, 150, 2000,
    "two to six threads that ask for the manager of all platforms and add "
    "platforms with automatic keys to it: one manager, unique keys; "
    "non-trivial: always") {
    int T = c.integer(2, 6), N = c.integer(1, 20);
    platform_manager::reset();
    std::vector<std::vector<uint64_t>> keys(T);
    std::atomic<int> ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < T; ++t)
        threads.emplace_back([&, t] {
            ++ready;
            while (ready < T) {
            }
            for (int n = 0; n < N; ++n)
                keys[t].push_back(platform_manager::instance()->add(
                    std::make_shared<platform_model>(0, "auto")));
        });
    for (auto &t : threads) t.join();
    std::set<uint64_t> all;
    for (auto &l : keys)
        for (auto k : l) c.check(all.insert(k).second, "key-twice");
    c.equal(platform_manager::instance()->list().size(), (size_t)(T * N),
            "list");
    platform_manager::reset();
    c.nontrivial();
}
