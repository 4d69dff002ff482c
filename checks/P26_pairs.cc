// P26: the sensor manager pairs exactly the sensors that hear each other
#include <usml/beampatterns/bp_omni.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/platforms/platform_manager.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/thread_controller.h>
#include <usml/types/seq_linear.h>

#include <map>
#include <memory>
#include <set>
#include <thread>

#include "pbt.h"
#include "util.h"

using namespace usml::sensors;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::types;
using pbt::Case;

typedef uint64_t Key;
typedef std::pair<Key, Key> PairKey;

class Heard : public update_listener<sensor_pair> {
   public:
    std::multiset<std::string> keys;
    void notify_update(const sensor_pair *pair) override {
        keys.insert(pair->keyID());
    }
};

struct Role {
    bool source = false, receiver = false;
    uint64_t group = 0;
    double min_range = 0;
    bool reverb = false;
};

// what the manager should hold
struct Model {
    std::map<Key, Role> sensors;
    std::map<PairKey, std::set<int>> pairs;  // listeners of each

    static bool hears(Key a, const Role &src, Key b, const Role &rcv) {
        if (!src.source || !rcv.receiver) return false;
        if (a == b) return src.min_range < 1e-6;
        return src.group > 0 && src.group == rcv.group;
    }
    void add(Key k, const Role &r, int listener) {
        sensors[k] = r;
        for (auto &s : sensors) {
            for (PairKey p : {PairKey(k, s.first), PairKey(s.first, k)}) {
                if (!hears(p.first, sensors[p.first], p.second,
                           sensors[p.second]))
                    continue;
                pairs[p];
                if (listener >= 0) pairs[p].insert(listener);
            }
        }
    }
    void remove(Key k) {
        sensors.erase(k);
        for (auto p = pairs.begin(); p != pairs.end();) {
            if (p->first.first == k || p->first.second == k)
                p = pairs.erase(p);
            else
                ++p;
        }
    }
};

static std::string name(const PairKey &p) {
    return std::to_string(p.first) + "_" + std::to_string(p.second);
}

static void compare(Case &c, const Model &m, const std::vector<Key> &keys,
                    const std::map<Key, sensor_model::sptr> &object) {
    auto *mgr = sensor_manager::instance();
    std::map<PairKey, sensor_pair::sptr> found;
    auto list = mgr->list();
    for (auto &p : list) {
        c.check(p != nullptr, "pair-null");
        PairKey k(p->source()->keyID(), p->receiver()->keyID());
        c.check(found.count(k) == 0, "pair-twice", name(k));
        c.check(m.pairs.count(k) > 0, "pair-extra", name(k));
        found[k] = p;
        c.check(p->source() == object.at(k.first), "pair-source", name(k));
        c.check(p->receiver() == object.at(k.second), "pair-receiver", name(k));
        c.equal(p->keyID(), name(k), "pair-key");
        c.equal(p->hash_key(), name(k), "pair-key");
        c.equal(p->keyID(), sensor_pair::generate_hash_key(k.first, k.second),
                "pair-key");
        c.check(mgr->find(name(k)) == p, "find-key", name(k));
        c.equal(p->compute_reverb(),
                m.sensors.at(k.first).reverb && m.sensors.at(k.second).reverb,
                "pair-reverb");
        c.check(p->complement(object.at(k.first)) == object.at(k.second),
                "complement");
        c.check(p->complement(object.at(k.second)) == object.at(k.first),
                "complement");
    }
    for (auto &p : m.pairs)
        c.check(found.count(p.first) > 0, "pair-missing", name(p.first));
    // searches, also for keys that are not there
    for (Key k : keys) {
        std::multiset<std::string> s, r, es, er;
        for (auto &p : mgr->find_source(k)) s.insert(p->keyID());
        for (auto &p : mgr->find_receiver(k)) r.insert(p->keyID());
        for (auto &p : m.pairs) {
            if (p.first.first == k) es.insert(name(p.first));
            if (p.first.second == k) er.insert(name(p.first));
        }
        c.check(s == es, "find-source", std::to_string(k));
        c.check(r == er, "find-receiver", std::to_string(k));
        auto sensor = sensor_manager::find_sensor(k);
        if (m.sensors.count(k))
            c.check(sensor == object.at(k), "find-sensor", std::to_string(k));
        else
            c.check(sensor == nullptr, "find-sensor", std::to_string(k));
        for (Key j : keys)
            c.equal(mgr->find(name(PairKey(k, j))) != nullptr,
                    m.pairs.count(PairKey(k, j)) > 0, "find-key");
    }
}

LAW(P26, pair_history, 4000, 80000,
    "history of up to 30 additions, removals, duplicate or incomplete "
    "additions and new results for up to 8 sensors with random roles, groups, "
    "blind zones and keys, against a model of the pairing rules; non-trivial "
    "if at least 3 pairs existed and at least one sensor with a bistatic pair "
    "was removed") {
    sensor_manager::reset();
    seq_vector::csptr freq(new seq_linear(900.0, 100.0, 3));
    int num = c.integer(2, 8);
    // keys whose digits are easily mixed up
    std::vector<Key> pool = {1, 2, 3, 11, 12, 21, 112, 211, 23, 22,
                             4000000000ull, 9223372036854775807ull,
                             18446744073709551615ull};
    std::vector<Key> keys;
    for (int n = 0; n < num; ++n) {
        size_t k = c.below(pool.size());
        keys.push_back(pool[k]);
        pool.erase(pool.begin() + k);
    }
    c.notev("keys", keys, keys.size());
    Model m;
    std::map<Key, sensor_model::sptr> object;
    Heard heard[2];
    size_t most = 0;
    bool bistatic_removed = false;
    auto make = [&](Key k, Role &r) {
        sensor_model::sptr s(
            new sensor_model(k, "sensor " + std::to_string(k), 0,
                             wposition1(30.0 + c.real(0, 1), 10.0, -100.0)));
        int kind = c.integer(0, 7);
        r.source = kind == 0 || kind >= 3;
        r.receiver = kind == 1 || kind >= 3;
        r.group = c.pick<uint64_t>({1, 0, 2, 1, 1, 18446744073709551615ull});
        r.min_range = c.pick<double>({0.0, 0.0, 0.0, 1e-3, 1.0, 500.0});
        r.reverb = c.flip(0.3);
        if (r.source) {
            int beams = c.integer(1, 2);
            for (int b = 0; b < beams; ++b)
                s->src_beam(b * 3, bp_model::csptr(new bp_omni()));
        }
        if (r.receiver) s->rcv_beam(2, bp_model::csptr(new bp_omni()));
        s->multistatic(r.group);
        s->min_range(r.min_range);
        s->compute_reverb(r.reverb);
        s->time_maximum(10.0);
        return s;
    };
    auto *mgr = sensor_manager::instance();
    if (c.flip(0.2)) {  // frequencies not known yet
        Role r;
        auto s = make(keys[0], r);
        c.throws([&] { mgr->add_sensor(s, &heard[0]); }, "no-frequencies");
        compare(c, m, keys, object);
        c.check(platform_manager::instance()->list().empty(), "platform-left");
    }
    mgr->frequencies(freq);
    c.check(mgr->frequencies() == freq, "frequencies");
    int steps = c.integer(1, 30);
    for (int n = 0; n < steps; ++n) {
        Key k = c.pick<Key>(keys);
        int op = c.integer(0, 6);
        bool has = m.sensors.count(k) > 0;
        if (op <= 2 && !has) {
            Role r;
            auto s = make(k, r);
            int listener = c.integer(-1, 1);
            mgr->add_sensor(s, listener < 0 ? nullptr : &heard[listener]);
            object[k] = s;
            m.add(k, r, listener);
        } else if (op == 2) {  // again
            Role r;
            auto s = make(k, r);
            c.throws([&] { mgr->add_sensor(s, &heard[0]); }, "duplicate");
        } else if (op == 3 && !has) {  // incomplete
            Role r;
            auto s = make(k, r);
            s->time_maximum(0.0);
            c.throws([&] { mgr->add_sensor(s, &heard[0]); }, "no-time");
        } else if (op == 3 || op == 4) {
            if (has) {
                auto s = object[k];
                for (auto &p : m.pairs)
                    if (p.first.first != p.first.second &&
                        (p.first.first == k || p.first.second == k))
                        bistatic_removed = true;
                mgr->remove_sensor(s, c.flip() ? &heard[0] : nullptr);
                m.remove(k);
                object.erase(k);
                // nothing else refers to the sensor
                c.equal(s.use_count(), 1L, "sensor-kept");
            } else {
                Role r;
                auto s = make(k, r);
                mgr->remove_sensor(s, &heard[1]);
            }
        } else if (has && op >= 5) {
            // new results of one sensor reach its pairs
            auto s = object[k];
            wposition tpos(num, 1);
            boost::numeric::ublas::matrix<uint64_t> ids(num, 1);
            for (int i = 0; i < num; ++i) {
                tpos.latitude(i, 0, 30.0), tpos.longitude(i, 0, 10.0);
                tpos.altitude(i, 0, -10.0 * i);
                ids(i, 0) = keys[i];
            }
            eigenray_collection::csptr rays(new eigenray_collection(
                freq, s->position(), tpos, k, ids));
            eigenverb_collection::csptr verbs(new eigenverb_collection(0));
            heard[0].keys.clear(), heard[1].keys.clear();
            // those that compute reverberation report later, in their own time
            bool later = false;
            std::multiset<std::string> expect[2];
            std::set<PairKey> involved;
            for (auto &p : m.pairs) {
                if (p.first.first != k && p.first.second != k) continue;
                involved.insert(p.first);
                if (m.sensors[p.first.first].reverb &&
                    m.sensors[p.first.second].reverb) {
                    later = true;
                    continue;
                }
                for (int l : p.second) expect[l].insert(name(p.first));
            }
            if (later) continue;
            std::map<PairKey, eigenray_collection::csptr> old;
            for (auto &p : m.pairs)
                old[p.first] = mgr->find(name(p.first))->dirpaths();
            s->notify_wavefront_listeners(s.get(), rays, verbs);
            for (int l = 0; l < 2; ++l)
                c.check(heard[l].keys == expect[l], "notified");
            for (auto &p : m.pairs) {
                auto now = mgr->find(name(p.first))->dirpaths();
                if (!involved.count(p.first)) {
                    c.check(now == old[p.first], "other-pair-changed");
                    continue;
                }
                c.check(now != nullptr && now != old[p.first], "not-updated");
                c.equal(now->size1() * now->size2(), (size_t)1, "dirpath-size");
            }
        }
        most = std::max(most, m.pairs.size());
        compare(c, m, keys, object);
        c.equal(platform_manager::instance()->list().size(), m.sensors.size(),
                "platforms");
    }
    c.nontrivial(most >= 3 && bistatic_removed);
    if (c.flip()) {
        mgr = nullptr;
        sensor_manager::reset();
        c.check(sensor_manager::instance()->list().empty(), "reset");
        c.check(platform_manager::instance()->list().empty(), "reset");
        c.check(sensor_manager::instance()->frequencies() == nullptr, "reset");
        m = Model();
        for (auto &o : object)
            c.equal(o.second.use_count(), 1L, "sensor-kept");
        object.clear();
        compare(c, m, keys, object);
    }
    sensor_manager::reset();
}

// order of additions does not matter
LAW(P26, any_order, 1500, 30000,
    "the same sensors are added in two random orders, with some removed and "
    "re-added in between, the resulting pairs must be the same; non-trivial if "
    "there are at least two bistatic pairs") {
    seq_vector::csptr freq(new seq_linear(900.0, 100.0, 3));
    int num = c.integer(2, 10);
    std::vector<Role> role(num);
    for (auto &r : role) {
        int kind = c.integer(0, 4);
        r.source = kind != 1, r.receiver = kind != 0;
        r.group = c.pick<uint64_t>({1, 2, 0, 1});
        r.min_range = c.pick<double>({0.0, 10.0});
    }
    std::set<std::string> result[2];
    Model m;
    for (int n = 0; n < num; ++n) m.add(n + 1, role[n], -1);
    for (int run = 0; run < 2; ++run) {
        sensor_manager::reset();
        auto *mgr = sensor_manager::instance();
        mgr->frequencies(freq);
        std::vector<sensor_model::sptr> s;
        std::vector<int> order;
        for (int n = 0; n < num; ++n) {
            s.push_back(sensor_model::sptr(new sensor_model(n + 1, "s")));
            if (role[n].source)
                s[n]->src_beam(0, bp_model::csptr(new bp_omni()));
            if (role[n].receiver)
                s[n]->rcv_beam(0, bp_model::csptr(new bp_omni()));
            s[n]->multistatic(role[n].group);
            s[n]->min_range(role[n].min_range);
            s[n]->time_maximum(1.0);
            order.insert(order.begin() + c.below(order.size() + 1), n);
        }
        for (int n : order) {
            mgr->add_sensor(s[n]);
            if (c.flip(0.3)) {
                int again = order[c.below(num)];
                if (sensor_manager::find_sensor(again + 1) != nullptr) {
                    mgr->remove_sensor(s[again]);
                    mgr->add_sensor(s[again]);
                }
            }
        }
        for (auto &p : mgr->list()) result[run].insert(p->keyID());
    }
    c.check(result[0] == result[1], "order");
    std::set<std::string> expect;
    int bistatic = 0;
    for (auto &p : m.pairs) {
        expect.insert(name(p.first));
        bistatic += p.first.first != p.first.second;
    }
    c.check(result[0] == expect, "pairs");
    c.nontrivial(bistatic >= 2);
    sensor_manager::reset();
}
