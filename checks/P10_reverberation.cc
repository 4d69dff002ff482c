// P10: reverberation time series is the sum of its bistatic contributions
#include <usml/biverbs/biverbs.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/transmit/transmit.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>

#include <iostream>
#include <map>
#include <netcdf>
#include <sstream>

#include "pbt.h"
#include "util.h"

using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::transmit;
using namespace usml::types;
using pbt::Case;
typedef long double R;
typedef boost::numeric::ublas::vector<double> dvec;
typedef boost::numeric::ublas::matrix<double> dmat;

// a beam whose level depends on everything it is told, power between 0 and 1
class Odd : public bp_model {
   public:
    double salt;
    bool deaf;  // no level behind it
    Odd(double s, bool d) : salt(s), deaf(d) {}
    R value(const R v[3], const R s[3], R f) const {
        if (deaf && v[0] < 0) return 0;
        R x = sinl(3 * v[0] + 2 * v[1] - v[2] + salt) * cosl(v[0] * s[1] - v[1] * s[0] + v[2] * s[2]) *
              cosl(f * 0.01L + salt);
        return 0.55L + 0.45L * x;
    }
    void beam_level(const bvector &arrival, const seq_vector::csptr &f, dvec *level, const bvector &steering,
                    double) const override {
        R v[3] = {arrival.front(), arrival.right(), arrival.up()};
        R s[3] = {steering.front(), steering.right(), steering.up()};
        level->resize(f->size());
        for (size_t k = 0; k < f->size(); ++k) (*level)(k) = (double)value(v, s, (*f)(k));
    }
};
typedef std::shared_ptr<Odd> OddPtr;

// direction (radians) in the coordinates of a body
static void into_body(R de, R az, const orientation &orient, R out[3]) {
    R v[3] = {cosl(de) * cosl(az), cosl(de) * sinl(az), sinl(de)};
    dmat m = orient.rotation();
    for (int i = 0; i < 3; ++i) {
        out[i] = 0;
        for (int k = 0; k < 3; ++k) out[i] += (R)m(k, i) * v[k];
    }
}

static std::shared_ptr<biverb_model> gen_biverb(Case &c, const seq_vector::csptr &f, double latest) {
    std::shared_ptr<biverb_model> v(new biverb_model());
    v->travel_time = c.real(0, latest * 1.2);
    v->frequencies = f;
    v->power.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) v->power(k) = c.logreal(1e-12, 1e3);
    if (c.flip(0.05)) v->power *= 1e-25;
    v->duration = c.logreal(0.005, 2);
    v->source_de = c.real(-1.57, 1.57), v->source_az = c.real(-M_PI, 2 * M_PI);
    v->receiver_de = c.real(-1.57, 1.57), v->receiver_az = c.real(-M_PI, 2 * M_PI);
    v->de_index = v->az_index = 0;
    return v;
}
static seq_vector::csptr gen_freq(Case &c) {
    int n = c.integer(1, 4);
    std::vector<double> f;
    double x = c.real(100, 1000);
    for (int i = 0; i < n; ++i) f.push_back(x), x *= c.real(1.02, 2);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}
static std::shared_ptr<transmit_model> gen_transmit(Case &c, const seq_vector::csptr &f, const std::vector<int> &modes) {
    double lo = (*f)(0), hi = (*f)(f->size() - 1);
    double fc = c.real(lo * 0.8, hi * 1.2, {lo, hi});
    double duration = c.logreal(0.005, 3), delay = c.real(0, 3, {0.0}), level = c.logreal(1e-3, 1e6);
    double az = c.real(-180, 360, {0.0}), de = c.real(-90, 90, {0.0});
    int mode = c.pick<int>(modes);
    if (c.flip())
        return std::shared_ptr<transmit_model>(new transmit_cw("CW", duration, fc, delay, level, window::type::BOXCAR, 0.0, az, de, mode));
    return std::shared_ptr<transmit_model>(
        new transmit_lfm("LFM", duration, fc * 0.1, fc, delay, level, window::type::BOXCAR, 0.0, az, de, mode));
}

static R power_at(const biverb_model &v, R f) {
    const seq_vector &a = *v.frequencies;
    size_t n = a.size();
    if (f <= a(0)) return v.power(0);
    for (size_t k = 1; k < n; ++k)
        if (f <= a(k)) {
            R u = (f - a(k - 1)) / ((R)a(k) - a(k - 1));
            return u * v.power(k) + (1 - u) * v.power(k - 1);
        }
    return v.power(n - 1);
}

struct Series {
    std::vector<std::vector<R>> value, slack;
    bool unclear = false;  // next to a threshold
    Series(size_t channels, size_t times) : value(channels, std::vector<R>(times, 0)), slack(value) {}
};

struct Ears {
    OddPtr beam;
    R steer[3];
};

// adds one contribution
static R contribute(Series &s, const biverb_model &v, const transmit_model &t, const Odd &src_beam,
                    const orientation &src_orient, const R steer[3], const std::map<int, Ears> &ears,
                    const orientation &rcv_orient, const seq_vector &times, R start, size_t *added) {
    R T = (R)v.duration + t.duration, peak = start + t.delay + v.travel_time + T;
    R body[3], limit = rvbts_collection::power_threshold, first = 0;
    into_body(v.source_de, v.source_az, src_orient, body);
    R src = t.source_level * src_beam.value(body, steer, t.fcenter);
    if (fabsl(src / limit - 1) < 1e-6L) s.unclear = true;
    if (src < limit) return 0;
    R energy = power_at(v, t.fcenter) * t.duration;
    size_t row = 0;
    for (auto &e : ears) {
        into_body(v.receiver_de, v.receiver_az, rcv_orient, body);
        R level = src * energy * e.second.beam->value(body, e.second.steer, t.fcenter);
        if (fabsl(level / limit - 1) < 1e-6L) s.unclear = true;
        if (level >= limit) {
            ++*added;
            if (row == 0) first = level;
            for (size_t k = 0; k < times.size(); ++k) {
                R x = (times(k) - peak) / T;
                R g = level * expl(-0.5L * x * x) / (T * sqrtl(2 * ref::PI));
                s.value[row][k] += g;
                // envelopes end some five durations from their peaks
                s.slack[row][k] += fabsl(x) > 4.999L ? g + 1e-300L : g * (1e-10L + 1e-13L * x * x);
            }
        }
        ++row;
    }
    return first;
}

static void compare(Case &c, const rvbts_collection &got, const Series &s, const char *key) {
    const dmat &m = got.time_series();
    c.equal(m.size1(), s.value.size(), "channels");
    for (size_t r = 0; r < m.size1(); ++r) {
        c.equal(m.size2(), s.value[r].size(), "times");
        for (size_t k = 0; k < m.size2(); ++k) {
            c.check(m(r, k) >= 0, "negative");
            c.close(m(r, k), (double)s.value[r][k], (double)s.slack[r][k] + 1e-250, 1e-10, key);
        }
    }
}

struct Station {
    sensor_model::sptr source, receiver;
    std::map<int, OddPtr> src_beams;
    std::map<int, Ears> ears;
    std::vector<int> modes;
};
static orientation gen_orient(Case &c) {
    return orientation(c.real(-180, 180, {0.0, 90.0}), c.real(-80, 80, {0.0}), c.real(-180, 180, {0.0}));
}
static Station gen_station(Case &c) {
    Station s;
    std::vector<int> keys = {0, 1, 2, 7, 100, -3};
    s.source.reset(new sensor_model(c.integer(1, 5), "source", 0, wposition1(c.real(-80, 80), c.real(-170, 170), -c.real(0, 500)),
                                    gen_orient(c), c.real(0, 10)));
    s.receiver.reset(new sensor_model(c.integer(6, 9), "receiver", 0,
                                      wposition1(c.real(-80, 80), c.real(-170, 170), -c.real(0, 500)), gen_orient(c), c.real(0, 10)));
    int beams = c.integer(1, 3);
    for (int i = 0; i < beams; ++i) {
        int key = c.pick<int>(keys);
        OddPtr b(new Odd(c.real(0, 6), c.flip(0.3)));
        if (!s.src_beams.count(key)) s.modes.push_back(key);
        s.src_beams[key] = b;
        s.source->src_beam(key, b);
    }
    int channels = c.integer(1, 5);
    for (int i = 0; i < channels; ++i) {
        int key = c.pick<int>(keys);
        Ears e;
        e.beam.reset(new Odd(c.real(0, 6), c.flip(0.3)));
        bvector st(c.real(-90, 90, {0.0}), c.real(-180, 180, {0.0}));
        s.receiver->rcv_beam(key, e.beam, st);
        if (c.flip(0.2)) {
            st = bvector(c.real(-90, 90), c.real(-180, 180));
            s.receiver->rcv_steering(key, st);
        }
        e.steer[0] = st.front(), e.steer[1] = st.right(), e.steer[2] = st.up();
        s.ears[key] = e;
    }
    c.note("modes", s.modes.size()), c.note("channels", s.ears.size());
    return s;
}
static seq_vector::csptr gen_times(Case &c) {
    double from = c.real(0, 3, {0.0}), step = c.logreal(0.005, 1);
    int n = c.integer(1, 120);
    if (c.flip(0.7) || n < 3) return seq_vector::csptr(new seq_linear(from, step, (size_t)n));
    std::vector<double> t;
    for (int i = 0; i < n; ++i) t.push_back(from), from += step * c.real(0.3, 2);
    return seq_vector::csptr(new seq_data(t.data(), t.size()));
}

LAW(P10, contributions, 4000, 120000,
    "up to 20 contributions (any directions, levels, frequencies inside and "
    "outside of the tabulated ones, times before, in and after the series) of "
    "sensors with 1-3 transmit modes and 1-5 channels with keys in any order, any "
    "orientations and steerings: every channel and time is the sum of their "
    "Gaussians, also when the channel is the only one, and zero without any; "
    "non-trivial: three contributions or more reach a channel") {
    Station s = gen_station(c);
    auto f = gen_freq(c);
    auto times = gen_times(c);
    double latest = (*times)(times->size() - 1);
    auto make = [&](const sensor_model::sptr &receiver) {
        return std::shared_ptr<rvbts_collection>(new rvbts_collection(
            s.source, s.source->position(), s.source->orient(), s.source->speed(), receiver, receiver->position(),
            s.receiver->orient(), receiver->speed(), times));
    };
    // other values than zero are likely to lie where it is made
    { std::vector<double> dirt(times->size() * s.ears.size(), 1e30); c.check(dirt[0] > 0, "dirt"); }
    auto made = make(s.receiver);
    Series sum(s.ears.size(), times->size());
    compare(c, *made, sum, "empty");
    int only = s.ears.begin()->first;
    for (auto &e : s.ears)
        if (c.flip(0.3)) only = e.first;
    size_t only_row = std::distance(s.ears.begin(), s.ears.find(only));
    sensor_model::sptr single(new sensor_model(77, "single", 0, s.receiver->position(), s.receiver->orient(), 0));
    auto &ear = s.ears[only];
    single->rcv_beam(only, ear.beam, s.receiver->rcv_steering(only));
    auto alone = make(single);
    int n = c.integer(0, 20);
    size_t added = 0;
    c.note("times", times->size()), c.note("contributions", n), c.note("frequencies", f->size());
    for (int i = 0; i < n; ++i) {
        auto v = gen_biverb(c, f, latest);
        auto t = gen_transmit(c, f, s.modes);
        bvector st(c.real(-90, 90, {0.0}), c.real(-180, 180, {0.0}));
        R steer[3] = {st.front(), st.right(), st.up()};
        made->add_biverb(v, t, st);
        alone->add_biverb(v, t, st);
        size_t before = added;
        R level = contribute(sum, *v, *t, *s.src_beams[t->transmit_mode], s.source->orient(), steer, s.ears,
                             s.receiver->orient(), *times, 0, &added);
        // the area of a lone envelope is its energy
        R T = (R)v->duration + t->duration, peak = t->delay + v->travel_time + T;
        if (i == 0 && added > before && level > 0 && times->size() > 2 && dynamic_cast<const seq_linear *>(times.get()) &&
            peak - 6 * T > (*times)(0) && peak + 6 * T < latest && times->increment(0) < 0.4 * T) {
            R area = 0;
            for (size_t k = 0; k < times->size(); ++k) area += made->time_series()(0, k) * times->increment(0);
            c.close((double)area, (double)level, 0, 1e-5, "area");
            c.label("area");
        }
    }
    if (sum.unclear) c.discard();
    compare(c, *made, sum, "sum");
    c.equal(alone->time_series().size1(), (size_t)1, "channels");
    for (size_t k = 0; k < times->size(); ++k)
        c.close(alone->time_series()(0, k), made->time_series()(only_row, k), 1e-300, 1e-12, "channel-alone");
    c.nontrivial(added >= 3);
}

LAW(P10, generator, 1200, 30000,
    "the background task of a pair with 0-3 scheduled pulses, 0-2 volume layers, "
    "sources with 0-2 hosts in any orientation: its series is the sum over all "
    "contributions and pulses, steered from the host into the array, each pulse "
    "after the ones before, and goes to the pair with the state of both sensors when it was made, "
    "even if they move on before it runs; non-trivial: two pulses or more") {
    sensor_manager::reset();
    Station s = gen_station(c);
    auto f = gen_freq(c);
    // hosts
    std::vector<platform_model::sptr> hosts;
    int levels = c.integer(0, 2);
    for (int i = 0; i < levels; ++i) {
        platform_model::sptr h(new platform_model(100 + i, "host"));
        if (i == 0)
            h->add_child(s.source, bvector(0.0, 0.0, 0.0), gen_orient(c));
        else
            h->add_child(hosts.back(), bvector(0.0, 0.0, 0.0), gen_orient(c));
        hosts.push_back(h);
    }
    if (levels)
        hosts.back()->update(0, wposition1(10, 20, -30), gen_orient(c), 1.0, platform_model::NO_UPDATE);
    auto move = [&](const sensor_model::sptr &x, const orientation &o) {
        x->update(0, wposition1(c.real(-60, 60), c.real(-170, 170), -c.real(1, 500)), o, c.real(0, 15),
                  platform_model::NO_UPDATE);
    };
    bool one = s.source == s.receiver;
    if (!levels) move(s.source, s.source->orient());
    if (!one) move(s.receiver, s.receiver->orient());
    double last = c.real(1, 20), step = c.real(0.05, 0.5);
    s.receiver->time_minimum(c.real(0, 0.9, {0.0})), s.receiver->time_maximum(last);
    transmit_list schedule;
    int pulses = c.integer(0, 3);
    for (int i = 0; i < pulses; ++i) schedule.push_back(gen_transmit(c, f, s.modes));
    s.source->transmit_schedule(schedule);
    sensor_pair::sptr pair(new sensor_pair(s.source, s.receiver));
    // contributions by way of overlapping patches
    size_t volumes = c.integer(0, 2);
    auto *verbs = new biverb_collection(volumes);
    biverb_collection::csptr keep(verbs);
    int count = c.integer(0, 8);
    for (int i = 0; i < count; ++i) {
        eigenverb_model::csptr e[2];
        for (auto &x : e) {
            x.reset(new eigenverb_model());
            x->travel_time = c.real(0, last / 2), x->frequencies = f;
            x->power = boost::numeric::ublas::scalar_vector<double>(f->size(), c.logreal(1, 1e4));
            x->length = c.logreal(30, 3000), x->width = c.logreal(30, 3000);
            x->position = wposition1(12, 34, -1000), x->direction = c.real(0, 6), x->grazing = c.real(0.1, 1.5);
            x->sound_speed = 1500, x->de_index = x->az_index = 0;
            x->source_de = c.real(-1.57, 1.57), x->source_az = c.real(-3, 6);
            x->surface = x->bottom = x->caustic = x->upper = x->lower = 0;
        }
        dvec scatter(f->size());
        for (size_t k = 0; k < f->size(); ++k) scatter(k) = c.logreal(1e-6, 1);
        verbs->add_biverb(e[0], e[1], scatter, c.integer(0, verbs->num_interfaces() - 1));
    }
    std::ostringstream quiet;
    auto *old = std::cout.rdbuf(quiet.rdbuf());
    bool abort = c.flip(0.1), done;
    auto before = pair->rvbts();
    wposition1 source_pos = s.source->position(), receiver_pos = s.receiver->position();
    orientation source_orient = s.source->orient(), receiver_orient = s.receiver->orient();
    double source_speed = s.source->speed(), receiver_speed = s.receiver->speed();
    dmat host;
    if (levels) host = hosts.back()->orient().rotation();
    {
        rvbts_generator task(pair, s.source, s.receiver, step, keep);
        if (abort) task.abort();
        if (c.flip(0.3)) {  // the sensors and their host go on
            if (levels)
                hosts.back()->update(1, wposition1(11, 21, -40), gen_orient(c), 2.0, platform_model::NO_UPDATE);
            move(s.source, gen_orient(c));
            move(s.receiver, gen_orient(c));
            c.label("moved on");
        }
        task.run();
        done = task.done();
    }
    std::cout.rdbuf(old);
    auto got = pair->rvbts();
    c.note("pulses", pulses), c.note("paths", count), c.note("hosts", levels);
    if (abort) {
        c.check(got == before, "aborted");
        c.label("aborted");
        sensor_manager::reset();
        return;
    }
    c.check(done && got != nullptr, "delivered");
    seq_linear times(s.receiver->time_minimum(), step, s.receiver->time_maximum());
    c.equal(got->travel_times()->size(), times.size(), "times");
    for (size_t k = 0; k < times.size(); ++k) c.close((*got->travel_times())(k), times(k), 1e-12, 1e-12, "times");
    c.check(got->source() == s.source && got->receiver() == s.receiver, "sensors");
    auto same = [&](const wposition1 &a, const wposition1 &b, const orientation &p, const orientation &q, double u,
                    double v, const char *who) {
        c.close(a.latitude(), b.latitude(), 1e-9, 0, "state", who);
        c.close(a.longitude(), b.longitude(), 1e-9, 0, "state", who);
        c.close(a.altitude(), b.altitude(), 1e-6, 0, "state", who);
        dmat x = p.rotation(), y = q.rotation();
        for (int i = 0; i < 9; ++i) c.close(x(i / 3, i % 3), y(i / 3, i % 3), 1e-12, 0, "state", who);
        c.equal(u, v, "state", who);
    };
    same(got->source_pos(), source_pos, got->source_orient(), source_orient, got->source_speed(), source_speed, "source");
    same(got->receiver_pos(), receiver_pos, got->receiver_orient(), receiver_orient, got->receiver_speed(),
         receiver_speed, "receiver");
    Series sum(s.ears.size(), times.size());
    size_t added = 0;
    for (size_t at = 0; at < keep->num_interfaces(); ++at)
        for (auto &v : keep->biverbs(at)) {
            R start = 0;
            for (auto &t : schedule) {
                R de = ref::rad(t->orderedDE), az = ref::rad(t->orderedAZ);
                R ordered[3] = {cosl(de) * cosl(az), cosl(de) * sinl(az), sinl(de)}, steer[3];
                if (levels) {  // of the outermost host, to the array
                    dmat &h = host, a = source_orient.rotation();
                    R world[3];
                    for (int i = 0; i < 3; ++i) {
                        world[i] = 0;
                        for (int k = 0; k < 3; ++k) world[i] += (R)h(i, k) * ordered[k];
                    }
                    for (int i = 0; i < 3; ++i) {
                        steer[i] = 0;
                        for (int k = 0; k < 3; ++k) steer[i] += (R)a(k, i) * world[k];
                    }
                } else {
                    for (int i = 0; i < 3; ++i) steer[i] = ordered[i];
                }
                contribute(sum, *v, *t, *s.src_beams[t->transmit_mode], source_orient, steer, s.ears,
                           receiver_orient, times, start, &added);
                start += (R)t->delay + t->duration;
            }
        }
    if (!sum.unclear) compare(c, *got, sum, "generated");
    c.nontrivial(pulses >= 2 && added >= 2);
    pair.reset();
    sensor_manager::reset();
}

LAW(P10, file, 400, 8000,
    "series written to a file: times, channels, values and the state of both "
    "sensors at the time the series was made; non-trivial: two channels or more") {
    Station s = gen_station(c);
    auto f = gen_freq(c);
    auto times = gen_times(c);
    wposition1 sp(c.real(-80, 80), c.real(-170, 170), -c.real(0, 500)), rp(c.real(-80, 80), c.real(-170, 170), -c.real(0, 500));
    double sa[3], ra[3];
    for (auto *a : {sa, ra}) a[0] = c.real(-179, 179), a[1] = c.real(-80, 80), a[2] = c.real(-179, 179);
    double ss = c.real(0, 20), rs = c.real(0, 20);
    rvbts_collection made(s.source, sp, orientation(sa[0], sa[1], sa[2]), ss, s.receiver, rp,
                          orientation(ra[0], ra[1], ra[2]), rs, times);
    int n = c.integer(0, 5);
    for (int i = 0; i < n; ++i)
        made.add_biverb(gen_biverb(c, f, (*times)(times->size() - 1)), gen_transmit(c, f, s.modes),
                        bvector(c.real(-90, 90), c.real(-180, 180)));
    std::string name = pbt::scratch_dir() + "/rvbts.nc";
    made.write_netcdf(name.c_str());
    netCDF::NcFile file(name.c_str(), netCDF::NcFile::read);
    size_t rows = made.time_series().size1(), cols = times->size();
    c.equal(file.getDim("channels").getSize(), rows, "file-channels");
    c.equal(file.getDim("travel_time").getSize(), cols, "file-times");
    auto one = [&](const char *what) {
        double v;
        file.getVar(what).getVar(&v);
        return v;
    };
    auto id = [&](const char *what) {
        unsigned long long v;
        file.getVar(what).getVar(&v);
        return (uint64_t)v;
    };
    c.equal(id("sourceID"), s.source->keyID(), "file-id");
    c.equal(id("receiverID"), s.receiver->keyID(), "file-id");
    std::pair<const char *, std::pair<wposition1, std::pair<double *, double>>> both[] = {
        {"source", {sp, {sa, ss}}}, {"receiver", {rp, {ra, rs}}}};
    for (auto &b : both) {
        std::string p = b.first;
        auto &pos = b.second.first;
        double *a = b.second.second.first;
        c.close(one((p + "_latitude").c_str()), pos.latitude(), 1e-12, 0, "file-state", p);
        c.close(one((p + "_longitude").c_str()), pos.longitude(), 1e-12, 0, "file-state", p);
        c.close(one((p + "_altitude").c_str()), pos.altitude(), 1e-8, 0, "file-state", p);
        const char *part[] = {"_yaw", "_pitch", "_roll"};
        for (int i = 0; i < 3; ++i)
            c.close((double)ref::angdiff(one((p + part[i]).c_str()), a[i]), 0, 1e-6, 0, "file-state", p + part[i]);
        c.close(one((p + "_speed").c_str()), b.second.second.second, 0, 0, "file-state", p);
    }
    std::vector<double> t(cols), ch(rows), v(rows * cols);
    file.getVar("travel_time").getVar(t.data());
    file.getVar("channels").getVar(ch.data());
    file.getVar("time_series").getVar(v.data());
    for (size_t k = 0; k < cols; ++k) c.equal(t[k], (*times)(k), "file-times");
    for (size_t r = 0; r < rows; ++r) {
        c.equal(ch[r], (double)r, "file-channels");
        for (size_t k = 0; k < cols; ++k) c.equal(v[r * cols + k], made.time_series()(r, k), "file-series");
    }
    c.nontrivial(rows >= 2 && n > 0);
}
