// P06: boundary eigenverbs describe the patch of boundary each ray illuminates
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/eigenverbs/eigenverb_model.h>
#include <usml/ocean/ocean.h>
#include <usml/ocean/volume_flat.h>
#include <usml/waveq3d/waveq3d.h>

#include <map>

#include "calib.h"
#include "raytrace.h"

using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using pbt::Case;
using ref::Vec;
using rt::R;

typedef std::pair<size_t, size_t> Cell;  // de, az

struct Verb {
    eigenverb_model::csptr v;
    size_t face;
    int caustic;  // counted before the step in which it was reported
};
class Verbs : public eigenverb_listener {
   public:
    std::map<Cell, std::vector<Verb>> at;
    size_t total = 0;
    void add_eigenverb(eigenverb_model::csptr v, size_t face) override {
        at[{v->de_index, v->az_index}].push_back(Verb{v, face, -1});
        ++total;
    }
};

struct Hit {
    double time, grazing, speed, dt;
    wposition1 pos;
    wvector1 dir;
    size_t face;
};
class Hits : public reflection_listener {
   public:
    std::map<Cell, std::vector<Hit>> at;
    void reflect(double time, size_t de, size_t az, double dt, double grazing,
                 double speed, const wposition1 &position,
                 const wvector1 &ndirection, size_t type) override {
        at[{de, az}].push_back(
            Hit{time, grazing, speed, dt, position, ndirection, type});
    }
};

// loss that depends on angle and frequency
class smooth_loss : public reflect_loss_model {
   public:
    double a, b;
    smooth_loss(double a_, double b_) : a(a_), b(b_) {}
    double loss(double f, double g) const { return a + b * sin(g) * f / 1000.; }
    void reflect_loss(const wposition1 &, const seq_vector::csptr &freq,
                      double angle, boost::numeric::ublas::vector<double> *amp,
                      boost::numeric::ublas::vector<double> *phs =
                          nullptr) const override {
        for (size_t f = 0; f < freq->size(); ++f) {
            (*amp)(f) = loss((*freq)[f], angle);
            if (phs) (*phs)(f) = 0;
        }
    }
};

// angles of a fan, equally spaced or not
static seq_vector::csptr gen_fan(Case &c, const char *name, int most, double lo,
                                 double hi) {
    int N = c.integer(2, most);
    if (c.flip()) {
        double a = c.real(lo, hi), b = c.real(lo, hi);
        if (a > b) std::swap(a, b);
        if (b - a < 0.02 * N) b = a + 0.02 * N;
        if (b > hi) a -= b - hi, b = hi;
        auto s = seq_vector::csptr(new seq_linear(a, b, N, true));
        c.notev(name, *s, s->size());
        return s;
    }
    std::vector<double> v, out;
    for (int n = 0; n < N; ++n) v.push_back(c.real(lo, hi));
    std::sort(v.begin(), v.end());
    for (double x : v)
        if (out.empty() || x - out.back() > 0.02) out.push_back(x);
    if (out.size() < 2) out.push_back(out[0] + (out[0] + 1 < hi ? 1 : -1));
    std::sort(out.begin(), out.end());
    auto s = seq_vector::csptr(new seq_data(out.data(), out.size()));
    c.notev(name, *s, s->size());
    return s;
}

static seq_vector::csptr gen_azimuths(Case &c, int most, bool &circle) {
    circle = c.flip(0.3);
    if (!circle) return gen_fan(c, "az", most, -180, 360);
    int N = c.integer(3, most + 2);
    double first = c.real(-180, 180, {0.0});
    seq_vector::csptr s;
    if (c.flip()) {
        s.reset(new seq_linear(first, first + 360, N, true));
    } else {
        std::vector<double> v{first, first + 360};
        for (int n = 2; n < N; ++n) v.push_back(first + c.real(1, 359));
        std::sort(v.begin(), v.end());
        std::vector<double> out{v[0]};
        for (double x : v)
            if (x - out.back() > 0.5) out.push_back(x);
        if (out.back() != first + 360) out.back() = first + 360;
        s.reset(new seq_data(out.data(), out.size()));
        if (out.size() < 3) c.discard();
    }
    c.notev("az", *s, s->size());
    return s;
}

// half way to the rays on either side, in radians
static void tube(const seq_vector &s, size_t i, bool circle, R &lo, R &hi) {
    size_t N = s.size();
    R up = i + 1 < N ? (R)s[i + 1] - s[i] : (R)s[N - 1] - s[N - 2];
    R down = i > 0       ? (R)s[i] - s[i - 1]
             : circle ? (R)s[N - 1] - s[N - 2]
                         : (R)s[1] - s[0];
    lo = ref::rad(s[i] - down / 2), hi = ref::rad(s[i] + up / 2);
}

// size and power of a patch
static void footprint(Case &c, const eigenverb_model &v, const seq_vector &de,
                      const seq_vector &az, bool circle, R path, R path_tol,
                      const std::vector<R> &loss, R loss_tol,
                      const std::string &where) {
    R dl, dh, al, ah;
    tube(de, v.de_index, false, dl, dh);
    tube(az, v.az_index, circle, al, ah);
    R solid = (sinl(dh) - sinl(dl)) * (ah - al), sg = sinl((R)v.grazing);
    R length = 0.5L * path * (dh - dl) / sg;
    R width = 0.5L * path * solid / (dh - dl);
    R rel = path_tol / path + 1e-7L;
    CAL("length", fabsl(v.length / length - 1), rel, where);
    CAL("width", fabsl(v.width / width - 1), rel, where);
    c.close(v.length, length, 0, rel, "length", where);
    c.close(v.width, width, fabsl(width) * rel + 1e-7 * path * (ah - al), 0, "width", where);
    c.equal(v.power.size(), loss.size(), "power-size", where);
    for (size_t f = 0; f < loss.size(); ++f) {
        R p = solid / sg * powl(10, -loss[f] / 10);
        R e = p > 0 && v.power(f) > 0
                  ? fabsl(10 * log10l(v.power(f) / p))
                  : (fabsl(v.power(f) - p) <= 1e-9 ? 0 : 1e9);
        CAL("power", e, loss_tol + 1e-5L, where);
        c.close(e, 0, loss_tol + 1e-5L, 0, "power", where);
    }
}

// one crossing or contact of the exact ray
struct Event {
    rt::State y;
    R c;         // sound speed
    size_t face;
};

struct Tracer {
    rt::Ray ray;
    std::vector<R> layer;  // radii
    std::vector<Event> events;
    R near_layer = 1e9;
    void crossings(const rt::State &a, const rt::State &b) {
        std::vector<std::pair<R, Event>> found;
        for (size_t i = 0; i < layer.size(); ++i) {
            bool top = a.gamma > 0 && b.gamma <= 0, low = a.gamma < 0 && b.gamma >= 0;
            if (top || low) {
                R e = fabsl((fabsl(a.gamma) < fabsl(b.gamma) ? a.r : b.r) - layer[i]);
                near_layer = std::min(near_layer, e);
            }
            if ((a.r < layer[i]) == (b.r < layer[i])) continue;
            bool down = b.r < layer[i];
            R lo = 0, hi = b.t - a.t;
            for (int k = 0; k < 60; ++k) {
                R mid = (lo + hi) / 2;
                ((ray.rk4(a, mid).r < layer[i]) == down ? hi : lo) = mid;
            }
            Event e;
            e.y = ray.rk4(a, hi);
            e.c = ray.m->c((R)wposition::earth_radius - e.y.r);
            e.face = (down ? eigenverb_model::VOLUME_LOWER
                           : eigenverb_model::VOLUME_UPPER) + 2 * i;
            found.push_back({e.y.t, e});
        }
        std::sort(found.begin(), found.end(),
                  [](auto &p, auto &q) { return p.first < q.first; });
        for (auto &f : found) events.push_back(f.second);
    }
    void to(R end) {
        while (ray.y.t < end - 1e-12L) {
            rt::State a = ray.y;
            size_t had = ray.hits.size();
            R next = std::min(end, ray.y.t + ray.h);
            ray.to(next);
            if (ray.hits.size() == had) {
                crossings(a, ray.y);
                continue;
            }
            for (size_t k = had; k < ray.hits.size(); ++k) {
                auto &h = ray.hits[k];
                rt::State at = ray.rk4(a, h.t - a.t);
                crossings(a, at);
                Event e;
                e.y.t = h.t, e.y.r = h.r, e.y.psi = h.psi, e.y.gamma = h.gamma;
                e.y.s = h.s, e.c = h.c;
                e.face = h.surface ? eigenverb_model::SURFACE
                                   : eigenverb_model::BOTTOM;
                events.push_back(e);
                a = at;
                a.gamma = -a.gamma;
                a.r = h.surface ? ray.top : ray.bottom;
            }
            crossings(a, ray.y);
        }
    }
};

LAW(P06, layered_ocean, 10000, 200000,
    "2-6 x 2-4 rays (also whole circles) from any source through any smooth "
    "profile with absorption over a flat bottom of 200-5000 m and 0-3 volume "
    "layers, 5-120 steps of 5-150 ms, lossy boundaries, 1-3 frequencies, count "
    "and power thresholds: the eigenverbs of each ray (number, interface, "
    "time, place, heading, grazing angle, speed, launch angles, counts, "
    "length, width, power) against the contacts of independently traced rays, "
    "until a contact within 1.5 degrees of grazing; non-trivial: a ray with "
    "three contacts or more") {
    auto m = rt::gen_medium(c);
    double depth = c.logreal(200, 5000);
    double lat = c.real(-75, 75, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double z = c.real(0.5, depth - 0.5);
    // absorption, seldom enough for a threshold
    double alpha = c.pick<double>({0.0, 1e-8, 1e-6, 3e-6});
    std::const_pointer_cast<profile_model>(m.model)->attenuation(
        attenuation_model::csptr(new attenuation_constant(alpha)));
    smooth_loss top(c.real(0, 3), c.real(0, 3)),
        bot(c.real(0, 8), c.real(0, 3));
    boundary_model::csptr surface(
        new boundary_flat(0.0, reflect_loss_model::csptr(new smooth_loss(top))));
    boundary_model::csptr bottom(
        new boundary_flat(depth, reflect_loss_model::csptr(new smooth_loss(bot))));
    int layers = c.integer(0, 3);
    std::vector<volume_model::csptr> volumes;
    Tracer start;
    R R0 = wposition::earth_radius;
    for (int i = 0; i < layers; ++i) {
        double d = c.real(1, depth - 1);
        if (std::abs(d - z) < 0.5) d = z > depth / 2 ? z - 1 : z + 1;
        if (d < 0.5 || d > depth - 0.5) d = depth / 2;
        volumes.push_back(volume_model::csptr(
            new volume_flat(d, c.real(0, 50), c.real(-80, -20))));
        start.layer.push_back(R0 - d);
        c.note("layer", d);
    }
    ocean_model::csptr ocean(layers || c.flip()
                                 ? new ocean_model(surface, bottom, m.model, &volumes)
                                 : new ocean_model(surface, bottom, m.model));
    wposition1 source(lat, lon, -z);
    auto de = gen_fan(c, "de", 6, -89, 89);
    bool circle;
    auto az = gen_azimuths(c, 4, circle);
    seq_vector::csptr freq(
        new seq_linear(c.real(100, 5000), 500.0, c.integer(1, 3)));
    double dt = c.logreal(0.005, 0.15);
    if (m.rate > 0) dt = std::min(dt, (double)(0.05 / m.rate));
    if (m.scale > 0) dt = std::min(dt, (double)(0.15 / m.scale));
    dt = std::min(dt, depth / 1500 / 3);
    int steps = c.integer(5, 120);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("dt", dt), c.note("steps", steps);
    c.note("alpha", alpha);
    wave_queue wave(ocean, freq, source, de, az, dt);
    int max_surface = 999, max_bottom = 999, max_upper = 999;
    double threshold = -300;
    if (c.flip(0.2)) wave.max_surface(max_surface = c.integer(0, 3));
    if (c.flip(0.2)) wave.max_bottom(max_bottom = c.integer(0, 3));
    if (c.flip(0.1)) wave.max_upper(max_upper = c.integer(0, 2));
    if (c.flip(0.3)) wave.eigenverb_threshold(threshold = c.real(-60, -10));
    c.note("max_surface", max_surface), c.note("max_bottom", max_bottom);
    c.note("max_upper", max_upper);
    c.note("threshold", threshold);
    Verbs log, second;
    Hits hits;
    bool watched = c.flip(0.7);
    if (watched) wave.add_reflection_listener(&hits);
    wave.add_eigenverb_listener(&log);
    wave.add_eigenverb_listener(&second);
    R tanlat = fabsl(tanl(ref::rad(std::abs(lat) + 5)));
    R rate = m.rate + 1600 / R0 * (2 + 2 * tanlat), all = rate + m.scale;
    std::vector<Tracer> trace(de->size(), start);
    std::vector<bool> lost(de->size(), false);
    for (size_t i = 0; i < de->size(); ++i) {
        trace[i].ray = rt::Ray(m, source.rho(), ref::rad((*de)[i]), R0, R0 - depth);
        trace[i].ray.h = std::min<R>(0.02, dt / 2);
    }
    for (int n = 1; n <= steps; ++n) {
        std::map<Cell, int> before;
        for (size_t i = 0; i < de->size(); ++i)
            for (size_t j = 0; j < az->size(); ++j)
                before[{i, j}] = wave.curr()->caustic(i, j);
        wave.step();
        for (auto &a : log.at)
            for (auto &v : a.second)
                if (v.caustic < 0) v.caustic = before[a.first];
    }
    // layers crossed in the same step are reported in any order
    for (auto &a : log.at)
        std::stable_sort(a.second.begin(), a.second.end(), [](const Verb &p, const Verb &q) {
            return p.v->travel_time < q.v->travel_time;
        });
    c.equal(second.total, log.total, "second-listener");
    size_t most = 0;
    for (size_t i = 0; i < de->size(); ++i) {
        Tracer &e = trace[i];
        R last = steps * (R)dt;
        e.to(last + dt);
        // contacts before a doubtful one are judged
        size_t sure = e.events.size();
        std::vector<R> tol, ttol, dtol, graze;
        R extra = 0, textra = 0, dextra = 0;
        size_t contact = 0;
        for (size_t k = 0; k < e.events.size(); ++k) {
            auto &ev = e.events[k];
            R t = ev.y.t;
            R sg = fabsl(sinl(ev.y.gamma));
            if (sg < 0.026 || rate * dt > 0.3 * sg) {
                sure = k;
                break;
            }
            bool edge = ev.face <= eigenverb_model::SURFACE;
            R miss = 0.5 * 1500 * rate * dt * dt;  // height error
            R place = 4 * miss / sg, when = 2 * miss / sg / 1500,
              turn = 4 * rate * miss / sg / 1500;
            tol.push_back(1e-4L + 20 * t * 1500 * rate * all * all * powl(dt, 3) + extra + place);
            ttol.push_back(1e-7L + tol.back() / 1500 + textra + when + tol.back() / 1500 / sg * (edge ? 0 : 1));
            dtol.push_back(1e-7L + 3 * t * rate * powl(all * dt, 3) + dextra + turn);
            if (edge) extra += place, textra += when, dextra += turn, ++contact;
        }
        // vertices that may or may not touch an interface: such a ray is
        // judged until its first one
        R close = (tol.empty() ? 1e-4L : tol.back()) + 1500 * dt * 0.03;
        if (e.ray.near_vertex < close || e.near_layer < close) {
            c.label("vertex near an interface");
            continue;
        }
        for (size_t j = 0; j < az->size(); ++j) {
            std::ostringstream s0;
            s0 << "de " << (*de)[i] << " az " << (*az)[j];
            auto &got = log.at[{i, j}];
            rt::Circle great(source, (*az)[j]);
            size_t g = 0;
            int ns = 0, nb = 0;
            std::vector<R> bounce(freq->size(), 0);
            bool doubt = false;
            for (size_t k = 0; k < sure && !doubt; ++k) {
                auto &ev = e.events[k];
                std::ostringstream s;
                s << s0.str() << " contact " << k << " face " << ev.face;
                R sg = fabsl(sinl(ev.y.gamma));
                bool at_surface = ev.face == eigenverb_model::SURFACE,
                     at_bottom = ev.face == eigenverb_model::BOTTOM;
                // reasons to leave this contact out
                bool never = (circle && j + 1 == az->size()) ||
                             ns > max_surface || nb > max_bottom;
                bool maybe = false;
                if (ev.y.t < dt - ttol[k])
                    never = true;
                else if (ev.y.t < dt + ttol[k])
                    maybe = true;
                if (ev.y.t > last - ttol[k]) maybe = true;
                if (ev.y.t > last + ttol[k]) never = true;
                // two contacts about as late may come in either order
                size_t pick = g;
                if (k + 1 < e.events.size() &&
                    e.events[k + 1].y.t - ev.y.t < 2 * ttol[k] + 1e-6) doubt = true;
                if (k > 0 && ev.y.t - e.events[k - 1].y.t < 2 * ttol[k] + 1e-6) doubt = true;
                if (doubt) break;
                // vertices up to the end of the step before
                int upper = 0, lower = 0;
                {
                    R from = floorl(ev.y.t / dt) * dt;
                    if (fabsl(ev.y.t / dt - roundl(ev.y.t / dt)) < 1e-6 + ttol[k] / dt) from = -1;
                    rt::Ray r = rt::Ray(m, source.rho(), ref::rad((*de)[i]), R0, R0 - depth);
                    r.h = trace[i].ray.h;
                    if (from >= 0 && e.ray.upper + e.ray.lower > 0) {
                        r.to(from);
                        upper = r.upper, lower = r.lower;
                        if (fabsl(r.y.gamma) < dtol[k] + rate * dt) upper = lower = -1;
                    } else if (e.ray.upper + e.ray.lower > 0)
                        upper = lower = -1;
                }
                if (upper < 0 && (max_upper < 999)) maybe = true;
                if (upper > max_upper) never = true;
                // losses up to here
                std::vector<R> loss(freq->size());
                R solid, dl, dh, al, ah;
                tube(*de, i, false, dl, dh);
                tube(*az, j, circle, al, ah);
                solid = (sinl(dh) - sinl(dl)) * (ah - al);
                R strongest = -1e9;
                // absorption is that of the last step before the contact
                R lag = 0.5L * alpha * ((*freq)[freq->size() - 1]) * ev.c * dt;
                R slack = 1e-5L;
                for (size_t f = 0; f < freq->size(); ++f) {
                    loss[f] = bounce[f] +
                              alpha * (*freq)[f] * (ev.y.s - ev.c * dt / 2);
                    strongest = std::max(strongest, 10 * log10l(solid / sg) - loss[f]);
                }
                slack += lag * 1.1L + alpha * (*freq)[freq->size() - 1] * (tol[k] + 1e-4L * ev.y.s)
                       + (k + 1) * 2 * 3 * (*freq)[freq->size() - 1] / 1000 * (dtol[k] + 1.1 * rate * dt)
                       ;
                R gslack = 4.35L * (dtol[k] + 1.1 * rate * dt) / sg * 1.3L;
                if (strongest < threshold - slack - gslack)
                    never = true;
                else if (strongest < threshold + slack + gslack)
                    maybe = true;
                bool here = pick < got.size() &&
                            fabsl(got[pick].v->travel_time - ev.y.t) <= ttol[k] &&
                            got[pick].face == ev.face;
                if (!maybe && !never)
                    c.check(here, "contact-missed", s.str() + " at " + std::to_string((double)ev.y.t) +
                            (pick < got.size() ? " next " + std::to_string(got[pick].v->travel_time) +
                             " face " + std::to_string(got[pick].face) : " none"));
                if (never && here)
                    c.check(false, "contact-not-wanted", s.str());
                if (here) {
                    auto &v = *got[pick].v;
                    ++g;
                    most = std::max(most, k + 1);
                    CAL("time", fabsl(v.travel_time - ev.y.t), ttol[k], s.str());
                    Vec at = ref::sph(v.position.rho(), v.position.theta(), v.position.phi());
                    R err = (at - great.point(ev.y)).norm();
                    CAL("place", err, tol[k], s.str());
                    c.close(err, 0, tol[k], 0, "place", s.str());
                    R gt = dtol[k] + 1.1 * rate * dt;
                    CAL("grazing", fabsl(v.grazing - fabsl(ev.y.gamma)), gt, s.str());
                    c.close(v.grazing, fabsl(ev.y.gamma), gt, 0, "grazing", s.str());
                    c.close(v.sound_speed, ev.c,
                            1e-6 + 1.1 * m.rate * tol[k] + 1500 * m.rate * dt * all * dt * all * dt,
                            0, "speed", s.str());
                    // heading of the length of the patch
                    Vec head = great.head(ev.y.psi);
                    Vec north = ref::north_at(v.position.theta(), v.position.phi()),
                        east = ref::east_at(v.position.theta(), v.position.phi());
                    Vec got_head = north * cosl((R)v.direction) + east * sinl((R)v.direction);
                    R turn = (got_head - head).norm() * cosl(ev.y.gamma);
                    // it only turns with the meridians
                    R ht = 1e-6 + 4 * tol[k] / R0 * (1 + tanlat);
                    CAL("heading", turn, ht, s.str());
                    c.close(turn, 0, ht, 0, "heading", s.str());
                    c.close(v.source_de, ref::rad((*de)[i]), 1e-12, 0, "source-de", s.str());
                    c.close(v.source_az, ref::rad((*az)[j]), 1e-12, 0, "source-az", s.str());
                    c.check(v.frequencies != nullptr && v.frequencies->size() == freq->size(), "frequencies", s.str());
                    for (size_t f = 0; f < freq->size(); ++f)
                        c.equal((*v.frequencies)(f), (*freq)(f), "frequency", s.str());
                    c.equal(v.surface, ns, "surface-count", s.str());
                    c.equal(v.bottom, nb, "bottom-count", s.str());
                    c.equal(v.caustic, got[pick].caustic, "caustic-count", s.str());
                    if (upper >= 0) {
                        c.equal(v.upper, upper, "upper-count", s.str());
                        c.equal(v.lower, lower, "lower-count", s.str());
                    }
                    R path_tol = tol[k] + 1500 * ttol[k] + ev.y.s * 1600 * dt / R0 * (1 + tanlat) +
                                 1600 * m.rate * dt * dt * 2;
                    footprint(c, v, *de, *az, circle, ev.y.s, path_tol, loss, slack, s.str());
                    if (at_surface || at_bottom) {
                        // as the reflection callback has it
                        bool found = !watched;
                        if (watched)
                            for (auto &h : hits.at[{i, j}])
                                if (h.time == v.travel_time && h.face == ev.face) {
                                    found = true;
                                    c.close(h.grazing, v.grazing, 1e-14, 0, "callback-grazing", s.str());
                                    c.close(h.speed, v.sound_speed, 1e-12, 0, "callback-speed", s.str());
                                    c.check(h.pos.rho() == v.position.rho() &&
                                            h.pos.theta() == v.position.theta() &&
                                            h.pos.phi() == v.position.phi(), "callback-place", s.str());
                                }
                        c.check(found, "callback", s.str());
                    }
                } else if (ev.y.t <= last + ttol[k] && maybe) {
                    // may have been left out
                } else if (ev.y.t > last + ttol[k]) {
                    break;
                }
                if (at_surface || at_bottom) {
                    const smooth_loss &b = at_surface ? top : bot;
                    for (size_t f = 0; f < freq->size(); ++f)
                        bounce[f] += b.loss((*freq)[f], fabsl(ev.y.gamma));
                    (at_surface ? ns : nb)++;
                }
            }
            if (!doubt && sure == e.events.size())
                c.equal(got.size(), g, "extra-contacts", s0.str());
        }
    }
    c.nontrivial(most >= 3);
    c.label(m.name);
    if (circle) c.label("circle");
}

//--------------------------------------------------------------------------
// bottoms of any shape

// bottom that the library knows nothing about
class wavy_bottom : public boundary_model {
   public:
    double depth, high, klat, klon, phase;
    wavy_bottom(double d, double h, double a, double b, double p,
                const reflect_loss_model::csptr &loss)
        : boundary_model(loss), depth(d), high(h), klat(a), klon(b), phase(p) {}
    double wave(double th, double ph) const { return klat * th + klon * ph + phase; }
    void height(const wposition &at, matrix<double> *rho,
                wvector *normal = nullptr) const override {
        for (size_t i = 0; i < at.size1(); ++i)
            for (size_t j = 0; j < at.size2(); ++j) {
                double h;
                wvector1 n;
                height(wposition1(at, i, j), &h, &n);
                (*rho)(i, j) = h;
                if (normal) {
                    normal->rho(i, j, n.rho());
                    normal->theta(i, j, n.theta());
                    normal->phi(i, j, n.phi());
                }
            }
    }
    void height(const wposition1 &at, double *rho,
                wvector1 *normal = nullptr) const override {
        double w = wave(at.theta(), at.phi());
        *rho = wposition::earth_radius - depth + high * sin(w);
        if (normal) {
            double dth = high * klat * cos(w) / *rho;
            double dph = high * klon * cos(w) / (*rho * sin(at.theta()));
            double n = sqrt(1 + dth * dth + dph * dph);
            normal->rho(1 / n), normal->theta(-dth / n), normal->phi(-dph / n);
        }
    }
};

class Steps : public Hits {
   public:
    std::map<Cell, std::vector<int>> step;
    int now = 0;
    void reflect(double time, size_t de, size_t az, double dt, double grazing,
                 double speed, const wposition1 &position,
                 const wvector1 &dir, size_t type) override {
        Hits::reflect(time, de, az, dt, grazing, speed, position, dir, type);
        step[{de, az}].push_back(now);
    }
};

LAW(P06, any_bottom, 10000, 200000,
    "2-8 x 2-6 rays of -90 to 90 degrees (also whole circles) in isovelocity "
    "water with absorption over a bottom with hills, slopes or a slope up to "
    "the shore, 5-80 steps of 5-200 ms, lossy boundaries, count and power "
    "thresholds, 0-2 volume layers: exactly one eigenverb for each contact "
    "that the reflection callback reports, with its time, place, grazing "
    "angle, heading and counts, and with the length, width and power of a "
    "ray tube of length c*t; non-trivial: five contacts or more, one of them "
    "on the bottom") {
    double c0 = c.real(1400, 1600, {1500.0});
    double depth = c.logreal(100, 5000);
    double lat = c.real(-75, 75, {0.0, 45.0}), lon = c.real(-180, 180, {180.0});
    double alpha = c.pick<double>({0.0, 1e-8, 1e-6, 3e-6});
    profile_model::csptr profile(new profile_linear(
        c0, attenuation_model::csptr(new attenuation_constant(alpha))));
    smooth_loss top(c.real(0, 3), c.real(0, 3)), bot(c.real(0, 8), c.real(0, 3));
    boundary_model::csptr surface(
        new boundary_flat(0.0, reflect_loss_model::csptr(new smooth_loss(top))));
    reflect_loss_model::csptr loss(new smooth_loss(bot));
    boundary_model::csptr bottom;
    int shape = c.integer(0, 2);
    double dt = std::min(c.logreal(0.005, 0.2), depth / 1500 / 6);
    wposition1 origin(lat, lon, 0.0);
    double slope = 0;
    if (shape == 0) {
        double high = depth * c.real(0, 0.4), steep = ref::rad(c.real(0, 25));
        // hills that a step of the ray resolves
        high = std::max(high, tan(steep) * 20 * 1500 * dt / M_PI);
        high = std::min(high, depth / 2);
        double k = high > 1 ? tan(steep) / high * wposition::earth_radius : 0;
        double turn = c.real(0, 2 * M_PI);
        bottom.reset(new wavy_bottom(depth, high, k * cos(turn),
                                     k * sin(turn) * cos(ref::rad(lat)),
                                     c.real(0, 2 * M_PI), loss));
        c.note("high", high), c.note("steep", ref::deg(steep));
    } else {
        slope = c.real(-20, 20, {0.0});
        double other = shape == 2 ? c.real(-10, 10) : 0;
        bottom.reset(new boundary_slope(origin, depth, ref::rad(slope),
                                        ref::rad(other), loss));
        c.note("slope", slope), c.note("other", other);
    }
    int layers = c.integer(0, 2);
    std::vector<volume_model::csptr> volumes;
    for (int i = 0; i < layers; ++i)
        volumes.push_back(volume_model::csptr(
            new volume_flat(c.real(1, depth), c.real(0, 50), c.real(-80, -20))));
    ocean_model::csptr ocean(new ocean_model(surface, bottom, profile, &volumes));
    double hgt;
    bottom->height(origin, &hgt);
    double there = wposition::earth_radius - hgt;
    double z = there * c.real(0.02, 0.98);
    wposition1 source(lat, lon, -z);
    auto de = gen_fan(c, "de", 8, -90, 90);
    bool circle;
    auto az = gen_azimuths(c, 6, circle);
    seq_vector::csptr freq(
        new seq_linear(c.real(100, 5000), 500.0, c.integer(1, 3)));
    int steps = c.integer(5, 80);
    c.note("lat", lat), c.note("lon", lon), c.note("z", z);
    c.note("depth", depth), c.note("there", there), c.note("dt", dt);
    c.note("steps", steps), c.note("alpha", alpha), c.note("shape", shape);
    wave_queue wave(ocean, freq, source, de, az, dt, nullptr,
                    c.flip() ? wave_queue::CLASSIC_RAY : wave_queue::HYBRID_GAUSSIAN);
    int max_surface = 999, max_bottom = 999;
    double threshold = -300;
    if (c.flip(0.3)) wave.max_surface(max_surface = c.integer(0, 3));
    if (c.flip(0.3)) wave.max_bottom(max_bottom = c.integer(0, 3));
    if (c.flip(0.3)) wave.eigenverb_threshold(threshold = c.real(-60, -10));
    c.note("max_surface", max_surface), c.note("max_bottom", max_bottom);
    c.note("threshold", threshold);
    Verbs log;
    Steps hits;
    wave.add_reflection_listener(&hits);
    wave.add_eigenverb_listener(&log);

    for (hits.now = 1; hits.now <= steps; ++hits.now) wave.step();
    size_t contacts = 0, bottoms = 0;
    for (size_t i = 0; i < de->size(); ++i)
        for (size_t j = 0; j < az->size(); ++j) {
            std::ostringstream s0;
            s0 << "de " << (*de)[i] << " az " << (*az)[j];
            auto &got = log.at[{i, j}];
            auto &list = hits.at[{i, j}];
            std::vector<bool> used(got.size(), false);
            std::vector<R> bounce(freq->size(), 0);
            int ns = 0, nb = 0;
            for (size_t k = 0; k < list.size(); ++k) {
                auto &h = list[k];
                std::ostringstream s;
                s << s0.str() << " contact " << k << " at " << h.time;
                R g = fabs(h.grazing);
                bool never = hits.step[{i, j}][k] <= 1 || ns > max_surface ||
                             nb > max_bottom || (circle && j + 1 == az->size()) ||
                             std::abs((*de)[i]) > 89.9 || g < 1e-6;
                // those of rays close to the limits
                bool maybe = g < 1e-5 || std::abs(std::abs((*de)[i]) - 89.9) < 1e-6;
                R dl, dh, al, ah;
                tube(*de, i, false, dl, dh);
                tube(*az, j, circle, al, ah);
                R solid = (sinl(dh) - sinl(dl)) * (ah - al), sg = sinl(g);
                R path = c0 * h.time;
                if (path <= 0) never = true;
                std::vector<R> loss(freq->size());
                R strongest = -1e9;
                for (size_t f = 0; f < freq->size(); ++f) {
                    loss[f] = bounce[f] + alpha * (*freq)[f] * (path - c0 * h.dt / 2);
                    strongest = std::max(strongest, 10 * log10l(solid / sg) - loss[f]);
                }
                // absorption is that of the step before the contact
                R slack = 1e-6L + alpha * (*freq)[freq->size() - 1] * (c0 * fabs(h.dt) * 0.51L + 1e-4L * path);
                if (!(strongest >= threshold - slack)) never = true;
                else if (strongest < threshold + slack) maybe = true;
                size_t found = got.size(), same = 0;
                for (size_t q = 0; q < got.size(); ++q)
                    if (got[q].face == h.face && got[q].v->travel_time == h.time &&
                        got[q].v->position.rho() == h.pos.rho() &&
                        got[q].v->position.theta() == h.pos.theta() &&
                        got[q].v->position.phi() == h.pos.phi())
                        found = q, ++same;
                c.check(same <= 1, "contact-twice", s.str());
                if (!maybe)
                    c.check((same == 1) == !never,
                            never ? "contact-not-wanted" : "contact-missed", s.str());
                if (same) {
                    used[found] = true;
                    ++contacts, bottoms += h.face == eigenverb_model::BOTTOM;
                    auto &v = *got[found].v;
                    c.close(v.grazing, g, 1e-12, 0, "grazing", s.str());
                    c.close(v.sound_speed, h.speed, 1e-9, 0, "speed", s.str());
                    R horiz = sqrtl((R)h.dir.theta() * h.dir.theta() + (R)h.dir.phi() * h.dir.phi());
                    R all = sqrtl(horiz * horiz + (R)h.dir.rho() * h.dir.rho());
                    if (horiz > 1e-6 * all) {
                        R a = atan2l(h.dir.phi(), -h.dir.theta());
                        c.close(remainderl(v.direction - a, 2 * (R)M_PI), 0, 1e-9 * all / horiz + 1e-9, 0, "heading", s.str());
                    }
                    c.close(v.source_de, ref::rad((*de)[i]), 1e-12, 0, "source-de", s.str());
                    c.close(v.source_az, ref::rad((*az)[j]), 1e-12, 0, "source-az", s.str());
                    c.equal(v.surface, ns, "surface-count", s.str());
                    c.equal(v.bottom, nb, "bottom-count", s.str());
                    c.check(v.frequencies == freq, "frequencies", s.str());
                    footprint(c, v, *de, *az, circle, path,
                              1e-4L * path + 1e-4L, loss, slack + 1e-5L * loss[0], s.str());
                }
                const smooth_loss &b = h.face == eigenverb_model::SURFACE ? top : bot;
                for (size_t f = 0; f < freq->size(); ++f)
                    bounce[f] += b.loss((*freq)[f], h.grazing);
                (h.face == eigenverb_model::SURFACE ? ns : nb)++;
            }
            for (size_t q = 0; q < got.size(); ++q) {
                if (got[q].face > eigenverb_model::SURFACE) {
                    c.check(got[q].face < 2u + 2 * layers, "layer", s0.str());
                    continue;
                }
                c.check(used[q], "not-a-contact", s0.str() + " at " + std::to_string(got[q].v->travel_time));
            }
        }

    c.nontrivial(contacts >= 5 && bottoms >= 1);
    if (circle) c.label("circle");
}
