// P09: bistatic patches are the Gaussian overlap of the two patches that made them
#include <usml/biverbs/biverb_generator.h>
#include <usml/biverbs/biverbs.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/sensors/sensors.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>

#include <iostream>
#include <map>
#include <netcdf>
#include <sstream>

#include "pbt.h"
#include "util.h"

using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::sensors;
using namespace usml::types;
using pbt::Case;
using ref::Vec;
typedef long double R;
typedef eigenverb_model::csptr Verb;
typedef boost::numeric::ublas::vector<double> dvec;

static seq_vector::csptr gen_freq(Case &c) {
    int n = c.integer(1, 4);
    std::vector<double> f;
    double x = c.logreal(10, 5000);
    for (int i = 0; i < n; ++i) f.push_back(x), x *= c.real(1.1, 3);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}

static Verb gen_verb(Case &c, const seq_vector::csptr &f, double lat, double lon, double alt) {
    Verb v(new eigenverb_model());
    v->travel_time = c.real(0.01, 50, {1.0});
    v->frequencies = f;
    v->power.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) v->power(k) = c.logreal(1e-4, 1e6);
    v->length = c.logreal(30, 20000), v->width = c.logreal(30, 20000);
    if (c.flip(0.1)) v->width = v->length;
    v->position = wposition1(lat, lon, alt);
    v->direction = c.real(-M_PI, 2 * M_PI, {0.0, M_PI_2, M_PI});
    v->grazing = c.real(0.001, 1.57);
    v->sound_speed = c.real(1400, 1600);
    v->de_index = c.integer(0, 300), v->az_index = c.integer(0, 360);
    v->source_de = c.real(-1.57, 1.57), v->source_az = c.real(-M_PI, 2 * M_PI);
    v->surface = c.integer(0, 50), v->bottom = c.integer(0, 50);
    v->caustic = c.integer(0, 50), v->upper = c.integer(0, 50), v->lower = c.integer(0, 50);
    return v;
}

// position at a range and bearing of another, for the radius that gc_range uses
static wposition1 away(const wposition1 &from, R range, R bearing, double alt) {
    R r = wposition::earth_radius + from.altitude();
    R th = from.theta(), ph = from.phi();
    Vec head = ref::north_at(th, ph) * cosl(bearing) + ref::east_at(th, ph) * sinl(bearing);
    Vec p = ref::up_at(th, ph) * cosl(range / r) + head * sinl(range / r);
    return wposition1((double)(90 - ref::deg(std::acos(p.z))), (double)ref::deg(std::atan2(p.y, p.x)), alt);
}

struct Matrix {  // symmetric, (east,north)
    R a, b, d;
    Matrix operator+(const Matrix &o) const { return {a + o.a, b + o.b, d + o.d}; }
    R det() const { return a * d - b * b; }
    Matrix inv() const { return {d / det(), -b / det(), a / det()}; }
    R form(R x, R y) const { return a * x * x + 2 * b * x * y + d * y * y; }
};
static Matrix footprint(R length, R width, R direction) {
    R s = sinl(direction), k = cosl(direction), l = length * length, w = width * width;
    return {l * s * s + w * k * k, (l - w) * s * k, l * k * k + w * s * s};
}

struct Answer {
    R scale;     // of the product of powers and scattering strength
    R exponent;  // part of it
    R duration;
};
// the overlap of two Gaussians that are east,north meters apart
static Answer overlap(const eigenverb_model &src, const eigenverb_model &rcv, R east, R north) {
    Matrix A = footprint(src.length, src.width, src.direction);
    Matrix B = footprint(rcv.length, rcv.width, rcv.direction);
    Matrix S = A + B;
    Answer r;
    r.exponent = -0.5L * S.inv().form(east, north);
    r.scale = 0.125L * expl(r.exponent) / sqrtl(S.det());
    // extent of the product of both along the direction of the receiver's
    Matrix C = (A.inv() + B.inv()).inv();
    R var = C.form(sinl(rcv.direction), cosl(rcv.direction));
    r.duration = 0.5L * cosl(rcv.grazing) / rcv.sound_speed * sqrtl(var);
    return r;
}

static dvec gen_scatter(Case &c, size_t n) {
    dvec s(n);
    for (size_t k = 0; k < n; ++k) s(k) = c.flip(0.05) ? 0.0 : c.logreal(1e-8, 1);
    return s;
}
static void compare(Case &c, const biverb_model &got, const eigenverb_model &src, const eigenverb_model &rcv,
                    const dvec &scatter, const Answer &a, double tol) {
    // rounding of the positions, which stand for ranges of some meters to many km
    double rel = tol * (1 + 2 * fabs((double)a.exponent));
    c.equal(got.power.size(), scatter.size(), "size");
    for (size_t k = 0; k < scatter.size(); ++k)
        c.close(got.power(k), (double)(src.power(k) * rcv.power(k) * scatter(k) * a.scale), 1e-300, rel, "power");
    c.close(got.duration, (double)a.duration, 0, 1e-6, "duration");
    c.close(got.travel_time, src.travel_time + rcv.travel_time, 0, 1e-14, "time");
    c.check(got.frequencies == rcv.frequencies, "frequencies");
    c.check(got.de_index == rcv.de_index && got.az_index == rcv.az_index, "index");
    c.check(got.source_de == src.source_de && got.source_az == src.source_az, "source-angles");
    c.check(got.receiver_de == rcv.source_de && got.receiver_az == rcv.source_az, "receiver-angles");
    c.check(got.source_surface == src.surface && got.source_bottom == src.bottom &&
                got.source_caustic == src.caustic && got.source_upper == src.upper &&
                got.source_lower == src.lower,
            "source-counts");
    c.check(got.receiver_surface == rcv.surface && got.receiver_bottom == rcv.bottom &&
                got.receiver_caustic == rcv.caustic && got.receiver_upper == rcv.upper &&
                got.receiver_lower == rcv.lower,
            "receiver-counts");
}

struct Setup {
    Verb src, rcv;
    R range, bearing;
};
static double gen_lat(Case &c, double most) {
    double lat = c.real(-most, most, {45.0, -30.0});
    // bearings from the equator are wrong (known finding of P14)
    return fabs(lat) < 1e-3 ? 1e-3 : lat;
}
static Setup gen_pair(Case &c, const seq_vector::csptr &f, double most_lat) {
    Setup s;
    double alt = -c.real(0, 5000);
    s.rcv = gen_verb(c, f, gen_lat(c, most_lat), c.real(-179, 179, {0.0}), alt);
    s.src = gen_verb(c, f, 0, 0, 0);
    R big = std::max(std::max(s.rcv->length, s.rcv->width), std::max(s.src->length, s.src->width));
    // bearings closer than that are not computed
    s.range = c.flip(0.1) ? 0.0 : std::max<R>(10, big * c.logreal(0.01, 5));
    s.bearing = c.real(0, 2 * M_PI, {0.0, M_PI_2, M_PI});
    // depths differ between sea floor patches without any effect
    s.src->position = s.range == 0 ? s.rcv->position : away(s.rcv->position, s.range, s.bearing, alt - c.real(0, 100));
    c.note("lat", s.rcv->position.latitude()), c.note("range", (double)s.range), c.note("bearing", (double)s.bearing);
    c.note("src", s.src->length), c.note("x", s.src->width), c.note("dir", s.src->direction);
    c.note("rcv", s.rcv->length), c.note("x", s.rcv->width), c.note("dir", s.rcv->direction);
    return s;
}

LAW(P09, overlap, 20000, 800000,
    "two patches of any sizes (30 m to 20 km), directions, powers and offsets of "
    "up to five times their size, anywhere but on the equator: power and duration "
    "are those of the overlap of two Gaussians (matrices in long double), all "
    "other parts are those of the patches, and pairs under the threshold are "
    "dropped; non-trivial: the offset matters and the pair is kept") {
    auto f = gen_freq(c);
    Setup s = gen_pair(c, f, 85);
    dvec scatter = gen_scatter(c, f->size());
    Answer a = overlap(*s.src, *s.rcv, s.range * sinl(s.bearing), s.range * cosl(s.bearing));
    R most = 0;
    for (size_t k = 0; k < f->size(); ++k)
        most = std::max(most, (R)s.src->power(k) * s.rcv->power(k) * scatter(k) * a.scale);
    size_t volumes = c.integer(0, 2);
    biverb_collection made(volumes);
    size_t at = c.integer(0, made.num_interfaces() - 1);
    c.equal(made.num_interfaces(), 2 * (1 + volumes), "interfaces");
    made.add_biverb(s.src, s.rcv, scatter, at);
    double edge = 1e-5 * (1 + fabs((double)a.exponent));
    R limit = biverb_collection::power_threshold;
    if (most > limit * (1 + edge)) {
        c.equal(made.size(at), 1, "kept");
        compare(c, *made.biverbs(at).front(), *s.src, *s.rcv, scatter, a, 1e-6);
        c.nontrivial(a.exponent < -0.1);
    } else if (most < limit * (1 - edge)) {
        c.equal(made.size(at), 0, "dropped");
        c.label("dropped");
    }
    for (size_t k = 0; k < made.num_interfaces(); ++k)
        if (k != at) c.equal(made.size(k), 0, "interface");
}

static dvec power_of(const Verb &src, const Verb &rcv, const dvec &scatter) {
    biverb_collection made(0);
    double keep = biverb_collection::power_threshold;
    biverb_collection::power_threshold = 0;
    made.add_biverb(src, rcv, scatter, 0);
    biverb_collection::power_threshold = keep;
    return made.biverbs(0).front()->power;
}

LAW(P09, relations, 6000, 200000,
    "the same pair with source and receiver exchanged, rotated as a whole, moved "
    "elsewhere on the globe, and pulled apart: the first three give the same power "
    "and the last one less; non-trivial: the offset matters") {
    auto f = gen_freq(c);
    Setup s = gen_pair(c, f, 60);
    dvec scatter = gen_scatter(c, f->size());
    dvec p = power_of(s.src, s.rcv, scatter);
    auto copy = [](const Verb &v) { return Verb(new eigenverb_model(*v)); };
    // exchanged: directions refer to the north of each patch
    Answer a = overlap(*s.src, *s.rcv, s.range * sinl(s.bearing), s.range * cosl(s.bearing));
    R turn = s.range / 6.3e6L * (fabsl(tanl(ref::rad(s.rcv->position.latitude()))) + 0.1L) * 1.2L;
    R spread = 1e-6L * (1 + 2 * fabsl(a.exponent));
    for (int k = -1; k <= 1; k += 2)
        for (int m = -1; m <= 1; ++m) {
            eigenverb_model o = *s.src;
            o.direction += (double)(m * turn);
            R b = s.bearing + k * turn, g = s.range * (1 + 2e-3L);  // radius of the other's depth
            Answer q = overlap(o, *s.rcv, g * sinl(b), g * cosl(b));
            spread = std::max(spread, fabsl(q.scale / a.scale - 1) * 2);
        }
    if (spread < 0.2) {
        dvec q = power_of(s.rcv, s.src, scatter);
        for (size_t k = 0; k < p.size(); ++k) c.close(q(k), p(k), 1e-300, (double)spread, "exchanged");
        c.label("exchanged");
    }
    // rotated, and moved
    R by = c.real(-M_PI, M_PI);
    Verb src = copy(s.src), rcv = copy(s.rcv);
    rcv->direction += (double)by, src->direction += (double)by;
    if (c.flip()) rcv->position = wposition1(gen_lat(c, 80), c.real(-179, 179), rcv->position.altitude());
    src->position = s.range == 0 ? rcv->position
                                 : away(rcv->position, s.range, s.bearing + by, src->position.altitude());
    dvec q = power_of(src, rcv, scatter);
    double rel = 1e-6 * (1 + 2 * fabs((double)a.exponent));
    for (size_t k = 0; k < p.size(); ++k) c.close(q(k), p(k), 1e-300, rel, "rotated");
    // pulled apart
    R more = std::max<R>(20, s.range * c.real(1.05, 3));
    src->position = away(rcv->position, more, s.bearing + by, src->position.altitude());
    q = power_of(src, rcv, scatter);
    for (size_t k = 0; k < p.size(); ++k) c.check(q(k) <= p(k) * (1 + rel), "apart");
    c.nontrivial(a.exponent < -0.01 && a.exponent > -50);
}

LAW(P09, history, 1500, 40000,
    "up to 40 additions to random interfaces, many with equal times, then written "
    "to files: every interface holds exactly the pairs above the threshold, in the "
    "order of their times, and its file holds the same; non-trivial: five or more") {
    auto f = gen_freq(c);
    size_t volumes = c.integer(0, 2);
    biverb_collection made(volumes);
    std::vector<std::vector<std::pair<Setup, dvec>>> model(made.num_interfaces());
    int adds = c.integer(0, 40);
    int kept = 0;
    for (int i = 0; i < adds; ++i) {
        Setup s;
        double lat = gen_lat(c, 80), lon = c.real(-170, 170), alt = -c.real(0, 3000);
        s.rcv = gen_verb(c, f, lat, lon, alt), s.src = gen_verb(c, f, 0, 0, 0);
        s.range = 0, s.bearing = 0;
        s.src->position = s.rcv->position;
        if (c.flip(0.3)) s.src->travel_time = s.rcv->travel_time = 2;
        dvec scatter = c.flip(0.2) ? dvec(f->size(), 0.0) : gen_scatter(c, f->size());
        size_t at = c.integer(0, made.num_interfaces() - 1);
        made.add_biverb(s.src, s.rcv, scatter, at);
        R most = 0;
        Answer a = overlap(*s.src, *s.rcv, 0, 0);
        for (size_t k = 0; k < f->size(); ++k)
            most = std::max(most, (R)s.src->power(k) * s.rcv->power(k) * scatter(k) * a.scale);
        if (fabsl(most / 1e-20L - 1) < 1e-3L) c.discard();
        if (most >= 1e-20L) model[at].push_back({s, scatter}), ++kept;
    }
    c.note("adds", adds), c.note("kept", kept), c.note("interfaces", made.num_interfaces());
    for (size_t at = 0; at < model.size(); ++at) {
        auto left = model[at];
        auto list = made.biverbs(at);
        c.equal(made.size(at), left.size(), "count");
        c.equal(list.size(), left.size(), "count");
        double last = -1;
        for (auto &v : list) {
            c.check(v->travel_time >= last, "order");
            last = v->travel_time;
            bool hit = false;
            for (size_t i = 0; i < left.size() && !hit; ++i) {
                auto &s = left[i].first;
                if (s.src->source_de != v->source_de || s.rcv->source_de != v->receiver_de) continue;
                compare(c, *v, *s.src, *s.rcv, left[i].second, overlap(*s.src, *s.rcv, 0, 0), 1e-6);
                left.erase(left.begin() + i);
                hit = true;
            }
            c.check(hit, "stranger");
        }
    }
    // the file of one interface
    size_t at = c.integer(0, made.num_interfaces() - 1);
    std::string name = pbt::scratch_dir() + "/biverbs.nc";
    made.write_netcdf(name.c_str(), at);
    netCDF::NcFile file(name.c_str(), netCDF::NcFile::read);
    if (model[at].empty()) {
        c.check(file.getDim("eigenverbs").isNull(), "file-empty");
        return;
    }
    size_t n = file.getDim("eigenverbs").getSize(), nf = file.getDim("frequencies").getSize();
    c.equal(n, model[at].size(), "file-count");
    c.equal(nf, f->size(), "file-count");
    auto column = [&](const char *what, size_t count) {
        std::vector<double> v(count);
        file.getVar(what).getVar(v.data());
        return v;
    };
    std::map<std::string, std::vector<double>> col;
    for (auto what : {"travel_time", "duration", "de_index", "az_index", "source_de", "source_az", "source_surface",
                      "source_bottom", "source_caustic", "source_upper", "source_lower", "receiver_de", "receiver_az",
                      "receiver_surface", "receiver_bottom", "receiver_caustic", "receiver_upper", "receiver_lower"})
        col[what] = column(what, n);
    auto power = column("power", n * nf), freq = column("frequencies", nf);
    for (size_t k = 0; k < nf; ++k) c.equal(freq[k], (*f)(k), "file-frequencies");
    size_t i = 0;
    for (auto &v : made.biverbs(at)) {
        auto is = [&](const char *what, double value) { c.close(col[what][i], value, 1e-12, 1e-12, "file-part", what); };
        is("travel_time", v->travel_time), is("duration", v->duration);
        is("de_index", v->de_index), is("az_index", v->az_index);
        is("source_de", v->source_de * 180 / M_PI), is("source_az", v->source_az * 180 / M_PI);
        is("receiver_de", v->receiver_de * 180 / M_PI), is("receiver_az", v->receiver_az * 180 / M_PI);
        is("source_surface", v->source_surface), is("source_bottom", v->source_bottom);
        is("source_caustic", v->source_caustic), is("source_upper", v->source_upper);
        is("source_lower", v->source_lower), is("receiver_surface", v->receiver_surface);
        is("receiver_bottom", v->receiver_bottom), is("receiver_caustic", v->receiver_caustic);
        is("receiver_upper", v->receiver_upper), is("receiver_lower", v->receiver_lower);
        for (size_t k = 0; k < nf; ++k)
            c.close(power[i * nf + k], 10 * std::log10(std::max(v->power(k), 1e-30)), 1e-9, 0, "file-power");
        ++i;
    }
    c.nontrivial(kept >= 5);
}

// a scattering strength that depends on everything it is told
class Odd : public scattering_model {
   public:
    double salt;
    Odd(double s) : salt(s) {}
    double value(const wposition1 &at, double f, double di, double ds, double ai, double as) const {
        double x = 0.3 + 0.1 * std::sin(at.latitude() * 3 + at.longitude() * 7 + at.altitude() * 1e-3 + salt);
        return x * (1 + 0.3 * std::sin(f * 0.01)) * (1 + 0.2 * di + 0.1 * ds * ds) *
               (2 + std::cos(ai - 0.3) + 0.5 * std::sin(as * 2 + 0.1));
    }
    void scattering(const wposition1 &at, const seq_vector::csptr &f, double di, double ds, double ai, double as,
                    dvec *out) const override {
        out->resize(f->size());
        for (size_t k = 0; k < f->size(); ++k) (*out)(k) = value(at, (*f)(k), di, ds, ai, as);
    }
    void scattering(const wposition &, const seq_vector::csptr &, double, boost::numeric::ublas::matrix<double>, double,
                    boost::numeric::ublas::matrix<double>,
                    boost::numeric::ublas::matrix<boost::numeric::ublas::vector<double>> *) const override {
        throw std::logic_error("not expected");
    }
};

LAW(P09, generator, 600, 15000,
    "the background task run on generated source and receiver patches in an ocean "
    "with 0-2 volume layers, whose scattering strengths depend on place, frequency "
    "and all four angles: it delivers to its pair one bistatic patch for each "
    "receiver patch and each source patch found around it; non-trivial: three or more") {
    sensor_manager::reset();
    auto f = gen_freq(c);
    size_t volumes = c.integer(0, 2), n = 2 * (1 + volumes);
    std::vector<std::shared_ptr<Odd>> odd;
    for (size_t k = 0; k < 2 + volumes; ++k) odd.push_back(std::shared_ptr<Odd>(new Odd(k * 1.7 + c.real(0, 1))));
    auto *surface = new boundary_flat();
    auto *bottom = new boundary_flat(3000.0);
    bottom->scattering(odd[0]), surface->scattering(odd[1]);
    std::vector<volume_model::csptr> layers;
    for (size_t k = 0; k < volumes; ++k) {
        auto *v = new volume_flat(500.0 * (k + 1), 50.0, -30.0);
        v->scattering(odd[2 + k]);
        layers.push_back(volume_model::csptr(v));
    }
    ocean_shared::update(ocean_model::csptr(
        new ocean_model(boundary_model::csptr(surface), boundary_model::csptr(bottom),
                        profile_model::csptr(new profile_linear(1500.0)), &layers)));
    sensor_manager::instance()->frequencies(f);
    sensor_model::sptr source(new sensor_model(1, "source")), receiver(new sensor_model(2, "receiver"));
    sensor_pair::sptr pair(new sensor_pair(source, receiver));
    // patches in a few clusters
    auto *src = new eigenverb_collection(volumes), *rcv = new eigenverb_collection(volumes);
    eigenverb_collection::csptr src_keep(src), rcv_keep(rcv);
    int clusters = c.integer(1, 3), count = c.integer(0, 12);
    std::vector<wposition1> centre;
    for (int i = 0; i < clusters; ++i)
        centre.push_back(wposition1(gen_lat(c, 60), c.real(-80, 80), -c.real(0, 3000)));
    for (int i = 0; i < 2 * count; ++i) {
        wposition1 at = away(c.pick<wposition1>(centre), c.logreal(10, 3000), c.real(0, 2 * M_PI), -c.real(0, 3000));
        auto v = gen_verb(c, f, at.latitude(), at.longitude(), at.altitude());
        v->length = c.logreal(500, 20000), v->width = c.logreal(500, 20000);
        (i % 2 ? src : rcv)->add_eigenverb(v, c.integer(0, n - 1));
    }
    // what it should deliver
    biverb_collection expect(volumes);
    size_t total = 0;
    for (size_t at = 0; at < n; ++at) {
        auto &o = *odd[at < 2 ? at : 2 + (at - 2) / 2];
        for (auto &r : rcv->eigenverbs(at))
            for (auto &s : src->find_eigenverbs(r, at)) {
                dvec scatter(f->size());
                for (size_t k = 0; k < f->size(); ++k)
                    scatter(k) = o.value(r->position, (*f)(k), s->grazing, r->grazing, s->direction, r->direction);
                expect.add_biverb(s, r, scatter, at);
            }
        total += expect.size(at);
    }
    std::ostringstream quiet;
    auto *old = std::cout.rdbuf(quiet.rdbuf());
    {
        biverb_generator task(pair, src_keep, rcv_keep);
        task.run();
        c.check(task.done(), "done");
    }
    std::cout.rdbuf(old);
    auto got = pair->biverbs();
    c.check(got != nullptr, "delivered");
    c.equal(got->num_interfaces(), n, "interfaces");
    for (size_t at = 0; at < n; ++at) {
        auto a = got->biverbs(at), b = expect.biverbs(at);
        c.equal(a.size(), b.size(), "pairs");
        // neighbours in time may stand in any order
        for (auto &v : a) {
            bool hit = false;
            for (auto w = b.begin(); w != b.end() && !hit; ++w) {
                if (fabs(v->travel_time - (*w)->travel_time) > 1e-12 || v->source_de != (*w)->source_de ||
                    v->receiver_de != (*w)->receiver_de)
                    continue;
                hit = true;
                for (size_t k = 0; k < f->size(); ++k)
                    c.close(v->power(k), (*w)->power(k), 1e-300, 1e-9, "generated-power");
                c.close(v->duration, (*w)->duration, 0, 1e-9, "generated-duration");
                b.erase(w);
                break;
            }
            c.check(hit, "generated");
        }
    }
    c.note("volumes", volumes), c.note("patches", count), c.note("pairs", total);
    c.nontrivial(total >= 3);
    // nothing is delivered once the task is aborted
    if (c.flip(0.2)) {
        std::cout.rdbuf(quiet.rdbuf());
        biverb_generator task(pair, src_keep, rcv_keep);
        task.abort();
        task.run();
        std::cout.rdbuf(old);
        c.check(pair->biverbs() == got, "aborted");
    }
    pair.reset();
    sensor_manager::reset();
    ocean_shared::reset();
}
