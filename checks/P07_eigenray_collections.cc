// P07: eigenray collections keep, total, update and store every path
#include <usml/eigenrays/eigenrays.h>
#include <usml/ocean/ocean.h>
#include <usml/types/seq_data.h>

#include <complex>
#include <netcdf>

#include "pbt.h"
#include "util.h"

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using pbt::Case;
using ref::Vec;
typedef long double R;
namespace ub = boost::numeric::ublas;

static seq_vector::csptr gen_freq(Case &c) {
    int n = c.integer(1, 4);
    std::vector<double> f;
    double x = c.logreal(10, 5000);
    for (int i = 0; i < n; ++i) f.push_back(x), x *= c.real(1.1, 3);
    c.notev("f", f, f.size());
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}

static eigenray_model *gen_ray(Case &c, const seq_vector::csptr &f, bool mild) {
    auto *y = new eigenray_model();
    y->frequencies = f;
    y->travel_time = mild ? c.logreal(1, 100) : c.logreal(1e-3, 1000);
    y->intensity.resize(f->size());
    y->phase.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) {
        y->intensity(k) = c.real(40, 140, {60.0, 100.0});
        y->phase(k) = c.real(-7, 7, {0.0, -M_PI, M_PI_2});
    }
    y->source_de = c.real(-90, 90, {0.0, 45.0});
    y->source_az = c.real(-180, 360, {0.0, 180.0, -90.0});
    y->target_de = c.real(-90, 90, {0.0, 45.0});
    y->target_az = c.real(-180, 360, {0.0, 180.0, -90.0});
    y->surface = c.integer(0, 40), y->bottom = c.integer(0, 40);
    y->caustic = c.integer(0, 40);
    y->upper = c.integer(0, 40), y->lower = c.integer(0, 40);
    return y;
}

struct Setup {
    seq_vector::csptr f;
    wposition1 source;
    wposition targets{1, 1};
    ub::matrix<uint64_t> ids;
    uint64_t source_id;
    size_t n1, n2;
    bool with_ids, coherent;
    std::shared_ptr<eigenray_collection> made;
};

static Setup setup(Case &c) {
    Setup s;
    s.f = gen_freq(c);
    s.source = wposition1(c.real(-89, 89, {0.0}), c.real(-180, 180, {180.0}), -c.logreal(0.1, 5000));
    s.n1 = c.integer(1, 4), s.n2 = c.integer(1, 4);
    s.targets = wposition(s.n1, s.n2);
    s.with_ids = c.flip(0.7);
    s.coherent = c.flip(0.5);
    s.source_id = c.integer(0, 1000);
    if (s.with_ids) s.ids.resize(s.n1, s.n2);
    for (size_t i = 0; i < s.n1; ++i)
        for (size_t j = 0; j < s.n2; ++j) {
            s.targets.latitude(i, j, c.real(-89, 89, {0.0}));
            s.targets.longitude(i, j, c.real(-180, 180, {180.0}));
            s.targets.altitude(i, j, -c.logreal(0.1, 5000));
            if (s.with_ids) s.ids(i, j) = c.integer(1, 12) + (c.flip(0.1) ? (1ull << 40) : 0);
        }
    c.note("rows", s.n1), c.note("cols", s.n2), c.note("ids", s.with_ids);
    c.note("coherent", s.coherent);
    s.made.reset(new eigenray_collection(s.f, s.source, s.targets, s.source_id,
                                         s.with_ids ? s.ids : ub::matrix<uint64_t>(), s.coherent));
    return s;
}

// totals of one target, as documented
static void check_total(Case &c, const Setup &s, const std::vector<eigenray_model::csptr> &rays,
                        const eigenray_model &got) {
    size_t nf = s.f->size();
    R weight = 0, time = 0, de[2] = {0, 0}, az[2][2] = {{0, 0}, {0, 0}};
    R strongest = 1e30, second = 1e30;
    const eigenray_model *best = nullptr;
    for (size_t k = 0; k < nf; ++k) {
        std::complex<R> p(0, 0);
        R power = 0, all = 0;
        for (auto &y : rays) {
            R a = powl(10, -(R)y->intensity(k) / 20);
            R w = 2 * ref::PI * (*s.f)(k) * (R)y->travel_time + y->phase(k);
            p += std::complex<R>(a * cosl(w), a * sinl(w));
            power += a * a, all += a;
            weight += a * a, time += a * a * y->travel_time;
            de[0] += a * a * y->source_de, de[1] += a * a * y->target_de;
            R z[2] = {ref::rad(y->source_az), ref::rad(y->target_az)};
            for (int e = 0; e < 2; ++e) az[e][0] += a * a * sinl(z[e]), az[e][1] += a * a * cosl(z[e]);
            if (y->intensity(k) < strongest) {
                if (best != y.get()) second = strongest;
                strongest = y->intensity(k), best = y.get();
            } else if (y.get() != best)
                second = std::min<R>(second, y->intensity(k));
        }
        std::ostringstream w;
        w << "frequency " << k << " of " << rays.size() << " rays";
        if (rays.empty()) {
            c.check(got.intensity(k) > 200, "no-rays", w.str());
            continue;
        }
        // phases are sums of many cycles in double precision
        R slip = 0;
        for (auto &y : rays) slip = std::max(slip, (R)(*s.f)(k) * y->travel_time * 2e-15L + 1e-13L);
        if (s.coherent) {
            R h = std::abs(p);
            c.close(powl(10, -(R)got.intensity(k) / 20), h, 10 * slip * all, 1e-12, "coherent-total", w.str());
            if (h > 1e4 * slip * all) {
                R d = fmodl((R)got.phase(k) - std::arg(p), 2 * ref::PI);
                if (d > ref::PI) d -= 2 * ref::PI;
                if (d < -ref::PI) d += 2 * ref::PI;
                c.close(d, 0, 20 * slip * all / h + 1e-12, 0, "total-phase", w.str());
            }
        } else
            c.close(got.intensity(k), -10 * log10l(power), 1e-9, 0, "incoherent-total", w.str());
    }
    if (rays.empty()) {
        c.check(got.surface == -1 && got.bottom == -1 && got.caustic == -1, "no-rays", "counts");
        c.check(std::isfinite(got.travel_time) && std::isfinite(got.source_de) &&
                    std::isfinite(got.target_de) && std::isfinite(got.source_az),
                "no-rays-nan", "descriptors of a target without eigenrays");
        return;
    }
    c.close(got.travel_time, time / weight, 0, 1e-10, "total-time");
    c.close(got.source_de, de[0] / weight, 1e-9, 0, "total-source-de");
    c.close(got.target_de, de[1] / weight, 1e-9, 0, "total-target-de");
    for (int e = 0; e < 2; ++e) {
        R h = std::hypot(az[e][0], az[e][1]);
        if (h < 1e-6 * weight) continue;
        R want = ref::deg(std::atan2(az[e][0], az[e][1]));
        c.close(ref::angdiff(e ? got.target_az : got.source_az, want), 0, 1e-12 * weight / h * 100, 0,
                e ? "total-target-az" : "total-source-az");
    }
    if (second > strongest + 1e-9) {
        bool ok = got.surface == best->surface && got.bottom == best->bottom &&
                  got.caustic == best->caustic && got.upper == best->upper && got.lower == best->lower;
        c.check(ok, "total-counts", "counts are not those of the strongest ray");
    }
}

LAW(P07, history, 40000, 300000,
    "1x1 to 4x4 targets with or without identifiers, coherent or not, 1-4 "
    "frequencies, 0-25 additions to random targets with repeated totals in "
    "between: lists hold the same eigenrays in order, first arrivals, searches by "
    "identifier and totals agree with a model in long double; non-trivial: three "
    "eigenrays or more") {
    Setup s = setup(c);
    std::map<std::pair<size_t, size_t>, std::vector<eigenray_model::csptr>> model;
    int adds = c.integer(0, 25);
    c.note("adds", adds);
    for (int n = 0; n <= adds; ++n) {
        if (n == adds || c.flip(0.1)) {
            s.made->sum_eigenrays();
            for (size_t i = 0; i < s.n1; ++i)
                for (size_t j = 0; j < s.n2; ++j)
                    check_total(c, s, model[{i, j}], s.made->total(i, j));
        }
        if (n == adds) break;
        size_t i = c.integer(0, s.n1 - 1), j = c.integer(0, s.n2 - 1);
        eigenray_model::csptr y(gen_ray(c, s.f, false));
        model[{i, j}].push_back(y);
        s.made->add_eigenray(i, j, y, c.integer(0, 5));
    }
    c.equal(s.made->size1(), s.n1, "shape");
    c.equal(s.made->size2(), s.n2, "shape");
    c.equal(s.made->coherent(), s.coherent, "coherent-flag");
    c.equal(s.made->sourceID(), s.source_id, "source-id");
    for (size_t i = 0; i < s.n1; ++i)
        for (size_t j = 0; j < s.n2; ++j) {
            auto &want = model[{i, j}];
            auto &got = s.made->eigenrays(i, j);
            c.equal(got.size(), want.size(), "list", "number of eigenrays");
            c.check(std::equal(want.begin(), want.end(), got.begin()), "list", "eigenrays of a target");
            double first = 0;
            for (auto &y : want)
                if (first == 0 || y->travel_time < first) first = y->travel_time;
            c.equal(s.made->initial_time(i, j), first, "initial-time");
            uint64_t id = s.with_ids ? s.ids(i, j) : 0;
            c.equal(s.made->targetID(i, j), id, "target-id");
            wposition1 p = s.made->position(i, j);
            c.check(p.rho() == s.targets.rho(i, j) && p.theta() == s.targets.theta(i, j) &&
                        p.phi() == s.targets.phi(i, j), "target-position");
        }
    for (uint64_t id = 1; s.with_ids && id <= 13; ++id) {
        const std::vector<eigenray_model::csptr> *want = nullptr;
        for (size_t i = 0; i < s.n1 && !want; ++i)
            for (size_t j = 0; j < s.n2 && !want; ++j)
                if (s.ids(i, j) == id) want = &model[{i, j}];
        eigenray_list got = s.made->find_eigenrays(id);
        c.equal(got.size(), want ? want->size() : 0, "find", "number of eigenrays");
        if (want) c.check(std::equal(want->begin(), want->end(), got.begin()), "find", "eigenrays by identifier");
        double first = 0;
        if (want)
            for (auto &y : *want)
                if (first == 0 || y->travel_time < first) first = y->travel_time;
        c.equal(s.made->find_initial_time(id), first, "find-initial-time");
    }
    c.nontrivial(adds >= 3);
    c.label(s.coherent ? "coherent" : "incoherent");
}

LAW(P07, file, 1000, 6000,
    "the same collections written and read back: source, targets, identifiers, "
    "frequencies, first arrivals, the index of each target's total and eigenrays "
    "and every value of both; non-trivial: two targets or more and three "
    "eigenrays or more") {
    Setup s = setup(c);
    int adds = c.integer(0, 12);
    for (int n = 0; n < adds; ++n) {
        size_t i = c.integer(0, s.n1 - 1), j = c.integer(0, s.n2 - 1);
        s.made->add_eigenray(i, j, eigenray_model::csptr(gen_ray(c, s.f, false)));
    }
    c.note("adds", adds);
    s.made->sum_eigenrays();
    std::string name = pbt::scratch_dir() + "/rays.nc";
    if (c.flip(0.5))
        s.made->write_netcdf(name.c_str());
    else
        s.made->write_netcdf(name.c_str(), "some name");
    netCDF::NcFile nc(name, netCDF::NcFile::read);
    auto all = [&](const char *v, size_t n) {
        std::vector<double> x(n);
        nc.getVar(v).getVar(x.data());
        return x;
    };
    auto scalar = [&](const char *v) {
        double x = -1e300;
        nc.getVar(v).getVar(&x);
        return x;
    };
    c.equal(nc.getDim("rows").getSize(), s.n1, "file-shape");
    c.equal(nc.getDim("cols").getSize(), s.n2, "file-shape");
    c.equal(scalar("sourceID"), (double)s.source_id, "file-source-id");
    c.close(scalar("source_latitude"), s.source.latitude(), 1e-9, 0, "file-source");
    c.close(scalar("source_longitude"), s.source.longitude(), 1e-9, 0, "file-source");
    c.close(scalar("source_altitude"), s.source.altitude(), 1e-6, 0, "file-source");
    size_t nf = s.f->size(), nt = s.n1 * s.n2, total = adds + nt;
    c.equal(nc.getDim("frequencies").getSize(), nf, "file-shape");
    c.equal(nc.getDim("eigenrays").getSize(), total, "file-shape", "records");
    auto f = all("frequencies", nf);
    for (size_t k = 0; k < nf; ++k) c.equal(f[k], (*s.f)(k), "file-frequencies");
    auto lat = all("latitude", nt), lon = all("longitude", nt), alt = all("altitude", nt);
    auto id = all("targetID", nt), first = all("initial_time", nt);
    auto sum_at = all("proploss_index", nt), ray_at = all("eigenray_index", nt), num = all("eigenray_num", nt);
    std::vector<std::vector<double>> field;
    for (auto v : {"travel_time", "source_de", "source_az", "target_de", "target_az", "surface", "bottom",
                   "caustic", "upper", "lower"})
        field.push_back(all(v, total));
    auto inten = all("intensity", total * nf), phase = all("phase", total * nf);
    std::vector<int> used(total, 0);
    auto compare = [&](size_t at, const eigenray_model &y, const char *key, bool counts) {
        std::ostringstream w;
        w << "record " << at;
        c.check(at < total, key, w.str());
        ++used[at];
        double want[10] = {y.travel_time, y.source_de, y.source_az, y.target_de, y.target_az,
                           (double)y.surface, (double)y.bottom, (double)y.caustic, (double)y.upper,
                           (double)y.lower};
        for (int q = 0; q < (counts ? 10 : 5); ++q)
            c.check(field[q][at] == want[q], key, w.str() + " field " + std::to_string(q));
        for (size_t k = 0; k < nf; ++k)
            c.check(inten[at * nf + k] == y.intensity(k) && phase[at * nf + k] == y.phase(k), key,
                    w.str() + " intensity or phase");
    };
    for (size_t i = 0; i < s.n1; ++i)
        for (size_t j = 0; j < s.n2; ++j) {
            size_t t = i * s.n2 + j;
            c.close(lat[t], s.targets.latitude(i, j), 1e-9, 0, "file-target");
            c.close(lon[t], s.targets.longitude(i, j), 1e-9, 0, "file-target");
            c.close(alt[t], s.targets.altitude(i, j), 1e-6, 0, "file-target");
            c.equal(id[t], (double)(s.with_ids ? s.ids(i, j) : 0), "file-target-id");
            c.equal(first[t], s.made->initial_time(i, j), "file-initial-time");
            auto &rays = s.made->eigenrays(i, j);
            c.equal(num[t], (double)rays.size(), "file-index");
            compare((size_t)sum_at[t], s.made->total(i, j), "file-total", true);
            size_t k = (size_t)ray_at[t];
            for (auto &y : rays) compare(k++, *y, "file-eigenray", true);
        }
    for (auto u : used) c.equal(u, 1, "file-index", "each record belongs to one target");
    c.nontrivial(nt > 1 && adds >= 3);
}

LAW(P07, dead_reckon, 30000, 200000,
    "targets with 1-5 eigenrays at any angles, source and target moved by 0-200 "
    "meters in any direction, sound speeds of isovelocity and linear profiles: "
    "travel times change by the change of length along each path's own direction "
    "at that end, losses by the change of spherical spreading and absorption, "
    "everything else and the stored eigenrays stay; non-trivial: both ends moved") {
    seq_vector::csptr f = gen_freq(c);
    double c0 = c.real(1430, 1560), g = c.real(-0.05, 0.05, {0.0});
    attenuation_model::csptr att;
    bool thorp = c.flip(0.7);
    if (thorp)
        att.reset(new attenuation_thorp());
    else
        att.reset(new attenuation_constant(c.real(0, 1e-3)));
    profile_model::csptr water(g == 0 ? new profile_linear(c0, att) : new profile_linear(c0, g, att));
    wposition1 at[2], to[2];
    Vec move[2];
    double size[2];
    wposition targets(1, 2);
    for (int e = 0; e < 2; ++e) {
        at[e] = wposition1(c.real(-70, 70, {0.0, 45.0}), c.real(-179.9, 179.9, {0.0}), -c.real(250, 5000));
        size[e] = c.flip(0.15) ? 0 : c.logreal(1, 200);
        double up = c.real(-90, 90, {0.0, 90.0}), az = c.real(-180, 180, {0.0, 90.0});
        R a = ref::rad(up), b = ref::rad(az);
        move[e] = Vec(size[e] * cosl(a) * sinl(b), size[e] * cosl(a) * cosl(b), size[e] * sinl(a));
        R r = at[e].rho(), th = at[e].theta();
        to[e] = at[e];
        to[e].theta(th - move[e].y / r);
        to[e].phi(at[e].phi() + move[e].x / (r * sinl(th)));
        to[e].rho(r + move[e].z);
        c.note(e ? "target-move" : "source-move", size[e]);
        c.note("up", up), c.note("toward", az);
    }
    targets.rho(0, 1, at[1].rho()), targets.theta(0, 1, at[1].theta()), targets.phi(0, 1, at[1].phi());
    targets.rho(0, 0, at[0].rho()), targets.theta(0, 0, at[0].theta()), targets.phi(0, 0, at[0].phi());
    eigenray_collection made(f, at[0], targets);
    int n = c.integer(1, 5);
    std::vector<eigenray_model::csptr> rays;
    for (int i = 0; i < n; ++i) {
        rays.push_back(eigenray_model::csptr(gen_ray(c, f, true)));
        made.add_eigenray(0, 1, rays.back());
    }
    std::vector<eigenray_model> before;
    for (auto &y : rays) before.push_back(*y);
    eigenray_list got = made.dead_reckon(0, 1, to[0], to[1], water);
    c.equal(got.size(), rays.size(), "reckon-count");
    size_t i = 0;
    for (auto &p : got) {
        const eigenray_model &y = before[i], &z = *p;
        std::ostringstream w;
        w << "ray " << i++ << " t " << y.travel_time << " de " << y.source_de << " az " << y.source_az
          << " at de " << y.target_de << " az " << y.target_az;
        R along[2], speed[2], slack = 0;
        for (int e = 0; e < 2; ++e) {
            R a = ref::rad(e ? y.target_de : y.source_de), b = ref::rad(e ? y.target_az : y.source_az);
            along[e] = Vec(cosl(a) * sinl(b), cosl(a) * cosl(b), sinl(a)).dot(move[e]);
            speed[e] = c0 + g * (wposition::earth_radius - at[e].rho());
            // change of gradients and directions over the move
            slack += size[e] * (size[e] / 6e6 * 4 + 0.05 * size[e] / 1400) + 2e-3;
        }
        R change = along[1] / speed[1] - along[0] / speed[0];
        c.close(z.travel_time - y.travel_time, change, slack / 1400, 0, "reckon-time", w.str());
        // one path of the same length in water of one speed
        R r1 = y.travel_time * (speed[0] + speed[1]) / 2, r2 = r1 + along[1] - along[0];
        for (size_t k = 0; k < f->size() && r2 > 0.5 * r1; ++k) {
            R want = 20 * log10l(r2 / r1);
            ub::matrix<double> d(1, 1);
            ub::matrix<ub::vector<double>> out(1, 1);
            out(0, 0).resize(f->size());
            d(0, 0) = 1000;
            water->attenuation(wposition(at[0]), f, d, &out);
            R alpha = out(0, 0)(k) / 1000;
            R absorb = alpha * (r2 - r1);
            R tol = 20 / logl(10) * (size[0] + size[1]) / r1 * (0.12L + (size[0] + size[1]) / r1) +
                    fabsl(alpha) * (size[0] + size[1]) * 0.2L + 1e-6L + 20 / logl(10) * slack / r1;
            c.close(z.intensity(k) - y.intensity(k), want + absorb, tol, 0, "reckon-loss", w.str());
            c.equal(z.phase(k), y.phase(k), "reckon-other", w.str());
        }
        c.check(z.source_de == y.source_de && z.source_az == y.source_az && z.target_de == y.target_de &&
                    z.target_az == y.target_az && z.surface == y.surface && z.bottom == y.bottom &&
                    z.caustic == y.caustic && z.upper == y.upper && z.lower == y.lower,
                "reckon-other", w.str());
    }
    i = 0;
    for (auto &p : made.eigenrays(0, 1)) {
        const eigenray_model &y = before[i++];
        bool same = p->travel_time == y.travel_time;
        for (size_t k = 0; k < f->size(); ++k) same = same && p->intensity(k) == y.intensity(k);
        c.check(same, "reckon-stored", "eigenrays of the collection changed");
    }
    c.nontrivial(size[0] > 0 && size[1] > 0);
}
