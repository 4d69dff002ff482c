// writes files with the library, for the Python readers to read, and lists
// on standard output what is in them
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/ocean/ocean.h>
#include <usml/types/gen_grid.h>
#include <usml/waveq3d/waveq3d.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>

using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::biverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;

static std::mt19937_64 rng;
static double uni(double lo, double hi) {
    return lo + (hi - lo) * (rng() >> 11) / 9007199254740992.0;
}
static int num(int lo, int hi) { return lo + rng() % (hi - lo + 1); }
template <class V>
static void list(const char *name, const V &v, size_t n) {
    printf("%s", name);
    for (size_t i = 0; i < n; ++i) printf(" %.17g", (double)v[i]);
    printf("\n");
}
static seq_vector::csptr freqs(int n) {
    double f0 = uni(50, 5000);
    if (num(0, 1)) return seq_vector::csptr(new seq_log(f0, 1.3, n));
    return seq_vector::csptr(new seq_linear(f0, 100.0, n));
}

static void rays(const char *file, int rows, int cols, int most, int nf) {
    auto f = freqs(nf);
    wposition1 src(uni(-80, 80), uni(-180, 180), -uni(0, 4000));
    wposition tgt(rows, cols);
    matrix<uint64_t> ids(rows, cols);
    for (int r = 0; r < rows; ++r)
        for (int c = 0; c < cols; ++c) {
            tgt.latitude(r, c, uni(-80, 80));
            tgt.longitude(r, c, uni(-180, 180));
            tgt.altitude(r, c, -uni(0, 4000));
            ids(r, c) = num(1, 1000000);
        }
    bool coherent = num(0, 1);
    int id = num(1, 1000000);
    eigenray_collection all(f, src, tgt, id, ids, coherent);
    list("frequencies", *f, f->size());
    printf("sourceID %d\nsource %.17g %.17g %.17g\n", id, src.latitude(),
           src.longitude(), src.altitude());
    for (int r = 0; r < rows; ++r)
        for (int c = 0; c < cols; ++c) {
            printf("target %d %d %llu %.17g %.17g %.17g\n", r, c,
                   (unsigned long long)ids(r, c), tgt.latitude(r, c),
                   tgt.longitude(r, c), tgt.altitude(r, c));
            int n = num(0, most);
            for (int k = 0; k < n; ++k) {
                auto *e = new eigenray_model();
                e->travel_time = uni(0.1, 100);
                e->frequencies = f;
                e->intensity.resize(nf), e->phase.resize(nf);
                for (int i = 0; i < nf; ++i) {
                    e->intensity[i] = uni(40, 150);
                    // whole degrees, which the readers can select
                    e->phase[i] = num(-8, 4) * 45 * M_PI / 180 + uni(-0.005, 0.005);
                }
                e->source_de = uni(-90, 90), e->source_az = uni(-180, 180);
                e->target_de = uni(-90, 90), e->target_az = uni(-180, 180);
                e->surface = num(0, 2), e->bottom = num(0, 2);
                e->caustic = num(0, 2), e->upper = num(0, 2), e->lower = num(0, 2);
                all.add_eigenray(r, c, eigenray_model::csptr(e), num(0, 9));
                printf("ray %d %d %.17g %.17g %.17g %.17g %.17g %d %d %d %d %d",
                       r, c, e->travel_time, e->source_de, e->source_az,
                       e->target_de, e->target_az, e->surface, e->bottom,
                       e->caustic, e->upper, e->lower);
                for (int i = 0; i < nf; ++i) printf(" %.17g", e->intensity[i]);
                for (int i = 0; i < nf; ++i) printf(" %.17g", e->phase[i]);
                printf("\n");
            }
        }
    all.sum_eigenrays();
    for (int r = 0; r < rows; ++r)
        for (int c = 0; c < cols; ++c) {
            const eigenray_model &e = all.total(r, c);
            printf("total %d %d %.17g %.17g %.17g %.17g %.17g %d %d %d %d %d",
                   r, c, e.travel_time, e.source_de, e.source_az, e.target_de,
                   e.target_az, e.surface, e.bottom, e.caustic, e.upper,
                   e.lower);
            for (int i = 0; i < nf; ++i) printf(" %.17g", e.intensity[i]);
            for (int i = 0; i < nf; ++i) printf(" %.17g", e.phase[i]);
            printf("\n");
        }
    all.write_netcdf(file);
}

static void wave(const char *file, int nde, int naz, int steps, int nf) {
    auto f = freqs(nf);
    double depth = uni(100, 2000);
    ocean_model::csptr ocean(new ocean_model(
        boundary_model::csptr(new boundary_flat()),
        boundary_model::csptr(new boundary_flat(depth)),
        profile_model::csptr(new profile_linear(1500.0, uni(-0.05, 0.05)))));
    wposition1 src(uni(-80, 80), uni(-179, 179), -uni(1, depth - 1));
    seq_vector::csptr de(new seq_linear(uni(-80, 0), uni(1, 10), nde));
    seq_vector::csptr az(new seq_linear(uni(-180, 0), uni(1, 40), naz));
    double dt = uni(0.01, 0.1);
    wave_queue w(ocean, f, src, de, az, dt);
    list("frequencies", *f, nf), list("source_de", *de, nde), list("source_az", *az, naz);
    w.init_netcdf(file);
    auto record = [&]() {
        w.save_netcdf();
        auto *k = w.curr();
        printf("travel_time %.17g\n", w.time());
        for (int i = 0; i < nde; ++i)
            for (int j = 0; j < naz; ++j)
                printf("cell %d %d %.17g %.17g %.17g %d %d %d %d %d %d\n", i, j,
                       k->position.latitude(i, j), k->position.longitude(i, j),
                       k->position.altitude(i, j), k->surface(i, j),
                       k->bottom(i, j), k->caustic(i, j), k->upper(i, j),
                       k->lower(i, j), (int)k->on_edge(i, j));
    };
    record();
    for (int n = 0; n < steps; ++n) w.step(), record();
    w.close_netcdf();
}

static void verbs(const char *file, int n, int nf) {
    auto f = freqs(nf);
    eigenverb_collection all(1);
    list("frequencies", *f, nf);
    int face = num(0, 3);
    for (int k = 0; k < n; ++k) {
        auto *v = new eigenverb_model();
        v->travel_time = uni(0, 100), v->frequencies = f;
        v->power.resize(nf);
        for (int i = 0; i < nf; ++i) v->power[i] = std::pow(10, uni(-10, 0));
        v->length = uni(1, 5000), v->width = uni(1, 5000);
        v->position = wposition1(uni(-80, 80), uni(-179, 179), -uni(0, 4000));
        v->direction = uni(0, 2 * M_PI), v->grazing = uni(0.01, M_PI_2);
        v->sound_speed = uni(1400, 1600);
        v->de_index = num(0, 50), v->az_index = num(0, 50);
        v->source_de = uni(-M_PI_2, M_PI_2), v->source_az = uni(-M_PI, M_PI);
        v->surface = num(0, 9), v->bottom = num(0, 9), v->caustic = num(0, 9);
        v->upper = num(0, 9), v->lower = num(0, 9);
        all.add_eigenverb(eigenverb_model::csptr(v), face);
        printf("verb %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %zu "
               "%zu %.17g %.17g %d %d %d %d %d",
               v->travel_time, v->length, v->width, v->position.latitude(),
               v->position.longitude(), v->position.altitude(),
               v->direction * 180 / M_PI, v->grazing * 180 / M_PI,
               v->sound_speed, v->de_index, v->az_index,
               v->source_de * 180 / M_PI, v->source_az * 180 / M_PI, v->surface,
               v->bottom, v->caustic, v->upper, v->lower);
        for (int i = 0; i < nf; ++i) printf(" %.17g", 10 * log10(v->power[i]));
        printf("\n");
    }
    all.write_netcdf(file, face);
}

// a grid of two or three dimensions in the library's own coordinates
template <size_t N>
static void grid(const char *file, const int *size) {
    seq_vector::csptr axis[N];
    size_t total = 1;
    printf("earth_radius %.17g\n", wposition::earth_radius);
    for (size_t d = 0; d < N; ++d) {
        int n = size[d];
        double first, step;
        if (N == 3 && d == 0) {
            first = wposition::earth_radius - uni(0, 100), step = -uni(1, 200);
        } else if (d + 2 == N) {
            first = to_colatitude(uni(-60, 60));
            step = (num(0, 1) ? 1 : -1) * uni(1e-4, 1e-2);
        } else {
            first = to_radians(uni(-180, 170)), step = uni(1e-4, 1e-2);
        }
        if (num(0, 1)) {
            std::vector<double> v{first};
            for (int k = 1; k < n; ++k) v.push_back(v.back() + step * uni(0.5, 2));
            axis[d].reset(new seq_data(v.data(), n));
        } else
            axis[d].reset(new seq_linear(first, step, n));
        total *= n;
        list("axis", *axis[d], n);
    }
    gen_grid<N, double> g(axis);
    printf("data");
    size_t index[N] = {0};
    for (size_t k = 0; k < total; ++k) {
        double x = N == 2 ? wposition::earth_radius - uni(-100, 5000)
                          : uni(1400, 1600);
        g.setdata(index, x);
        printf(" %.17g", x);
        for (size_t d = N; d-- > 0;)
            if (++index[d] < axis[d]->size()) break;
            else index[d] = 0;
    }
    printf("\n");
    g.write_netcdf(file);
}

int main(int argc, char **argv) {
    if (argc < 9) return 2;
    std::string kind = argv[1];
    const char *file = argv[2];
    rng.seed(strtoull(argv[3], nullptr, 10));
    if (atof(argv[4]) != 0) wposition::compute_earth_radius(atof(argv[4]));
    int n[4];
    for (int i = 0; i < 4; ++i) n[i] = atoi(argv[5 + i]);
    if (kind == "rays") rays(file, n[0], n[1], n[2], n[3]);
    else if (kind == "wave") wave(file, n[0], n[1], n[2], n[3]);
    else if (kind == "verbs") verbs(file, n[0], n[3]);
    else if (kind == "grid2") grid<2>(file, n);
    else if (kind == "grid3") grid<3>(file, n);
    else return 2;
    return 0;
}
