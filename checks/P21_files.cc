// P21: environmental files load at the right place, gap filling leaves data
// alone
#include <usml/netcdf/netcdf_files.h>
#include <usml/ocean/ascii_arc_bathy.h>
#include <usml/ocean/ascii_profile.h>
#include <usml/ocean/reflect_loss_netcdf.h>
#include <usml/types/types.h>

#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iomanip>
#include <memory>

#include "pbt.h"
#include "util.h"

using namespace usml::netcdf;
using namespace usml::types;
using pbt::Case;
typedef long double R;

// the directory of the worker process, removed with it
static std::string fresh(const char *name) {
    std::string f = pbt::scratch_dir() + "/" + name;
    unlink(f.c_str());
    return f;
}

// one evenly spaced horizontal axis of a file
struct Axis {
    double first, inc;
    int size;
    int period = 0;  // nodes around the world, 0 when regional
    double at(int k) const { return first + k * inc; }
    double last() const { return at(size - 1); }
    std::vector<double> values() const {
        std::vector<double> v(size);
        for (int k = 0; k < size; ++k) v[k] = at(k);
        return v;
    }
};
struct Window {
    double lo, hi;
};
static Axis gen_lng(Case &c) {
    Axis a;
    int kind = c.integer(0, 2);
    if (kind < 2) {  // around the world
        double step = c.pick<double>({10, 5, 15, 30, 20, 1, 2});
        a.inc = step;
        a.period = (int)std::lround(360 / step);
        a.first = (kind == 0 ? 0.0 : -180.0) + c.pick<double>({0.0, step / 2});
        a.size = a.period + (c.flip(0.3) ? 1 : 0);
        c.label(kind == 0 ? "0 to 360" : "-180 to 180");
        if (a.size > a.period) c.label("duplicate column");
    } else {
        a.inc = c.pick<double>({0.25, 1, 0.1, 2.5});
        a.size = c.integer(3, 30);
        a.first = c.flip() ? c.integer(-180, 340)
                           : c.integer(-180, 340) + c.real(0, 1);
        if (a.last() > 360) a.first -= a.last() - 360;
        c.label("regional");
    }
    return a;
}
static Axis gen_lat(Case &c) {
    Axis a;
    if (c.flip()) {
        a.inc = c.pick<double>({10, 5, 15, 30});
        bool center = c.flip();
        a.first = center ? -90 + a.inc / 2 : -90;
        a.size = (int)std::lround(180 / a.inc) + (center ? 0 : 1);
    } else {
        a.inc = c.pick<double>({0.25, 1, 0.1, 2.5});
        a.size = c.integer(3, 12);
        a.first = c.real(-85, 85 - a.inc * a.size);
    }
    return a;
}
// window in the convention the documentation asks for
static Window gen_lng_window(Case &c, const Axis &a) {
    Window w;
    if (a.period) {
        if (c.flip(0.1)) {
            w.lo = c.flip() ? -180 : 0, w.hi = w.lo + 360;
            c.label("whole circle");
            return w;
        }
        w.lo = c.flip() ? a.at(c.integer(0, a.size)) + a.inc * c.integer(0, 4) / 4
                        : c.real(-180, 180);
        double cells = c.flip(0.8) ? c.real(0.1, 6) : c.real(0.1, a.period - 1);
        w.hi = w.lo + cells * a.inc;
    } else {
        double span = a.last() - a.first;
        double p = c.real(-0.3, 1.2), q = p + c.real(0.02, 1.4);
        w.lo = a.first + p * span, w.hi = a.first + q * span;
        if (c.flip(0.3)) w.lo = a.at(c.integer(0, a.size - 2));
        if (w.hi <= w.lo) w.hi = w.lo + a.inc;
    }
    double width = w.hi - w.lo;
    w.lo = std::remainder(w.lo, 360.0);
    if (w.lo >= 180) w.lo -= 360;
    w.hi = w.lo + width;
    if (w.lo < 0 && w.hi > 180) c.discard();  // neither convention applies
    if (w.hi <= 0 && c.flip()) w.lo += 360, w.hi += 360;
    if (w.lo < 0 && w.hi > 0) c.label("across 0");
    if (w.lo < 180 && w.hi > 180) c.label("across 180");
    return w;
}
static Window gen_lat_window(Case &c, const Axis &a) {
    double span = a.last() - a.first;
    double p = c.real(-0.2, 0.95), q = p + c.real(0.02, 1.2);
    Window w{a.first + p * span, a.first + q * span};
    if (c.flip(0.3)) w.lo = a.at(c.integer(0, a.size - 2));
    if (w.hi <= w.lo) w.hi = w.lo + a.inc;
    w.lo = std::max(w.lo, -90.0), w.hi = std::min(w.hi, 90.0);
    if (w.hi <= a.first + 0.01 * a.inc || w.lo >= a.last() - 0.01 * a.inc)
        c.discard();
    return w;
}
// shift that lets a regional file and a window overlap, discards others
static double regional_shift(Case &c, const Axis &a, const Window &w) {
    int found = 0;
    double shift = 0;
    for (double s : {-720.0, -360.0, 0.0, 360.0, 720.0}) {
        if (w.hi + s > a.first && w.lo + s < a.last()) ++found, shift = s;
        // touching the edge of the file
        if (std::abs(w.hi + s - a.first) < 0.01 * a.inc ||
            std::abs(w.lo + s - a.last()) < 0.01 * a.inc)
            c.discard();
    }
    if (found != 1) c.discard();
    return shift;
}
// matches nodes of a loaded axis (degrees) with those of the file
static std::vector<int> match(Case &c, const std::vector<double> &axis,
                              const Axis &a, const Window &w, double shift,
                              const char *key) {
    double eps = 1e-5 * a.inc;
    std::vector<int> index;
    for (size_t n = 0; n < axis.size(); ++n) {
        double k = (axis[n] + shift - a.first) / a.inc;
        int i = (int)std::lround(k);
        c.check(std::abs(k - i) < 1e-5, key,
                "node at " + std::to_string(axis[n]) +
                    " is not a node of the file");
        if (n > 0) c.check(i == index.back() + 1, key, "nodes in order");
        index.push_back(i);
    }
    c.check(!index.empty(), key, "no nodes");
    bool open = a.period > 0;
    double front = axis.front(), back = axis.back();
    std::string at = " for " + std::to_string(w.lo) + " to " +
                     std::to_string(w.hi) + " got " + std::to_string(front) +
                     " to " + std::to_string(back);
    bool at_start = !open && index.front() == 0;
    bool at_end = !open && index.back() == a.size - 1;
    c.check(front <= w.lo + eps || at_start, key, "starts late" + at);
    c.check(back >= w.hi - a.inc / 2 - eps || at_end, key, "ends early" + at);
    c.check(front > w.lo - a.inc - eps, key, "starts early" + at);
    c.check(back <= w.hi + a.inc / 2 + eps, key, "ends late" + at);
    for (int &i : index) {
        if (open) i = ((i % a.period) + a.period) % a.period;
        c.check(i >= 0 && i < a.size, key, "node outside of the file" + at);
    }
    return index;
}
static std::vector<double> degrees_lat(const seq_vector &ax) {
    std::vector<double> v;
    for (size_t n = 0; n < ax.size(); ++n)
        v.push_back((double)(90.0L - ref::deg(ax(n))));
    return v;
}
static std::vector<double> degrees_lng(const seq_vector &ax) {
    std::vector<double> v;
    for (size_t n = 0; n < ax.size(); ++n)
        v.push_back((double)ref::deg(ax(n)));
    return v;
}

LAW(P21, bathymetry_windows, 2500, 40000,
    "bathymetry files around the world (0 to 360 or -180 to 180, node or cell "
    "centered, with or without a duplicate column) and regional ones in "
    "either convention of the longitude; windows anywhere, across 0 and 180, "
    "partly outside of the file: position and value of every node, coverage; "
    "non-trivial: window across 0 or 180 or past the cut of the file") {
    Axis lng = gen_lng(c), lat = gen_lat(c);
    Window ew = gen_lng_window(c, lng), ns = gen_lat_window(c, lat);
    double shift = lng.period ? 0 : regional_shift(c, lng, ew);
    c.note("lng", lng.first), c.note("step", lng.inc), c.note("n", lng.size);
    c.note("west", ew.lo), c.note("east", ew.hi);
    c.note("south", ns.lo), c.note("north", ns.hi);
    std::vector<double> z(lat.size * lng.size);
    int kind = c.integer(0, 2);  // short, float, double
    double base = c.integer(-6000, 0);
    for (int i = 0; i < lat.size; ++i)
        for (int j = 0; j < lng.size; ++j) {
            int k = lng.period ? j % lng.period : j;
            z[i * lng.size + j] =
                base + 13 * i + (k % 97) - 0.5 * k * (kind > 0);
        }
    std::string name = fresh("bathy.nc");
    {
        using namespace netCDF;
        NcFile f(name, NcFile::replace);
        NcDim d[2] = {f.addDim("lat", lat.size), f.addDim("lon", lng.size)};
        NcVar a = f.addVar("lat", ncDouble, d[0]),
              b = f.addVar("lon", ncDouble, d[1]);
        NcType t = kind == 0   ? (NcType)ncShort
                   : kind == 1 ? (NcType)ncFloat
                               : (NcType)ncDouble;
        NcVar v = f.addVar("z", t, {d[0], d[1]});
        a.putVar(lat.values().data());
        b.putVar(lng.values().data());
        v.putVar(z.data());
    }
    bool surface = c.flip(0.3);
    double radius = surface ? 0.0 : (double)wposition::earth_radius;
    std::unique_ptr<netcdf_bathy> grid(
        surface ? new netcdf_bathy(name.c_str(), ns.lo, ns.hi, ew.lo, ew.hi,
                                   0.0)
                : new netcdf_bathy(name.c_str(), ns.lo, ns.hi, ew.lo, ew.hi));
    auto rows = match(c, degrees_lat(grid->axis(0)), lat, ns, 0, "latitudes");
    auto cols = match(c, degrees_lng(grid->axis(1)), lng, ew, shift,
                      "longitudes");
    for (size_t i = 0; i < rows.size(); ++i)
        for (size_t j = 0; j < cols.size(); ++j) {
            size_t index[2] = {i, j};
            c.close(grid->data(index),
                    z[rows[i] * lng.size + cols[j]] + radius, 1e-9, 0, "depth",
                    "row " + std::to_string(i) + " column " +
                        std::to_string(j));
            double loc[2] = {grid->axis(0)(i), grid->axis(1)(j)};
            c.close(grid->interpolate(loc), grid->data(index), 1e-5, 0,
                    "interpolated");
        }
    bool wrapped = cols.back() < cols.front() || shift != 0 ||
                   (ew.lo < 0 && ew.hi > 0) || (ew.lo < 180 && ew.hi > 180);
    if (cols.back() < cols.front()) c.label("wraps in the file");
    c.nontrivial(wrapped);
}

// a file of profiles
struct Profiles {
    std::vector<double> time, depth;
    Axis lat, lng;
    std::vector<double> value;  // nan when missing
    size_t at(size_t t, size_t d, size_t i, size_t j) const {
        return ((t * depth.size() + d) * lat.size + i) * lng.size + j;
    }
    double get(size_t t, size_t d, size_t i, size_t j) const {
        return value[at(t, d, i, j)];
    }
};
static std::vector<double> gen_depths(Case &c, int n) {
    std::vector<double> d{c.pick<double>({0, 5})};
    while ((int)d.size() < n) d.push_back(d.back() + c.integer(1, 500));
    return d;
}
static void write_profiles(Case &c, const std::string &name, Profiles &p,
                           const std::string &var, const std::string &other,
                           bool plain) {
    using namespace netCDF;
    NcFile f(name, NcFile::replace);
    NcDim d[4] = {f.addDim("time", p.time.size()),
                  f.addDim("depth", p.depth.size()),
                  f.addDim("lat", p.lat.size), f.addDim("lon", p.lng.size)};
    f.addVar("time", ncDouble, d[0]).putVar(p.time.data());
    f.addVar("depth", ncDouble, d[1]).putVar(p.depth.data());
    f.addVar("lat", ncDouble, d[2]).putVar(p.lat.values().data());
    f.addVar("lon", ncDouble, d[3]).putVar(p.lng.values().data());
    std::vector<NcDim> dims(d, d + 4);
    bool packed = !plain && c.flip(0.4);
    double scale = 1, offset = 0;
    if (packed) {
        int which = c.integer(0, 3);
        if (which & 1) scale = c.pick<double>({0.5, 0.25, 2});
        if (which & 2) offset = c.integer(-100, 1500);
        c.label(which == 1   ? "scale only"
                : which == 2 ? "offset only"
                : which == 3 ? "scale and offset"
                             : "unscaled integers");
        NcVar v = f.addVar(var, ncShort, dims);
        v.putAtt("_FillValue", ncShort, (short)-9999);
        if (which & 1) v.putAtt("scale_factor", ncDouble, scale);
        if (which & 2) v.putAtt("add_offset", ncDouble, offset);
        std::vector<short> s;
        for (double &x : p.value) {
            if (std::isnan(x)) {
                s.push_back(-9999);
            } else {
                s.push_back((short)std::lround(x));
                x = s.back() * scale + offset;
            }
        }
        v.putVar(s.data());
    } else {
        bool single = !plain && c.flip();
        NcVar v = f.addVar(var, single ? (NcType)ncFloat : (NcType)ncDouble,
                           dims);
        std::vector<double> s;
        double missing = single ? 9.96921e36f : -99999.0;
        if (single)
            v.putAtt("_FillValue", ncFloat, (float)missing);
        else
            v.putAtt("_FillValue", ncDouble, missing);
        for (double &x : p.value) {
            if (single) x = (float)x;
            s.push_back(std::isnan(x) ? missing : x);
        }
        v.putVar(s.data());
    }
    if (!other.empty()) {
        NcVar v = f.addVar(other, ncDouble, dims);
        std::vector<double> s(p.value.size(), -1.0);
        v.putVar(s.data());
    }
}
static size_t nearest(Case &c, const std::vector<double> &time, double date) {
    std::vector<std::pair<double, size_t>> d;
    for (size_t t = 0; t < time.size(); ++t)
        d.emplace_back(std::abs(date - time[t]), t);
    std::sort(d.begin(), d.end());
    if (d.size() > 1 && d[1].first - d[0].first < 1e-6) c.discard();
    return d[0].second;
}
// values are equal, or missing in both
static void same(Case &c, double a, double b, const char *key,
                 const std::string &what) {
    if (std::isnan(b))
        c.check(std::isnan(a), key, what + " should be missing");
    else
        c.close(a, b, 1e-9, 1e-12, key, what);
}

LAW(P21, profile_windows, 1500, 20000,
    "files of profiles with one to four dates and one to five depths, packed "
    "or not, missing values, several variables; windows as for bathymetry: "
    "position, date and value of every node; non-trivial: window across 0 or "
    "180 or past the cut of the file, or missing values") {
    Profiles p;
    p.lng = gen_lng(c), p.lat = gen_lat(c);
    Window ew = gen_lng_window(c, p.lng), ns = gen_lat_window(c, p.lat);
    double shift = p.lng.period ? 0 : regional_shift(c, p.lng, ew);
    c.note("lng", p.lng.first), c.note("step", p.lng.inc);
    c.note("n", p.lng.size), c.note("west", ew.lo), c.note("east", ew.hi);
    p.time.push_back(c.real(0, 100));
    int nt = c.integer(1, 4);
    while ((int)p.time.size() < nt)
        p.time.push_back(p.time.back() + c.real(1, 60));
    p.depth = gen_depths(c, c.integer(1, 5));
    double gaps = c.pick<double>({0.0, 0.1, 0.5});
    uint64_t mask = c.below(1u << 30);
    for (size_t t = 0; t < p.time.size(); ++t)
        for (size_t d = 0; d < p.depth.size(); ++d)
            for (int i = 0; i < p.lat.size; ++i)
                for (int j = 0; j < p.lng.size; ++j) {
                    int k = p.lng.period ? j % p.lng.period : j;
                    uint64_t h = (mask + 1) * (t * 7919 + d * 104729 +
                                               i * 1299709 + k * 15485863 + 1);
                    h ^= h >> 17;
                    bool gap = (h % 1000) < 1000 * gaps;
                    p.value.push_back(
                        gap ? NAN : 100.0 * t + 30.0 * d + 3 * i + (k % 29));
                }
    double date = c.real(-20, 300);
    size_t t = nearest(c, p.time, date);
    std::string name = fresh("profile.nc");
    bool two = c.flip(0.4);
    std::string var = two ? c.pick<std::string>({"Temperature", "s_SALT_mn"})
                          : "temp";
    write_profiles(c, name, p, var, two ? c.pick<std::string>({"abc", "zzz"})
                                        : "",
                   false);
    const char *want = nullptr;
    if (two) want = var == "Temperature" ? "temper" : "salt";
    netcdf_profile grid(name.c_str(), date, ns.lo, ns.hi, ew.lo, ew.hi, want);
    c.equal(grid.axis(0).size(), p.depth.size(), "depths");
    for (size_t d = 0; d < p.depth.size(); ++d)
        c.close(wposition::earth_radius - grid.axis(0)(d), p.depth[d], 1e-6, 0,
                "depths");
    auto rows = match(c, degrees_lat(grid.axis(1)), p.lat, ns, 0, "latitudes");
    auto cols = match(c, degrees_lng(grid.axis(2)), p.lng, ew, shift,
                      "longitudes");
    for (size_t d = 0; d < p.depth.size(); ++d)
        for (size_t i = 0; i < rows.size(); ++i)
            for (size_t j = 0; j < cols.size(); ++j) {
                size_t index[3] = {d, i, j};
                same(c, grid.data(index), p.get(t, d, rows[i], cols[j]),
                     "profile-value", "node");
            }
    bool wrapped = cols.back() < cols.front() || shift != 0 ||
                   (ew.lo < 0 && ew.hi > 0) || (ew.lo < 180 && ew.hi > 180);
    c.nontrivial(wrapped || gaps > 0);
}

// a small regional file whose missing values look like a sea floor and land,
// or like random holes
static Profiles gen_regional(Case &c, int kind, const std::vector<double> &dep,
                             int nlat, int nlng, int nt) {
    Profiles p;
    p.lat.first = 10, p.lat.inc = 1, p.lat.size = nlat;
    p.lng.first = 20, p.lng.inc = 1, p.lng.size = nlng;
    for (int t = 0; t < nt; ++t) p.time.push_back(15 + 30 * t);
    p.depth = dep;
    p.value.assign(nt * dep.size() * nlat * nlng, NAN);
    for (int t = 0; t < nt; ++t) {
        std::vector<int> floor;
        for (int n = 0; n < nlat * nlng; ++n)
            floor.push_back(c.integer(0, (int)dep.size()));
        size_t sure = c.below(floor.size());
        floor[sure] = std::max(floor[sure], 1);
        double hole = c.real(0, 0.6);
        for (size_t d = 0; d < dep.size(); ++d)
            for (int n = 0; n < nlat * nlng; ++n) {
                bool ok = kind == 0   ? (int)d < floor[n]
                          : kind == 1 ? c.flip(1 - hole)
                                      : true;
                if (d == 0 && n == (int)sure) ok = true;
                if (ok)
                    p.value[p.at(t, d, n / nlng, n % nlng)] =
                        c.real(1400, 1600);
            }
    }
    return p;
}
// valid values are kept, gaps filled with admissible values
static void check_filled(Case &c, const gen_grid<3> &g,
                         const std::vector<double> &was, size_t nd, size_t nlat,
                         size_t nlng, const std::vector<double> &dep) {
    auto old = [&](size_t d, size_t n) { return was[d * nlat * nlng + n]; };
    auto now = [&](size_t d, size_t n) {
        size_t index[3] = {d, n / nlng, n % nlng};
        return g.data(index);
    };
    size_t N = nlat * nlng, deepest = 0;
    for (size_t d = 0; d < nd; ++d)
        for (size_t n = 0; n < N; ++n)
            if (!std::isnan(old(d, n))) deepest = d;
    for (size_t d = 0; d < nd; ++d) {
        double lo = 1e30, hi = -1e30;  // of surface values or slopes
        for (size_t n = 0; n < N; ++n) {
            if (std::isnan(old(d, n))) continue;
            double v = old(d, n);
            if (d > 0) {
                if (std::isnan(old(d - 1, n))) continue;
                v = (v - old(d - 1, n)) / (dep[d] - dep[d - 1]);
            }
            lo = std::min(lo, v), hi = std::max(hi, v);
        }
        for (size_t n = 0; n < N; ++n) {
            std::string at = "depth " + std::to_string(d) + " column " +
                             std::to_string(n);
            if (!std::isnan(old(d, n))) {
                c.close(now(d, n), old(d, n), 1e-9, 0, "valid-changed", at);
                continue;
            }
            c.check(std::isfinite(now(d, n)), "gap-left", at);
            double v = now(d, n);
            if (d > 0)
                v = (v - now(d - 1, n)) / (dep[d] - dep[d - 1]);
            if (d <= deepest && lo <= hi)
                c.check(v >= lo - 1e-6 && v <= hi + 1e-6, "filled-range",
                        at + " filled with " + std::to_string(v) + " not in " +
                            std::to_string(lo) + " to " + std::to_string(hi));
            if (d > deepest) {
                double above = 0;
                if (d >= 2)
                    above = (now(d - 1, n) - now(d - 2, n)) /
                            (dep[d - 1] - dep[d - 2]);
                // gradient tapers, none is known below a single layer
                bool known = d > deepest + 1 ||
                             (deepest > 0 && !std::isnan(old(d - 1, n)) &&
                              !std::isnan(old(d - 2, n)));
                if (known)
                    c.close(v, above / 2, 1e-6, 1e-6, "filled-taper", at);
            }
        }
    }
}

LAW(P21, gap_filling, 4000, 80000,
    "profiles of one to six depths on two to five rows and columns with sea "
    "floor and land, random holes, or complete: valid values stay, gaps are "
    "filled with values or gradients within those of the layer, gradients "
    "taper below; non-trivial: some values missing") {
    int kind = c.integer(0, 2);
    auto dep = gen_depths(c, c.integer(1, 6));
    int nlat = c.integer(2, 5), nlng = c.integer(2, 5);
    Profiles p = gen_regional(c, kind, dep, nlat, nlng, 1);
    std::string name = fresh("gaps.nc");
    write_profiles(c, name, p, "temp", "", true);
    netcdf_profile grid(name.c_str(), 15, 10, 9 + nlat, 20, 19 + nlng);
    c.equal(grid.axis(1).size(), (size_t)nlat, "latitudes");
    c.equal(grid.axis(2).size(), (size_t)nlng, "longitudes");
    grid.fill_missing();
    check_filled(c, grid, p.value, dep.size(), nlat, nlng, dep);
    bool gaps = false;
    for (double v : p.value) gaps = gaps || std::isnan(v);
    c.nontrivial(gaps);
    c.label(kind == 0 ? "floor" : kind == 1 ? "holes" : "complete");
}

LAW(P21, shallow_over_deep, 600, 8000,
    "monthly shallow profiles over seasonal or yearly deep ones for every "
    "month: upper layers from the month, lower ones from the season, gaps "
    "filled; non-trivial: some values missing") {
    auto dep = gen_depths(c, c.integer(2, 6));
    int nlat = c.integer(2, 4), nlng = c.integer(2, 4);
    std::vector<double> top(dep.begin(), dep.begin() + c.integer(1, dep.size()));
    std::vector<double> monthly{15,  46,  75,  106, 136, 167,
                                197, 228, 259, 289, 320, 350},
        season{46, 136, 228, 320}, year{182};
    int kind = c.integer(0, 2);
    Profiles deep = gen_regional(c, kind, dep, nlat, nlng, 4),
             high = gen_regional(c, kind, top, nlat, nlng, 12);
    deep.time = season, high.time = monthly;
    if (c.flip(0.3)) {
        deep.time = year;
        deep.value.resize(dep.size() * nlat * nlng);
    }
    std::string a = fresh("deep.nc"), b = fresh("shallow.nc");
    write_profiles(c, a, deep, "t_an", "", true);
    write_profiles(c, b, high, "t_an", "", true);
    int month = c.integer(1, 12);
    bool both = c.flip(0.8);
    netcdf_woa grid(a.c_str(), both ? b.c_str() : nullptr, month, 10, 9 + nlat,
                    20, 19 + nlng);
    // middle of each month
    size_t t = nearest(c, deep.time, 30.5 * (month - 0.5));
    std::vector<double> was;
    for (size_t d = 0; d < dep.size(); ++d)
        for (int n = 0; n < nlat * nlng; ++n)
            was.push_back(both && d < top.size()
                              ? high.get(month - 1, d, n / nlng, n % nlng)
                              : deep.get(t, d, n / nlng, n % nlng));
    c.equal(grid.axis(0).size(), dep.size(), "depths");
    check_filled(c, grid, was, dep.size(), nlat, nlng, dep);
    bool gaps = false;
    for (double v : was) gaps = gaps || std::isnan(v);
    c.nontrivial(gaps);
}

static seq_vector::csptr gen_axis(Case &c, std::vector<double> *v) {
    int kind = c.integer(0, 3), N = c.integer(kind ? 2 : 1, 7);
    double first = c.real(-1000, 1000, {0.0, 10.0});
    v->clear();
    if (kind <= 1) {
        double inc = c.sign() * c.real(0.1, 100);
        for (int n = 0; n < N; ++n) v->push_back(first + n * inc);
        if (c.flip()) return seq_vector::csptr(new seq_linear(first, inc, N));
    } else if (kind == 2) {
        first = c.real(0.1, 100);
        double ratio = c.real(1.2, 3);
        for (int n = 0; n < N; ++n) v->push_back(first * std::pow(ratio, n));
        if (c.flip()) return seq_vector::csptr(new seq_log(first, ratio, N));
    } else {
        double x = first;
        for (int n = 0; n < N; ++n) {
            v->push_back(x);
            x += c.pick<double>({1, 3, 10, 2.5});
        }
    }
    return seq_vector::csptr(new seq_data(v->data(), v->size()));
}
template <int D>
static void round_trip(Case &c) {
    seq_vector::csptr axis[D];
    std::vector<double> v[D];
    size_t total = 1;
    for (int d = 0; d < D; ++d) axis[d] = gen_axis(c, &v[d]), total *= v[d].size();
    gen_grid<D> grid(axis);
    std::vector<double> data(total);
    for (size_t n = 0; n < total; ++n) {
        data[n] = c.real(-1e6, 1e6, {0.0, 1e-300, 1e300});
        size_t index[D], k = n;
        for (int d = D - 1; d >= 0; --d)
            index[d] = k % v[d].size(), k /= v[d].size();
        grid.setdata(index, data[n]);
    }
    std::string name = fresh("grid.nc");
    grid.write_netcdf(name.c_str());
    netCDF::NcFile file(name, netCDF::NcFile::read);
    netcdf_coards<D> back(file, "data", c.flip());
    for (int d = 0; d < D; ++d) {
        c.equal(back.axis(d).size(), v[d].size(), "axis-size");
        double span = std::abs(v[d].back() - v[d].front()) + std::abs(v[d][0]);
        for (size_t n = 0; n < v[d].size(); ++n)
            c.close(back.axis(d)(n), v[d][n], 1e-9 * span, 1e-9, "axis-value");
    }
    for (size_t n = 0; n < total; ++n) {
        size_t index[D], k = n;
        for (int d = D - 1; d >= 0; --d)
            index[d] = k % v[d].size(), k /= v[d].size();
        c.check(back.data(index) == data[n], "data-value");
    }
    c.nontrivial(total > 1);
    c.label(std::to_string(D) + " dimensions");
}

LAW(P21, write_and_read, 2500, 40000,
    "grids of one to three dimensions with linear, logarithmic or uneven axes "
    "written to a file and read back; non-trivial: more than one value") {
    switch (c.integer(1, 3)) {
        case 1: round_trip<1>(c); break;
        case 2: round_trip<2>(c); break;
        default: round_trip<3>(c);
    }
}

LAW(P21, missing_and_fill, 1500, 20000,
    "COARDS variables of any type with or without missing value and fill "
    "value attributes: values stay, missing ones become the fill value or not "
    "a number; non-trivial: some values missing") {
    using namespace netCDF;
    std::string name = fresh("coards.nc");
    int n0 = c.integer(1, 4), n1 = c.integer(2, 5);
    bool has_missing = c.flip(0.8), has_fill = c.flip(), read_fill = c.flip();
    bool single = c.flip();
    double missing = c.pick<double>({-99, 0, 1024}),
           fill = c.pick<double>({7, -1});
    std::vector<double> data(n0 * n1), x(n0), y(n1);
    bool some = false;
    for (auto &v : data) {
        v = c.integer(-50, 50);
        if (c.flip(0.3)) v = missing, some = true;
    }
    for (int n = 0; n < n0; ++n) x[n] = 5 + 3 * n;
    for (int n = 0; n < n1; ++n) y[n] = 10 - 2 * n;
    {
        NcFile f(name, NcFile::replace);
        NcDim d0 = f.addDim("x", n0), d1 = f.addDim("y", n1);
        f.addVar("x", ncDouble, d0).putVar(x.data());
        f.addVar("y", ncDouble, d1).putVar(y.data());
        NcVar other = f.addVar("aaa", ncDouble, {d0, d1});
        NcVar v = f.addVar("field", single ? (NcType)ncFloat : (NcType)ncDouble,
                           {d0, d1});
        if (has_fill) {
            if (single)
                v.putAtt("_FillValue", ncFloat, (float)fill);
            else
                v.putAtt("_FillValue", ncDouble, fill);
        }
        if (has_missing) v.putAtt("missing_value", ncDouble, missing);
        v.putVar(data.data());
        std::vector<double> zero(n0 * n1, 1.0);
        other.putVar(zero.data());
    }
    NcFile f(name, NcFile::read);
    netcdf_coards<2> grid(f, "field", read_fill);
    for (int i = 0; i < n0; ++i)
        for (int j = 0; j < n1; ++j) {
            double e = data[i * n1 + j];
            if (has_missing && e == missing)
                e = has_fill && read_fill ? fill : NAN;
            size_t index[2] = {(size_t)i, (size_t)j};
            same(c, grid.data(index), e, "coards-value", "node");
        }
    for (int i = 0; i < n0; ++i)
        c.close(grid.axis(0)(i), x[i], 1e-9, 0, "coards-axis");
    for (int j = 0; j < n1; ++j)
        c.close(grid.axis(1)(j), y[j], 1e-9, 0, "coards-axis");
    c.nontrivial(some && has_missing);
}

LAW(P21, arc_text_files, 1500, 20000,
    "ARC files of two to eight rows and columns: position and height of every "
    "cell, first row is the northern one; non-trivial: always") {
    int rows = c.integer(2, 8), cols = c.integer(2, 8);
    double x = c.integer(-180, 170), y = c.integer(-80, 60),
           cell = c.pick<double>({0.25, 1, 0.00083333, 0.5});
    std::string name = fresh("arc.asc");
    std::vector<double> z(rows * cols);
    {
        std::ofstream f(name);
        f << std::setprecision(12);
        const char *gap = c.pick<const char *>({" ", "   ", "\t"});
        f << "NCOLS" << gap << cols << "\nNROWS" << gap << rows
          << "\nXLLCENTER" << gap << x << "\nYLLCENTER" << gap << y
          << "\nCELLSIZE" << gap << cell << "\nNODATA_VALUE" << gap
          << "999999\n";
        for (int r = 0; r < rows; ++r) {
            for (int k = 0; k < cols; ++k) {
                z[r * cols + k] = c.integer(-60000, 30000) / 10.0;
                f << gap << z[r * cols + k];
            }
            f << "\n";
        }
    }
    usml::ocean::ascii_arc_bathy grid(name.c_str());
    c.equal(grid.axis(0).size(), (size_t)rows, "arc-size");
    c.equal(grid.axis(1).size(), (size_t)cols, "arc-size");
    auto lat = degrees_lat(grid.axis(0)), lng = degrees_lng(grid.axis(1));
    for (int r = 0; r < rows; ++r)
        c.close(lat[r], y + cell * (rows - 1 - r), 1e-9, 0, "arc-latitude");
    for (int k = 0; k < cols; ++k)
        c.close(lng[k], x + cell * k, 1e-9, 0, "arc-longitude");
    for (int r = 0; r < rows; ++r)
        for (int k = 0; k < cols; ++k) {
            size_t index[2] = {(size_t)r, (size_t)k};
            c.close(grid.data(index) - wposition::earth_radius,
                    z[r * cols + k], 1e-6, 0, "arc-height");
        }
    c.nontrivial();
}

LAW(P21, text_profiles, 2500, 40000,
    "tables of depth and speed separated by commas, spaces or tabs, with any "
    "line ends and with or without blank lines at the end; non-trivial: three "
    "or more lines") {
    int N = c.integer(2, 12);
    std::string name = fresh("profile.txt");
    auto dep = gen_depths(c, N);
    std::vector<double> speed;
    std::string sep = c.pick<std::string>({",", " ", "\t", ", ", " , ", "   "}),
                end = c.pick<std::string>({"\n", "\r\n", " \n"});
    int tail = c.integer(0, 3);
    {
        std::ofstream f(name, std::ios::binary);
        f << std::setprecision(12);
        for (int n = 0; n < N; ++n) {
            speed.push_back(c.integer(14000, 16000) / 10.0);
            f << (c.flip(0.2) ? " " : "") << dep[n] << sep << speed[n];
            if (n < N - 1 || tail > 0) f << end;
        }
        for (int n = 1; n < tail; ++n) f << end;
    }
    usml::ocean::ascii_profile grid(name.c_str());
    c.equal(grid.axis(0).size(), (size_t)N, "profile-size");
    for (size_t n = 0; n < (size_t)N; ++n) {
        c.close(wposition::earth_radius - grid.axis(0)(n), dep[n], 1e-6, 0,
                "profile-depth");
        c.close(grid.data(&n), speed[n], 1e-9, 0, "profile-speed");
    }
    c.nontrivial(N > 2);
    c.label(tail > 1 ? "blank lines at the end" : "plain");
}

LAW(P21, bottom_provinces, 800, 10000,
    "files of bottom provinces with evenly spaced axes: the loss at each node "
    "is that of the province stored for it; non-trivial: both provinces") {
    using namespace netCDF;
    std::string name = fresh("province.nc");
    int nlat = c.integer(2, 9), nlng = c.integer(2, 9);
    bool square = c.flip();
    if (square) nlng = nlat;
    double lat0 = c.real(-40, 20), lng0 = c.real(-120, 60);
    double dlat = c.real(0.5, 2), dlng = c.sign() * c.real(0.5, 2);
    std::vector<double> lat, lng, type(nlat * nlng);
    for (int i = 0; i < nlat; ++i) lat.push_back(lat0 + i * dlat);
    for (int j = 0; j < nlng; ++j) lng.push_back(lng0 + j * dlng);
    bool any[2] = {false, false};
    for (auto &t : type) t = c.integer(0, 1), any[(int)t] = true;
    std::vector<double> ratio{1.11733, 2.0}, rho{1.7, 2.4}, at{0.01, 0.1},
        sh{0, 0.953333}, sa{0, 0.2};
    {
        NcFile f(name, NcFile::replace);
        const char *names[5] = {"speed_ratio", "density_ratio", "atten",
                                "shear_speed", "shear_atten"};
        std::vector<double> *v[5] = {&ratio, &rho, &at, &sh, &sa};
        for (int n = 0; n < 5; ++n)
            f.addVar(names[n], ncDouble, f.addDim(names[n], 2))
                .putVar(v[n]->data());
        NcDim a = f.addDim("longitude", nlng), b = f.addDim("latitude", nlat);
        f.addVar("longitude", ncDouble, a).putVar(lng.data());
        f.addVar("latitude", ncDouble, b).putVar(lat.data());
        f.addVar("type", ncDouble, {a, b}).putVar(type.data());
    }
    usml::ocean::reflect_loss_netcdf model(name.c_str());
    usml::ocean::reflect_loss_rayleigh each[2] = {
        {rho[0], ratio[0], at[0], sh[0], sa[0]},
        {rho[1], ratio[1], at[1], sh[1], sa[1]}};
    double f1 = 1000;
    seq_vector::csptr freq(new seq_data(&f1, 1));
    boost::numeric::ublas::vector<double> got(1), loss[2];
    double angle = c.real(0.2, 1.4);
    for (int k = 0; k < 2; ++k) {
        loss[k] = boost::numeric::ublas::vector<double>(1);
        each[k].reflect_loss(wposition1(0, 0), freq, angle, &loss[k]);
    }
    bool wrong = false;
    for (int i = 0; i < nlat; ++i)
        for (int j = 0; j < nlng; ++j) {
            model.reflect_loss(wposition1(lat[i], lng[j]), freq, angle, &got);
            double e = loss[(int)type[j * nlat + i]](0);
            if (std::abs(got(0) - e) < 1e-9) continue;
            // the recorded defect: axes are compressed by (n-1)/n and the
            // table is taken to have the latitude first
            auto cell = [](int k, int n) {
                return std::min(n - 1.0, (double)k * n / (n - 1));
            };
            double u = cell(i, nlat), v = cell(j, nlng);
            bool known = false;
            for (int p : {(int)std::floor(u), (int)std::ceil(u)})
                for (int q : {(int)std::floor(v), (int)std::ceil(v)})
                    if (std::abs(p - u) <= 0.5 + 1e-6 &&
                        std::abs(q - v) <= 0.5 + 1e-6 &&
                        std::abs(got(0) - loss[(int)type[p * nlng + q]](0)) <
                            1e-9)
                        known = true;
            c.check(known, "province-value", "loss is that of no province "
                                             "near the location");
            wrong = true;
        }
    c.nontrivial(any[0] && any[1]);
    c.check(!wrong, "province-place", "province of another place");
}
