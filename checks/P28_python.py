"""P28: reference solutions and readers used for validation are themselves right"""
import math
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ["USML_SOURCE"], "python", "src"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import netCDF4
import numpy as np

import pbt
import usml.eigenrays
import usml.netcdf
import usml.pedersen

WRITER = os.environ["P28_WRITER"]

# ----------------------------------------------------------------------
# rays of the reference ocean, c(z) = c0 / sqrt(1 + 2 g z / c0)

X, W = np.polynomial.legendre.leggauss(60)


class Flat:
    """closed form, in flat coordinates"""

    def __init__(self, c0, g):
        self.c0, self.g = c0, g

    def q(self, z):
        return 1 + 2 * self.g * z / self.c0

    def c(self, z):
        return self.c0 / math.sqrt(self.q(z))

    def half(self, z, de):
        """from depth z to the vertex, or to the surface: range, time, vertex depth"""
        m = math.cos(math.radians(de)) / self.c(z)
        k = (m * self.c0) ** 2
        top = max(0.0, (k - 1) * self.c0 / (2 * self.g))
        # differences of roots, without cancellation
        q1, q0 = self.q(z), max(k, 1.0)
        s1 = math.sqrt(max(q1 - k, self.q(z) * math.sin(math.radians(de)) ** 2))
        s0 = math.sqrt(q0 - k)
        d = (q1 - q0) / (s1 + s0) if s1 + s0 > 0 else 0.0
        rng = m * self.c0 ** 2 / self.g * d
        tim = (2.0 / 3.0 * d * (s1 * s1 + s1 * s0 + s0 * s0) + 2 * k * d) / (2 * self.g)
        return rng, tim, top

    def arrival(self, z, de, zt):
        x = math.cos(math.radians(de)) * self.c(zt) / self.c(z)
        return None if x >= 1 else -math.degrees(math.acos(x))


class Round:
    """quadrature without the singularity at the vertex, on a sphere"""

    def __init__(self, c0, g, R):
        self.c0, self.g, self.R = c0, g, R

    def q(self, z):
        return 1 + 2 * self.g * z / self.c0

    def c(self, z):
        return self.c0 / math.sqrt(self.q(z)) * (self.R - z) / self.R

    def half(self, z, de):
        r = self.R - z
        m = r * math.cos(math.radians(de)) / self.c(z)
        k = (m * self.c0 / self.R) ** 2
        top = max(0.0, (k - 1) * self.c0 / (2 * self.g))
        q1, q0 = self.q(z), max(k, 1.0)
        s1 = math.sqrt(max(q1 - k, q1 * math.sin(math.radians(de)) ** 2))
        s0 = math.sqrt(q0 - k)
        # q = k + s*s, dz = c0/(2g) dq = c0/g s ds
        s = 0.5 * (s1 + s0) + 0.5 * (s1 - s0) * X
        w = 0.5 * (s1 - s0) * W
        q = k + s * s
        rr = self.R - (q - 1) * self.c0 / (2 * self.g)
        # cot = sqrt(k/q) / sqrt(1-k/q) = sqrt(k)/s;  1/(c sin) = q R/(c0 rr s)
        rng = np.sum(w * math.sqrt(k) / rr) * self.c0 / self.g * r
        tim = np.sum(w * q * self.R / rr) / self.g
        return float(rng), float(tim), top

    def arrival(self, z, de, zt):
        x = math.cos(math.radians(de)) / self.c(z) * (self.R - z) * self.c(zt) / (self.R - zt)
        return None if x >= 1 else -math.degrees(math.acos(x))


def gen_ocean(c):
    c0, g = c.real(1400, 1600, (1550.0,)), c.logreal(0.02, 2.0)
    c.note("c0", c0), c.note("g", g)
    if c.flip():
        c.label("flat")
        return usml.pedersen.PedersenCartesian(c0, g), Flat(c0, g), 0.0
    R = c.real(6.3e6, 6.4e6, (6366.71e3,))
    c.note("R", R), c.label("round")
    return usml.pedersen.PedersenSpherical(c0, g, R), Round(c0, g, R), R


@pbt.law(3000, 40000,
         "downward refracting oceans of 1400-1600 m/s and 0.02-2 1/s, flat and round, sources at 1-3000 m, 1-6 launch "
         "angles of +-0.1 to +-85 degrees: sound speed, cycle range, cycle time, vertex and ray parameter against closed "
         "forms and quadrature without the singularity; non-trivial: both a ray that turns and one that reaches the surface")
def cycles(c):
    model, ref, R = gen_ocean(c)
    z = c.logreal(1, 3000)
    n = c.integer(1, 6)
    angles = np.array(sorted(c.real(0.1, 85.0) * (1 if c.flip(0.8) else -1) for _ in range(n)))
    c.note("z", z), c.note("angles", np.round(angles, 4).tolist())
    for depth in (0.0, z, 2 * z):
        c.close(model.sound_speed(R - depth if R else depth), ref.c(depth), 1e-9 * 1500, "sound-speed")
    ranges, times, vertex, param = model.analytic_cycle(z, angles)
    turned = surfaced = 0
    for i, a in enumerate(angles):
        rng, tim, top = ref.half(z, a)
        at = "angle %.6g" % a
        v = R - vertex[i] if R else vertex[i]
        # close to a ray that grazes the surface the vertex is badly conditioned
        m = math.cos(math.radians(a)) * (R - z if R else 1.0) / ref.c(z)
        graze = abs(m * ref.c(0) / (R if R else 1.0) - 1.0)
        if graze < 1e-9:
            c.label("grazes the surface")
            continue
        turned, surfaced = turned + (top > 0), surfaced + (top == 0)
        c.close(v, top, 1e-6 + 1e-9 * z, "vertex", at)
        c.close(param[i], m, 1e-12 * m, "ray-parameter", at)
        # integrals of angles around the earth are good to 1.5e-8, and its
        # radii in a double to 1e-9 m
        c.close(ranges[i], 2 * rng, 1e-5 * rng + (0.3 if R else 2e-3), "cycle-range", at)
        c.close(times[i], 2 * tim, 1e-5 * tim + (2e-4 if R else 2e-6), "cycle-time", at)
    c.nontrivial(turned and surfaced)


@pbt.law(600, 8000,
         "the same oceans, source and target at 10-1500 m, fans of 40-400 angles, ranges across the fan: the direct and "
         "the folded path at each range leave and arrive at the angles of a ray that really reaches that range, between the "
         "two rays of the fan around it, after its travel time; non-trivial: both paths at two ranges or more")
def paths(c):
    model, ref, R = gen_ocean(c)
    zs, zt = c.logreal(10, 1500), c.logreal(10, 1500)
    n = c.integer(40, 400)
    lo = c.real(0.5, 20)
    hi = lo + c.real(10, 60)
    angles = np.linspace(lo, hi, n)
    c.note("zs", zs), c.note("zt", zt), c.note("lo", lo), c.note("hi", hi), c.note("n", n)
    # exact fan, up from the source, down to the target
    fan = []
    for a in angles:
        t = ref.arrival(zs, a, zt)
        if t is not None and abs(t) > 1e-3:
            p, q = ref.half(zs, a), ref.half(zt, t)
            fan.append((a, t, p[0] + q[0], p[1] + q[1]))
    if len(fan) < 10:
        c.discard()
    a, t, r, tau = (np.array(x) for x in zip(*fan))
    peak = int(r.argmax())
    # a fan with one maximum
    if not (3 < peak < len(r) - 4) or np.any(np.diff(r[:peak + 1]) <= 0) or np.any(np.diff(r[peak:]) >= 0):
        c.discard()
    first, last = max(r[0], r[-1]), r[peak]
    ranges = np.array(sorted(first + (last - first) * c.real(0.001, 0.999) for _ in range(c.integer(1, 8))))
    c.note("ranges", np.round(ranges, 3).tolist())
    direct, folded = model.eigenrays(zs, angles, zt, ranges)
    judged = [0, 0]
    for which, got in enumerate((direct, folded)):
        name = ("direct", "folded")[which]
        c.equal(len(got.horz_range), len(ranges), name + "-count")
        for i in range(len(ranges)):
            at = "%s at %.8g" % (name, ranges[i])
            c.close(got.horz_range[i], ranges[i], 1e-9, "range", at)
            # rays of the fan on either side
            part = slice(0, peak + 1) if which == 0 else slice(peak, len(r))
            pa, pt, pr, ptau = a[part], t[part], r[part], tau[part]
            j = int(np.searchsorted(pr, ranges[i])) if which == 0 else int(np.searchsorted(-pr, -ranges[i]))
            if j <= 0 or j >= len(pr):
                continue
            if (j == len(pr) - 1 and which == 0) or (j == 1 and which == 1):
                continue  # the cell with the maximum belongs to neither
            judged[which] += 1
            slack = 1e-6
            for field, p, scale in (("source_de", pa, 1), ("target_de", pt, 1), ("travel_time", ptau, 1e-3)):
                v = getattr(got, field)[i]
                u, w = sorted((p[j - 1], p[j]))
                e = slack * scale + 1e-6 * abs(u) + 0.02 * (w - u)
                c.check(u - e <= v <= w + e, field.replace("_", "-"),
                        "%s got %.10g between %.10g and %.10g" % (at, v, u, w))
            # the ray at that angle gets there
            de = float(got.source_de[i])
            td = ref.arrival(zs, de, zt)
            c.check(td is not None, "arrives", at)
            p, q = ref.half(zs, de), ref.half(zt, td)
            cell = abs(pr[j] - pr[j - 1])
            # interpolated between the rays of the fan, poorly where the
            # range turns over or has a kink
            wide = np.abs(np.diff(pr[max(j - 4, 0):j + 4]))
            m = 0.3 if len(wide) == 7 and wide.max() < 2 * wide.min() else 1.0
            c.close(p[0] + q[0], ranges[i], m * cell + (0.6 if R else 0.02), "reaches", at)
            c.close(float(got.target_de[i]), td, m * abs(pt[j] - pt[j - 1]) + (1e-3 if R else 1e-5), "snell", at)
            c.close(float(got.travel_time[i]), p[1] + q[1], m * abs(ptau[j] - ptau[j - 1]) + (5e-4 if R else 1e-5), "time", at)
    c.nontrivial(min(judged) >= 2)


# ----------------------------------------------------------------------
# files written by the library

def write(c, kind, sizes, radius=True):
    path = os.path.join(c.dir, "file.nc")
    seed = c.integer(0, 10 ** 9)
    lat = c.real(-80, 80, (45.0,)) if radius and c.flip(0.5) else 0.0
    c.note("kind", kind), c.note("seed", seed), c.note("sizes", sizes), c.note("lat", lat)
    r = subprocess.run([WRITER, kind, path, str(seed), "%.17g" % lat] + [str(s) for s in sizes],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode:
        raise RuntimeError("the writer failed")
    rows = {}
    for line in r.stdout.splitlines():
        w = line.split()
        rows.setdefault(w[0], []).append(w[1:])
    return path, rows


def numbers(words):
    return np.array([float(x) for x in words])


def same(c, got, want, key, text="", tol=0.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    c.equal(got.shape, want.shape, key + "-shape", text)
    bad = ~(np.abs(got - want) <= tol + 1e-12 * np.abs(want))
    if bad.any():
        i = tuple(x[0] for x in np.nonzero(bad))
        c.check(False, key, "%s %s got %.15g expected %.15g" % (text, i, got[i], want[i]))
    c.asserts += got.size


SCALARS = ("travel_time", "source_de", "source_az", "target_de", "target_az", "surface", "bottom", "caustic", "upper",
           "lower")


@pbt.law(600, 8000,
         "eigenray files the library wrote for 1-5 x 1-4 targets with 0-6 paths each and 1-4 frequencies: source, targets, "
         "frequencies, each path of each target in order, and the total of each target; non-trivial: a target with two "
         "paths after another one with some")
def eigenray_files(c):
    rows, cols, most, nf = c.integer(1, 5), c.integer(1, 4), c.integer(0, 6), c.integer(1, 4)
    path, f = write(c, "rays", (rows, cols, most, nf), radius=False)
    want = {(i, j): [] for i in range(rows) for j in range(cols)}
    for w in f.get("ray", []):
        want[int(w[0]), int(w[1])].append(numbers(w[2:]))
    total = {(int(w[0]), int(w[1])): [numbers(w[2:])] for w in f["total"]}
    for proploss in (False, True):
        got = usml.netcdf.EigenrayList(path, proploss)
        c.equal(int(got.sourceID), int(f["sourceID"][0][0]), "source-id")
        src = numbers(f["source"][0])
        same(c, [got.source_latitude, got.source_longitude, got.source_altitude], src, "source", tol=1e-9)
        same(c, got.frequencies, numbers(f["frequencies"][0]), "frequencies")
        for w in f["target"]:
            i, j = int(w[0]), int(w[1])
            at = "target %d,%d" % (i, j)
            c.equal(int(got.targetID[i, j]), int(w[2]), "target-id", at)
            same(c, [got.latitude[i, j], got.longitude[i, j], got.altitude[i, j]], numbers(w[3:]), "target", at, tol=1e-9)
            rays = got.eigenrays[i][j]
            exp = (total if proploss else want)[i, j]
            for k, name in enumerate(SCALARS):
                # a total of no paths has no meaningful angles
                same(c, getattr(rays, name), [e[k] for e in exp], name.replace("_", "-"), at)
            same(c, rays.intensity, np.array([e[10:10 + nf] for e in exp]).reshape(len(exp), nf), "intensity", at)
            same(c, rays.phase, np.array([e[10 + nf:] for e in exp]).reshape(len(exp), nf), "phase", at)
    many = [len(v) for _, v in sorted(want.items())]
    c.nontrivial(any(n >= 2 and sum(many[:k]) > 0 for k, n in enumerate(many)))


@pbt.law(600, 8000,
         "the same files with one frequency, paths selected by numbers of bounces, vertices and phase: exactly the paths "
         "that fit, in order, with their own angles, counts, loss and range from the source; non-trivial: some paths fit "
         "and some do not")
def selected_paths(c):
    rows, cols, most = c.integer(1, 6), c.pick((1, 1, 2, 3)), c.integer(1, 6)
    path, f = write(c, "rays", (rows, cols, most, 1), radius=False)
    srf, btm = c.integer(0, 2), c.integer(0, 2)
    upr = c.integer(0, 2) if c.flip() else None
    lwr = c.integer(0, 2) if c.flip() else None
    phase = c.integer(-8, 4) * 45 if c.flip(0.3) else None
    c.note("select", (srf, btm, upr, lwr, phase))
    got = usml.eigenrays.wq3d_eigenrays(path, srf=srf, btm=btm, upr=upr, lwr=lwr, phase=phase)
    lat0 = float(f["source"][0][0])
    at = {(int(w[0]), int(w[1])): float(w[3]) for w in f["target"]}
    exp, others = [], 0
    for w in f.get("ray", []):
        e = numbers(w[2:])
        deg = round(math.degrees(e[11]))
        ok = e[5] == srf and e[6] == btm and (upr is None or e[8] == upr) and (lwr is None or e[9] == lwr) and \
            (phase is None or deg == phase)
        if not ok:
            others += 1
            continue
        exp.append(list(e[:10]) + [-e[10], deg, math.radians(at[int(w[0]), int(w[1])] - lat0) * 6378101.030201019])
    for k, name in enumerate(SCALARS + ("intensity", "phase", "horz_range")):
        same(c, getattr(got, name), [e[k] for e in exp], "selected-" + name.replace("_", "-"), tol=1e-6)
    c.nontrivial(exp and others)


@pbt.law(400, 5000,
         "wavefront logs of 1-6 x 1-4 rays and 1-30 steps, and eigenverb files of 1-12 patches, with 1-4 frequencies: "
         "each variable as the library had it; non-trivial: ten values or more")
def log_files(c):
    nf = c.integer(1, 4)
    if c.flip():
        nde, naz, steps = c.integer(1, 6), c.integer(1, 4), c.integer(1, 30)
        path, f = write(c, "wave", (nde, naz, steps, nf))
        got = usml.netcdf.read(path)
        for name in ("frequencies", "source_de", "source_az"):
            same(c, getattr(got, name), numbers(f[name][0]), name)
        same(c, got.travel_time, [float(w[0]) for w in f["travel_time"]], "travel_time")
        cells = np.array([numbers(w[2:]) for w in f["cell"]]).reshape(steps + 1, nde, naz, 9)
        for k, name in enumerate(("latitude", "longitude", "altitude", "surface", "bottom", "caustic", "upper", "lower",
                                  "on_edge")):
            same(c, getattr(got, name), cells[..., k], name, tol=1e-9)
        c.nontrivial(cells.size >= 90)
        c.label("wavefront")
        return
    n = c.integer(1, 12)
    path, f = write(c, "verbs", (n, 0, 0, nf))
    got = usml.netcdf.read(path)
    same(c, got.frequencies, numbers(f["frequencies"][0]), "frequencies")
    verbs = np.array([numbers(w) for w in f.get("verb", [])]).reshape(n, 18 + nf)
    # a collection has no order
    order = np.argsort(verbs[:, 0])
    have = np.argsort(np.asarray(got.travel_time))
    for k, name in enumerate(("travel_time", "length", "width", "latitude", "longitude", "altitude", "direction",
                              "grazing", "sound_speed", "de_index", "az_index", "source_de", "source_az", "surface",
                              "bottom", "caustic", "upper", "lower")):
        column = getattr(got, name)
        same(c, np.asarray(column)[have], verbs[order, k], name, tol=1e-9)
    same(c, np.asarray(got.power)[have], verbs[order][:, 18:], "power", tol=1e-9)
    c.nontrivial(n >= 2)
    c.label("eigenverbs")


def gen_limits(c, name, values, exact):
    """no limits, or some around part of the values, or on them when the file has them in degrees"""
    if c.flip(0.3):
        return None, np.arange(len(values))
    order = np.sort(values)
    step = np.min(np.diff(order)) if len(order) > 1 else 1.0
    i = c.integer(0, len(order) - 1)
    j = c.integer(i, len(order) - 1)
    lo = order[i] - (0.0 if exact and c.flip(0.3) else 0.3 * step)
    hi = order[j] + (0.0 if exact and c.flip(0.3) else 0.3 * step)
    c.note(name, (round(float(lo), 6), round(float(hi), 6)))
    pick = (lo, hi) if c.flip(0.8) else np.array([lo, 0.5 * (lo + hi), hi])
    return pick, np.nonzero((values >= lo) & (values <= hi))[0]


@pbt.law(600, 8000,
         "bathymetry and profile files, those the library wrote in its own coordinates and COARDS ones with 2, 3 or 4 "
         "dimensions and any order of variables, with and without limits of latitude and longitude: axes in degrees, "
         "heights above sea level, data for the points within the limits and no others, times; non-trivial: limits that "
         "leave some of the points out")
def grid_files(c):
    nrho, nlat, nlng = c.integer(2, 6), c.integer(2, 9), c.integer(2, 9)
    three = c.flip()
    own = c.flip()
    time, name = np.array([0.0]), None
    if own:
        c.label("own")
        path, f = write(c, "grid3" if three else "grid2", (nrho, nlat, nlng, 0) if three else (nlat, nlng, 0, 0))
        axes = [numbers(w) for w in f["axis"]]
        radius = float(f["earth_radius"][0][0])
        lat, lng = 90 - np.degrees(axes[-2]), np.degrees(axes[-1])
        data = numbers(f["data"][0]).reshape([len(x) for x in axes])
        alt = axes[0] - radius if three else None
        if not three:
            data = data - radius
    else:
        path = os.path.join(c.dir, "file.nc")
        rng = np.random.default_rng(c.integer(0, 10 ** 9))
        lat = np.cumsum(rng.uniform(0.01, 1, nlat)) * (1 if c.flip() else -1) + c.real(-40, 40)
        lng = np.cumsum(rng.uniform(0.01, 1, nlng)) + c.real(-180, 340)
        alt = np.cumsum(rng.uniform(1, 300, nrho))
        four = three and c.flip()
        if four:
            time = np.sort(rng.uniform(0, 365, c.integer(1, 3)))
        shape = ([len(time)] if four else []) + ([nrho] if three else []) + [nlat, nlng]
        data = np.round(rng.uniform(-5000, 5000, shape), 3)
        c.note("shape", shape), c.label("coards%d" % len(shape))
        nc = netCDF4.Dataset(path, "w")
        dims = (["t"] if four else []) + (["z"] if three else []) + ["y", "x"]
        for d, n in zip(dims, shape):
            nc.createDimension(d, n)
        order = list(dims) + ["data"]
        swap = c.integer(0, 3)
        order = order[swap:] + order[:swap]
        for v in order:
            if v == "data":
                nc.createVariable("data", "f8", dims)[:] = data
            else:
                nc.createVariable(v, "f8", (v,))[:] = {"t": time, "z": alt, "y": lat, "x": lng}[v]
        if three and c.flip():
            name = "data"
            # another variable of the same dimensions, before or after
            nc.createVariable("other", "f8", dims)[:] = data + 1
        nc.close()
        if four and len(time) == 1:
            data = data[0]
    lat_range, rows = gen_limits(c, "lat_range", lat, not own)
    lng_range, cols = gen_limits(c, "lng_range", lng, not own)
    want = data[..., rows, :][..., cols]
    if three:
        got = usml.netcdf.Profile(path, lat_range, lng_range, name)
        same(c, got.altitude, alt, "altitude", tol=1e-8)
        same(c, got.time, time, "time")
        same(c, got.data, want, "profile")
    else:
        got = usml.netcdf.Bathymetry(path, lat_range, lng_range)
        same(c, got.altitude, want, "bathymetry", tol=1e-8)
    same(c, got.latitude, lat[rows], "latitude", tol=1e-9)
    same(c, got.longitude, lng[cols], "longitude", tol=1e-9)
    c.nontrivial(len(rows) < len(lat) or len(cols) < len(lng))


@pbt.law(400, 5000,
         "tables in the format of CASS/GRAB of 2-30 paths, selected by bounces, vertices and phase: the rows that fit, in "
         "order, in metres, seconds and degrees up; non-trivial: some rows fit and some do not")
def grab_tables(c):
    n = c.integer(2, 30)
    table = [[c.real(0.1, 50), c.real(0.1, 50), c.real(-90, 90), c.real(-90, 90), c.real(40, 150),
              float(c.integer(-8, 4) * 45)] + [float(c.integer(0, 1)) for _ in range(4)] for _ in range(n)]
    path = os.path.join(c.dir, "OUTPUT.DAT")
    with open(path, "w") as f:
        for row in table:
            f.write(" ".join("%.9g" % x for x in row) + "\n")
    key = [c.integer(0, 1) for _ in range(4)]
    phase = c.integer(-8, 4) * 45 if c.flip(0.3) else None
    c.note("n", n), c.note("select", key), c.note("phase", phase)
    got = usml.eigenrays.grab_eigenrays(path, *key, phase=phase)
    rows = [r for r in table if r[6:] == [float(k) for k in key] and (phase is None or r[5] == phase)]
    for name, f in (("horz_range", lambda r: r[0] * 1e3), ("travel_time", lambda r: r[1]), ("source_de", lambda r: -r[2]),
                    ("target_de", lambda r: -r[3]), ("intensity", lambda r: r[4]), ("phase", lambda r: r[5])):
        same(c, getattr(got, name), [f(r) for r in rows], "grab-" + name.replace("_", "-"), tol=1e-4)
    c.nontrivial(rows and len(rows) < n)


sys.exit(pbt.main("P28"))
