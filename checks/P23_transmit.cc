// P23: transmit signals have the envelope, phase and timing they describe
#include <usml/beampatterns/beampatterns.h>
#include <usml/sensors/sensor_model.h>
#include <usml/transmit/transmit.h>

#include <complex>
#include <memory>

#include "pbt.h"
#include "util.h"

using namespace usml::transmit;
using namespace usml::types;
using pbt::Case;
typedef long double R;
typedef std::complex<double> C;
typedef boost::numeric::ublas::vector<double> Vector;

// modified Bessel function of order zero from its series
static R bessel_i0(R x) {
    R sum = 1, term = 1;
    for (int k = 1; k < 400; ++k) {
        term *= (x / 2) * (x / 2) / ((R)k * k);
        sum += term;
        if (term < 1e-22L * sum) break;
    }
    return sum;
}
static R window_value(window::type type, size_t n, size_t N, double beta) {
    if (N == 1) return 1;
    R M = N - 1;
    switch (type) {
        case window::type::HANN:
            return 0.5L * (1 - cosl(2 * ref::PI * n / M));
        case window::type::HAMMING:
            return 0.54L - 0.46L * cosl(2 * ref::PI * n / M);
        case window::type::KAISER: {
            R u = 2 * n / M - 1;
            return bessel_i0(beta * sqrtl(std::max((R)0, 1 - u * u))) /
                   bessel_i0(beta);
        }
        default:
            return 1;
    }
}
static window::type gen_type(Case &c) {
    return (window::type)c.integer(0, 3);
}

LAW(P23, windows, 8000, 300000,
    "every window of 1 to 400 samples, Kaiser shape 0 to 30: formula, "
    "symmetry, limits, peak; non-trivial: more than two samples, not boxcar") {
    window::type type = gen_type(c);
    size_t N = c.flip(0.3) ? c.integer(1, 8) : c.integer(1, 400);
    double beta = c.real(0, 30, {0.5, 0.0, 8.6});
    Vector w = window::any(type, N, beta);
    Vector direct;
    const char *key = "boxcar";
    switch (type) {
        case window::type::HANN: direct = window::hann(N), key = "hann"; break;
        case window::type::HAMMING:
            direct = window::hamming(N), key = "hamming";
            break;
        case window::type::KAISER:
            direct = window::kaiser(N, beta), key = "kaiser";
            break;
        default: direct = window::boxcar(N);
    }
    c.equal(w.size(), N, key, "window size");
    for (size_t n = 0; n < N; ++n) {
        c.close(w(n), window_value(type, n, N, beta), 1e-9, 1e-9, key,
                "sample " + std::to_string(n) + " of " + std::to_string(N));
        c.close(direct(n), w(n), 0, 0, key, "any() against direct call");
        c.close(w(n), w(N - 1 - n), 1e-9, 0, "symmetry", key);
        c.check(w(n) >= -1e-12 && w(n) <= 1 + 1e-12, "limits", key);
    }
    if (N % 2) c.close(w(N / 2), 1.0, 1e-9, 0, "peak", key);
    if (type == window::type::KAISER && beta == 0.5) {
        Vector d = window::any(type, N);
        for (size_t n = 0; n < N; ++n)
            c.close(d(n), w(n), 0, 0, "default-shape");
    }
    c.label(key);
    c.nontrivial(N > 2 && type != window::type::BOXCAR);
}

struct Pulse {
    bool lfm;
    double duration, bandwidth, fcenter, delay, level, param, az, de;
    int mode;
    window::type type;
    std::string name;
    std::shared_ptr<transmit_model> model;
};
static Pulse gen_pulse(Case &c, double fsample) {
    Pulse p;
    p.lfm = c.flip();
    // whole number of samples, half of the time
    p.duration = c.flip() ? c.integer(1, 300) / fsample
                          : (0.6 + c.real(0, 300)) / fsample;
    p.bandwidth = p.lfm ? c.real(0, 0.4 * fsample, {0.0}) : 0.0;
    p.fcenter = c.real(100, 20000);
    p.delay = c.real(0, 10, {0.0}), p.level = c.real(0, 250);
    p.type = gen_type(c), p.param = c.real(0, 10, {0.5});
    p.az = c.real(-180, 360), p.de = c.real(-90, 90), p.mode = c.integer(0, 9);
    p.name = c.flip() ? "CW" : "LFM";
    if (p.lfm)
        p.model.reset(new transmit_lfm(p.name, p.duration, p.bandwidth,
                                       p.fcenter, p.delay, p.level, p.type,
                                       p.param, p.az, p.de, p.mode));
    else
        p.model.reset(new transmit_cw(p.name, p.duration, p.fcenter, p.delay,
                                      p.level, p.type, p.param, p.az, p.de,
                                      p.mode));
    return p;
}
static void check_attributes(Case &c, const Pulse &p, const transmit_model &m) {
    c.equal(m.type, p.name, "attributes", "type");
    c.close(m.duration, p.duration, 0, 0, "attributes", "duration");
    c.close(m.fcenter, p.fcenter, 0, 0, "attributes", "center");
    c.close(m.bandwidth, p.bandwidth, 0, 0, "attributes", "bandwidth");
    c.close(m.delay, p.delay, 0, 0, "attributes", "delay");
    c.close(m.source_level, p.level, 0, 0, "attributes", "level");
    c.check(m.window_type == p.type, "attributes", "window");
    c.close(m.window_param, p.param, 0, 0, "attributes", "parameter");
    c.close(m.orderedAZ, p.az, 0, 0, "attributes", "azimuth");
    c.close(m.orderedDE, p.de, 0, 0, "attributes", "elevation");
    c.equal(m.transmit_mode, p.mode, "attributes", "mode");
}
// phase after n samples in radians
static R phase(const Pulse &p, double fsample, double fband, R n) {
    size_t N = llround(p.duration * fsample);
    R T = N / (R)fsample, t = n / fsample;
    R f0 = (R)p.fcenter - fband - 0.5L * p.bandwidth;
    return 2 * ref::PI * (f0 * t + 0.5L * p.bandwidth * t * t / T);
}

LAW(P23, pulse_trains, 5000, 150000,
    "trains of one to five CW and LFM pulses, all windows, sampled at any rate "
    "around any band: number of samples, envelope, phase of the described "
    "modulation at every sample, phase carried over from pulse to pulse; "
    "non-trivial: more than three samples in some pulse") {
    double fsample = c.real(100, 4000, {500.0});
    int pulses = c.integer(1, 5);
    double carried = c.real(-10, 10, {0.0});
    R total = carried;
    bool big = false;
    for (int k = 0; k < pulses; ++k) {
        Pulse p = gen_pulse(c, fsample);
        size_t N = llround(p.duration * fsample);
        if (N < 1 || fabsl(fmodl((R)p.duration * fsample, 1) - 0.5L) < 1e-6L)
            c.discard();
        // near the center of the pulse, like a receiver would, or unrelated
        double fband = c.flip() ? p.fcenter + c.real(-0.4, 0.4) * fsample
                                : c.real(0, 20000, {0.0});
        double out = NAN, in = carried;
        cdvector s = c.flip(0.8) ? p.model->asignal(fsample, fband, in, &out)
                                 : p.model->asignal(fsample, fband, in, &in);
        if (std::isnan(out)) out = in, in = carried;
        c.equal(s.size(), N, "samples");
        double tol = 1e-9 + 1e-13 * N * (p.fcenter + std::abs(fband)) / fsample * N;
        for (size_t n = 0; n < N; ++n) {
            R a = window_value(p.type, n, N, p.param);
            R f = total + phase(p, fsample, fband, n);
            c.close(std::abs(s(n)), fabsl(a), 1e-9, 1e-9, "envelope");
            c.close(s(n).real(), a * cosl(f), tol, 0, "phase", "real part");
            c.close(s(n).imag(), a * sinl(f), tol, 0, "phase", "imaginary");
        }
        total += phase(p, fsample, fband, N);
        c.close(remainderl(out - total, 2 * ref::PI), 0, tol, 0,
                "carried-phase");
        // the phase is optional, and asking for it changes nothing
        cdvector again = p.model->asignal(fsample, fband, carried, nullptr);
        for (size_t n = 0; n < N; ++n)
            c.check(again(n) == s(n), "repeatable");
        check_attributes(c, p, *p.model);
        carried = out;
        big = big || N > 3;
        c.label(p.lfm ? "LFM" : "CW");
    }
    c.nontrivial(big);
}

LAW(P23, basebanding, 3000, 100000,
    "one pulse based at two bands differs by the difference of the carriers; "
    "delaying the initial phase turns every sample; non-trivial: always") {
    double fsample = c.real(100, 4000, {500.0});
    Pulse p = gen_pulse(c, fsample);
    if (llround(p.duration * fsample) < 1) c.discard();
    double f1 = c.real(0, 20000), f2 = c.real(0, 20000),
           turn = c.real(-6, 6);
    cdvector a = p.model->asignal(fsample, f1, 0.25, nullptr),
             b = p.model->asignal(fsample, f2, 0.25 + turn, nullptr);
    c.equal(a.size(), b.size(), "samples");
    for (size_t n = 0; n < a.size(); ++n) {
        C shift =
            std::polar(1.0, turn + 2 * M_PI * (f1 - f2) * (double)n / fsample);
        C e = a(n) * shift;
        double tol = 1e-6;
        c.close(b(n).real(), e.real(), tol, 0, "band-shift", "real part");
        c.close(b(n).imag(), e.imag(), tol, 0, "band-shift", "imaginary");
    }
    c.nontrivial();
}

LAW(P23, schedules, 3000, 60000,
    "histories of schedules of zero to six pulses set on a sensor: the sensor "
    "returns the last schedule in order and unchanged; non-trivial: two "
    "schedules or more") {
    usml::sensors::sensor_model sensor(c.integer(1, 1000), "sensor");
    c.equal(sensor.transmit_schedule().size(), (size_t)0, "schedule-empty");
    int steps = c.integer(1, 4);
    for (int k = 0; k < steps; ++k) {
        std::vector<Pulse> pulses(c.integer(0, 6));
        transmit_list list;
        for (auto &p : pulses) {
            p = gen_pulse(c, 500.0);
            list.push_back(p.model);
        }
        sensor.transmit_schedule(list);
        transmit_list held = sensor.transmit_schedule();
        c.equal(held.size(), pulses.size(), "schedule-size");
        size_t n = 0;
        for (const auto &m : held) {
            c.check(m == pulses[n].model, "schedule-order");
            check_attributes(c, pulses[n++], *m);
        }
        // what is done to a copy does not reach the sensor
        held.clear(), list.clear();
        c.equal(sensor.transmit_schedule().size(), pulses.size(),
                "schedule-copy");
    }
    c.nontrivial(steps > 1);
}
