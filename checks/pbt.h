// Property-based testing engine used by every check in /verif/checks.
//
// A "law" is a function that draws an input from a Case and asserts an oracle.
// Every random decision is one entry of the case's choice sequence, so a case
// is reproduced from (seed, law, index), from a recorded choice sequence, or
// from a reduced ("shrunk") choice sequence.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Violation {
    std::string key;
    std::string msg;
};
struct Discard {};

// choice log kept in memory shared with the supervising process, so that the
// input of a case that crashes or hangs is not lost
struct SharedLog {
    volatile uint64_t index;     // case index within the law
    volatile uint64_t progress;  // bumped once per case (and on tick())
    volatile uint64_t count;     // number of choices drawn so far
    uint64_t choices[1 << 16];
};

class Case {
   public:
    Case(uint64_t seed, SharedLog *log) : _state(seed), _log(log) { start(); }
    Case(const std::vector<uint64_t> &replay, SharedLog *log)
        : _replaying(true), _replay(replay), _log(log) {
        start();
    }

    //------------------------------------------------------------------
    // generators

    /// raw 64 bit choice
    uint64_t raw() {
        uint64_t v;
        if (_replaying) {
            v = _pos < _replay.size() ? _replay[_pos] : 0;
        } else {
            v = next();
        }
        return v;
    }
    /// uniform integer in [0,n); recorded already reduced
    uint64_t below(uint64_t n) {
        uint64_t v = raw();
        if (n == 0) n = 1;
        v %= n;
        record(v);
        return v;
    }
    int integer(int lo, int hi) {
        return lo + (int)below((uint64_t)((int64_t)hi - lo + 1));
    }
    /// true with the given probability; shrinks to false
    bool flip(double p = 0.5) {
        uint64_t v = below(1u << 20);
        return v >= (uint64_t)((1.0 - p) * (1u << 20));
    }
    /// uniform real in [lo,hi]; shrinks towards lo
    double real(double lo, double hi) {
        const uint64_t N = 1ull << 40;
        uint64_t v = below(N + 1);
        return lo + (hi - lo) * ((double)v / (double)N);
    }
    /// real in [lo,hi] which takes one of the special values now and then,
    /// and shrinks towards the first of them
    double real(double lo, double hi, const std::vector<double> &special,
                double p = 0.15) {
        if (!flip(1.0 - p)) return special[below(special.size())];
        return real(lo, hi);
    }
    /// log-uniform in [lo,hi], lo>0
    double logreal(double lo, double hi) {
        return std::exp(real(std::log(lo), std::log(hi)));
    }
    template <class T>
    const T &pick(const std::vector<T> &v) {
        return v[below(v.size())];
    }
    double sign() { return flip() ? -1.0 : 1.0; }

    //------------------------------------------------------------------
    // bookkeeping

    void discard() { throw Discard(); }
    /// state whether this case is non-trivial (all statements must agree)
    void nontrivial(bool yes = true) {
        if (yes) _nontrivial = true;
    }
    /// class of this case, tallied in the evidence
    void label(const std::string &l) { _labels.insert(l); }
    template <class T>
    void note(const std::string &name, const T &v) {
        if (_notes.size() > 4000) return;
        std::ostringstream s;
        s.precision(10);
        s << v;
        _notes += (_notes.empty() ? "" : " ") + name + "=" + s.str();
    }
    template <class T>
    void notev(const std::string &name, const T &v, size_t n) {
        std::ostringstream s;
        s.precision(8);
        s << "[";
        for (size_t i = 0; i < n && i < 24; ++i) s << (i ? "," : "") << v[i];
        if (n > 24) s << ",...";
        s << "]";
        note(name, s.str());
    }
    /// tell the supervisor that a long case still makes progress
    void tick() {
        if (_log) _log->progress = _log->progress + 1;
    }

    //------------------------------------------------------------------
    // assertions

    void fail(const std::string &key, const std::string &msg) {
        throw Violation{key, msg};
    }
    void check(bool ok, const std::string &key, const std::string &msg = "") {
        ++_asserts;
        if (!ok) fail(key, msg);
    }
    /// |a-b| <= abstol + reltol*max(|a|,|b|); NaN and Inf mismatches fail
    void close(double a, double b, double abstol, double reltol,
               const std::string &key, const std::string &what = "") {
        ++_asserts;
        bool ok;
        if (std::isnan(a) || std::isnan(b))
            ok = false;
        else if (std::isinf(a) || std::isinf(b))
            ok = a == b;
        else
            ok = std::abs(a - b) <=
                 abstol + reltol * std::max(std::abs(a), std::abs(b));
        if (!ok) {
            std::ostringstream s;
            s.precision(15);
            s << what << " got " << a << " expected " << b << " (diff "
              << (a - b) << ", abstol " << abstol << ", reltol " << reltol
              << ")";
            fail(key, s.str());
        }
    }
    template <class A, class B>
    void equal(const A &a, const B &b, const std::string &key,
               const std::string &what = "") {
        ++_asserts;
        if (!(a == b)) {
            std::ostringstream s;
            s.precision(15);
            s << what << " got " << a << " expected " << b;
            fail(key, s.str());
        }
    }
    template <class F>
    void throws(F f, const std::string &key, const std::string &what = "") {
        ++_asserts;
        bool thrown = false;
        try {
            f();
        } catch (const Violation &) {
            throw;
        } catch (...) {
            thrown = true;
        }
        if (!thrown) fail(key, what + " did not raise an exception");
    }

    // results
    const std::vector<uint64_t> &choices() const { return _choices; }
    bool is_nontrivial() const { return _nontrivial; }
    const std::string &notes() const { return _notes; }
    const std::set<std::string> &labels() const { return _labels; }
    uint64_t asserts() const { return _asserts; }
    uint64_t hash() const {
        uint64_t h = 1469598103934665603ull;
        for (uint64_t c : _choices) {
            h ^= c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
            h *= 1099511628211ull;
        }
        return h;
    }

   private:
    uint64_t _state = 0;
    bool _replaying = false;
    std::vector<uint64_t> _replay;
    size_t _pos = 0;
    std::vector<uint64_t> _choices;
    bool _nontrivial = false;
    std::string _notes;
    std::set<std::string> _labels;
    uint64_t _asserts = 0;
    SharedLog *_log;

    void start() {
        if (_log) _log->count = 0;
    }
    void record(uint64_t v) {
        if (_log && _pos < (sizeof(_log->choices) / sizeof(uint64_t))) {
            _log->choices[_pos] = v;
            _log->count = _pos + 1;
        }
        ++_pos;
        _choices.push_back(v);
    }
    uint64_t next() {  // splitmix64
        uint64_t z = (_state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

typedef std::function<void(Case &)> LawFn;

struct Law {
    std::string property;  // id of the property the law belongs to
    std::string name;
    std::string rule;  // how cases are made, what makes one non-trivial
    int quick;         // number of cases in the quick tier
    int thorough;      // number of cases in the thorough tier
    LawFn fn;
    double hang_seconds;
};

std::vector<Law> &laws();

struct Register {
    Register(const char *property, const char *name, const char *rule,
             int quick, int thorough, LawFn fn, double hang = 120.0) {
        laws().push_back(
            Law{property, name, rule, quick, thorough, fn, hang});
    }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// LAW(property, name, quick, thorough, "rule") { ... uses Case &c ... }
#define LAW(prop, lawname, quick, thorough, rule)                       \
    static void PBT_CAT(law_##prop##_, lawname)(pbt::Case & c);         \
    static pbt::Register PBT_CAT(reg_##prop##_, lawname)(               \
        #prop, #lawname, rule, quick, thorough,                         \
        PBT_CAT(law_##prop##_, lawname));                               \
    static void PBT_CAT(law_##prop##_, lawname)(pbt::Case & c)

std::string scratch_dir();  ///< private directory of this worker process
bool thorough_tier();

}  // namespace pbt
