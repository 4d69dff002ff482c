// P24: the task pool runs every accepted task once and always comes to rest;
// objects shared between threads are never seen half changed
#include <usml/ocean/ocean.h>
#include <usml/threads/threads.h>

#include <atomic>
#include <chrono>
#include <memory>
#include <set>
#include <thread>

#include "pbt.h"

using namespace usml::threads;
using pbt::Case;
using std::chrono::microseconds;
using std::chrono::steady_clock;

#undef LAW_SOON
// laws whose cases finish within a second: a case that needs 40 is stuck
#define LAW_SOON(prop, lawname, quick, thorough, rule)                     \
    static void PBT_CAT(law_##prop##_, lawname)(pbt::Case & c);            \
    static pbt::Register PBT_CAT(reg_##prop##_, lawname)(                  \
        #prop, #lawname, rule, quick, thorough,                            \
        PBT_CAT(law_##prop##_, lawname), 40.0);                            \
    static void PBT_CAT(law_##prop##_, lawname)(pbt::Case & c)

// what happened to all tasks of one history
struct Record {
    std::atomic<int> running{0}, most{0}, started{0};
    std::atomic<bool> closed{false};    // the pool has gone
    std::atomic<bool> too_late{false};  // a task started after that
    void enter() {
        if (closed) too_late = true;
        int r = ++running, m = most;
        while (r > m && !most.compare_exchange_weak(m, r)) {
        }
        ++started;
    }
    void leave() { --running; }
};
enum Kind { quick, spin, nap, throws, throws_int, parent, patient, meeting };
struct Script {
    Kind kind;
    int length;  // of the work, number of children
    int abort;   // 0 never, 1 before it is handed over, 2 after
};
class Probe : public thread_task {
   public:
    Probe(Record *r, Script s, std::function<void(const ref &)> submit,
          std::atomic<int> *meet = nullptr, int expected = 0)
        : _rec(r),
          _script(s),
          _submit(std::move(submit)),
          _meet(meet),
          _expected(expected) {
        if (s.kind == parent)
            for (int n = 0; n < s.length; ++n)
                children.push_back(std::make_shared<Probe>(
                    r, Script{quick, 0, 0}, nullptr));
    }
    void run() override {
        _rec->enter();
        ++executions;
        if (_abort) saw_abort = true;
        auto end = steady_clock::now() + microseconds(_script.length);
        switch (_script.kind) {
            case spin:
                while (steady_clock::now() < end) {
                }
                break;
            case nap:
                std::this_thread::sleep_until(end);
                break;
            case throws:
                finish();
                throw std::runtime_error("expected by this check");
            case throws_int:
                finish();
                throw 17;
            case parent:
                for (auto &child : children) _submit(child);
                break;
            case patient:  // works until it is told to abort
                while (!_abort) std::this_thread::yield();
                saw_abort = true;
                break;
            case meeting: {  // waits for all workers to join in
                ++*_meet;
                while (*_meet < _expected && !_abort) std::this_thread::yield();
                break;
            }
            default:
                break;
        }
        finish();
        _done = true;
    }
    void finish() {
        ++finished;
        _rec->leave();
    }
    std::vector<std::shared_ptr<Probe>> children;
    std::atomic<int> executions{0}, finished{0};
    std::atomic<bool> saw_abort{false};
    Script &script() { return _script; }

   private:
    Record *_rec;
    Script _script;
    std::function<void(const ref &)> _submit;
    std::atomic<int> *_meet;
    int _expected;
};
typedef std::shared_ptr<Probe> Task;

static Script gen_script(Case &c, bool allow_patient = true) {
    Script s;
    s.kind = c.pick<Kind>({quick, quick, spin, nap, throws, throws_int, parent,
                           allow_patient ? patient : quick});
    s.length = s.kind == parent ? c.integer(0, 4) : c.integer(0, 1500);
    s.abort = c.pick<int>({0, 0, 0, 1, 2});
    if (s.kind == patient && !s.abort) s.abort = 2;
    return s;
}
// threads that hand over their tasks at the same time
static void submit_all(std::vector<std::vector<Task>> &lists,
                       const std::vector<int> &pause,
                       const std::function<void(const thread_task::ref &)> &go) {
    std::atomic<int> ready{0};
    int want = (int)lists.size();
    std::vector<std::thread> threads;
    for (size_t n = 0; n < lists.size(); ++n)
        threads.emplace_back([&, n] {
            ++ready;
            while (ready < want) std::this_thread::yield();
            for (auto &t : lists[n]) {
                if (t->script().abort == 1) t->abort();
                go(t);
                if (pause[n] > 0)
                    std::this_thread::sleep_for(microseconds(pause[n]));
                if (t->script().abort == 2) t->abort();
            }
        });
    for (auto &t : threads) t.join();
}
static void come_to_rest(Case &c) {
    bool late = false;
    try {
        thread_task::wait(15000);
    } catch (const std::range_error &) {
        late = true;
    }
    c.check(!late, "never-at-rest",
            "tasks still counted as active: " +
                std::to_string(thread_task::num_active()));
    c.equal(thread_task::num_active(), (size_t)0, "active-count", "at rest");
}
static void each(std::vector<std::vector<Task>> &lists,
                 const std::function<void(Probe &)> &f) {
    for (auto &l : lists)
        for (auto &t : l) {
            f(*t);
            for (auto &k : t->children) f(*k);
        }
}

LAW_SOON(P24, every_task_once, 400, 6000,
    "one to eight workers, tasks handed over by one to five threads at once: "
    "short, busy, sleeping, throwing, submitting others, waiting for their "
    "abort; some aborted before or after: each is executed once, the wait "
    "returns only when all are finished, no more run at once than there are "
    "workers; non-trivial: more tasks than workers and more than one thread") {
    int workers = c.integer(1, 8), T = c.integer(1, 5);
    Record rec;
    int total = 0;
    {
        thread_pool pool(workers);
        auto go = [&](const thread_task::ref &t) { pool.run(t); };
        for (int round = 0; round < 2; ++round) {
            std::vector<std::vector<Task>> lists(T);
            std::vector<int> pause;
            for (auto &l : lists) {
                int N = c.integer(0, 12);
                for (int n = 0; n < N; ++n)
                    l.push_back(
                        std::make_shared<Probe>(&rec, gen_script(c), go));
                pause.push_back(c.pick<int>({0, 0, 100, 1000}));
                total += N;
            }
            submit_all(lists, pause, go);
            if (c.flip(0.3))
                std::this_thread::sleep_for(microseconds(c.integer(0, 3000)));
            come_to_rest(c);
            each(lists, [&](Probe &p) {
                c.equal((int)p.finished, 1, "not-finished",
                        "finished when the wait returned");
                c.equal((int)p.executions, 1, "executions");
                if (p.script().abort == 1)
                    c.check(p.saw_abort, "abort", "abort was not seen");
                bool failed = p.script().kind == throws ||
                              p.script().kind == throws_int;
                c.equal(p.done(), !failed, "done");
            });
        }
    }
    c.check(rec.most <= workers, "workers", "more tasks at once than workers");
    c.nontrivial(total > workers && T > 1);
    c.label(std::to_string(workers) + " workers");
}

LAW_SOON(P24, all_workers_work, 200, 3000,
    "as many tasks as there are workers that wait for each other, after "
    "tasks that throw: all workers are still there; non-trivial: more than "
    "one worker") {
    int workers = c.integer(1, 10);
    Record rec;
    std::atomic<int> meet{0};
    thread_pool pool(workers);
    auto go = [&](const thread_task::ref &t) { pool.run(t); };
    std::vector<std::vector<Task>> lists(1);
    for (int n = 0; n < 2 * workers; ++n)
        lists[0].push_back(std::make_shared<Probe>(
            &rec, Script{c.pick<Kind>({throws, throws_int, quick}), 0, 0}, go));
    for (int n = 0; n < workers; ++n)
        lists[0].push_back(std::make_shared<Probe>(
            &rec, Script{meeting, 0, 0}, go, &meet, workers));
    submit_all(lists, {0}, go);
    bool late = false;
    try {
        thread_task::wait(8000);
    } catch (const std::range_error &) {
        late = true;
        for (auto &t : lists[0]) t->abort();
    }
    if (late) come_to_rest(c);
    c.check(!late, "workers-missing", "tasks wait for the others forever");
    c.equal((int)rec.most, workers, "workers-missing");
    c.nontrivial(workers > 1);
}

LAW_SOON(P24, shutdown, 600, 8000,
    "a pool destroyed at any moment, ten times: with idle, starting or busy "
    "workers and waiting tasks: it returns, no task runs afterwards, none "
    "runs twice, and dropped tasks are no longer counted; non-trivial: tasks "
    "were waiting or running") {
    bool busy = false;
    for (int k = 0; k < 10; ++k) {
        int workers = c.integer(1, 8), N = c.integer(0, 10);
        Record rec;
        std::vector<std::vector<Task>> lists(1);
        bool keep = c.flip();
        {
            auto pool = std::make_unique<thread_pool>(workers);
            auto go = [&](const thread_task::ref &t) { pool->run(t); };
            for (int n = 0; n < N; ++n) {
                Script s = gen_script(c, false);
                if (s.kind == parent) s.kind = quick;
                lists[0].push_back(std::make_shared<Probe>(&rec, s, go));
            }
            submit_all(lists, {c.pick<int>({0, 0, 50})}, go);
            int t = c.pick<int>({0, 0, 20, 200, 1000, 1100, 2000});
            if (t) std::this_thread::sleep_for(microseconds(t));
            pool.reset();
            rec.closed = true;
            c.equal((int)rec.running, 0, "still-running",
                    "tasks when the pool was destroyed");
        }
        if (rec.started > 0) busy = true;
        each(lists, [&](Probe &p) {
            c.check(p.executions <= 1, "executions");
            c.equal((int)p.finished, (int)p.executions, "still-running");
        });
        if (!keep) lists.clear();
        come_to_rest(c);
        if (c.flip(0.1)) std::this_thread::sleep_for(microseconds(1500));
        c.check(!rec.too_late, "run-after-end");
        c.tick();
    }
    c.nontrivial(busy);
}

LAW_SOON(P24, ids_and_count, 300, 4000,
    "two to eight threads that create tasks at once, of which some are "
    "handed over and others deleted unused: every identification is unique "
    "and sequential, the number of active tasks is exact; non-trivial: more "
    "than 100 tasks") {
    int T = c.integer(2, 8), N = c.integer(1, 300);
    double use = c.pick<double>({0.0, 0.5, 1.0});
    Record rec;
    std::vector<std::vector<Task>> lists(T);
    std::atomic<int> ready{0};
    auto first = std::make_shared<Probe>(&rec, Script{quick, 0, 0}, nullptr);
    size_t base = first->id();
    std::vector<std::thread> threads;
    for (int n = 0; n < T; ++n)
        threads.emplace_back([&, n] {
            ++ready;
            while (ready < T) {
            }
            for (int k = 0; k < N; ++k)
                lists[n].push_back(std::make_shared<Probe>(
                    &rec, Script{quick, 0, 0}, nullptr));
        });
    for (auto &t : threads) t.join();
    c.equal(thread_task::num_active(), (size_t)(T * N + 1), "active-count",
            "tasks created");
    std::set<size_t> ids{base};
    for (auto &l : lists) {
        size_t last = base;
        for (auto &t : l) {
            c.check(ids.insert(t->id()).second, "id-twice",
                    std::to_string(t->id()));
            c.check(t->id() - base > last - base, "id-order");
            last = t->id();
        }
    }
    c.equal(*ids.rbegin() - base, (size_t)(T * N), "id-sequence");
    first.reset();
    {
        thread_pool pool(c.integer(1, 4));
        size_t dropped = 0;
        for (auto &l : lists)
            for (auto &t : l) {
                if (c.flip(use))
                    pool.run(t);
                else
                    ++dropped;
                t.reset();
            }
        come_to_rest(c);
        c.equal((size_t)rec.started, (size_t)(T * N) - dropped, "executions");
    }
    c.nontrivial(T * N > 100);
}

LAW_SOON(P24, bounded_wait, 60, 800,
    "waits that are shorter or longer than the task takes: an exception is "
    "raised if and only if the tasks are not finished by then; non-trivial: "
    "always") {
    Record rec;
    thread_pool pool(c.integer(1, 3));
    auto t = std::make_shared<Probe>(&rec, Script{patient, 0, 0}, nullptr);
    pool.run(t);
    int limit = c.integer(1, 20);
    auto start = steady_clock::now();
    bool late = false;
    try {
        thread_task::wait(limit);
    } catch (const std::range_error &) {
        late = true;
    }
    auto took = std::chrono::duration<double, std::milli>(
                    steady_clock::now() - start)
                    .count();
    c.check(late, "wait-returned", "although a task is active");
    c.check(took >= limit, "wait-early",
            std::to_string(took) + " of " + std::to_string(limit) + " ms");
    t->abort();
    come_to_rest(c);
    c.equal((int)t->finished, 1, "executions");
    int ms = c.integer(1, 5);
    start = steady_clock::now();
    thread_task::sleep(ms);
    c.check(steady_clock::now() - start >= std::chrono::milliseconds(ms),
            "sleep-early");
    c.nontrivial();
}

LAW_SOON(P24, controller, 300, 4000,
    "threads and running tasks that ask for the shared pool and hand it tasks "
    "while it is created or replaced: there is one pool, it works, every "
    "task handed to a pool that is not replaced is executed, and nothing "
    "gets stuck; non-trivial: two or more threads") {
    Record rec;
    int T = c.integer(1, 5), N = c.integer(1, 10);
    bool replace = c.flip();
    thread_controller::reset(c.integer(1, 6));
    auto go = [](const thread_task::ref &t) {
        thread_controller::instance()->run(t);
    };
    std::vector<std::vector<Task>> lists(T);
    for (auto &l : lists)
        for (int n = 0; n < N; ++n) {
            Script s = gen_script(c, !replace);
            if (c.flip(0.3)) s = Script{parent, c.integer(1, 3), 0};
            l.push_back(std::make_shared<Probe>(&rec, s, go));
        }
    std::vector<int> pause(T, c.pick<int>({0, 100}));
    thread_pool *before = thread_controller::instance();
    std::vector<thread_pool *> seen(T, nullptr);
    if (replace) {
        // handed over and at work while the pool is replaced; threads other
        // than those of tasks must not keep the pool they were given
        submit_all(lists, pause, go);
        if (c.flip())
            std::this_thread::sleep_for(microseconds(c.integer(0, 1500)));
        int workers = c.integer(1, 6);
        thread_controller::reset(workers);
        lists.clear();
        come_to_rest(c);
        std::atomic<int> meet{0};
        for (int n = 0; n < workers; ++n)
            go(std::make_shared<Probe>(&rec, Script{meeting, 0, 0}, go, &meet,
                                       workers));
        come_to_rest(c);
        c.equal((int)meet, workers, "workers-missing", "after a reset");
    } else {
        std::vector<std::thread> threads;
        std::atomic<int> ready{0};
        for (int n = 0; n < T; ++n)
            threads.emplace_back([&, n] {
                ++ready;
                while (ready < T) {
                }
                seen[n] = thread_controller::instance();
            });
        for (auto &t : threads) t.join();
        for (auto *p : seen)
            c.check(p == before, "two-pools", "another pool without a reset");
        submit_all(lists, pause, go);
        come_to_rest(c);
        each(lists, [&](Probe &p) {
            c.equal((int)p.executions, 1, "executions");
        });
    }
    c.nontrivial(T > 1);
    c.label(replace ? "replaced" : "kept");
}

LAW_SOON(P24, first_instance, 100, 1500,
    "two to eight threads that ask for the shared pool before there is one: "
    "all get the same; non-trivial: always") {
    // the pool exists at most once per process: look at a fresh process
    int T = c.integer(2, 8);
    static bool used = false;
    thread_pool *was = used ? thread_controller::instance() : nullptr;
    used = true;
    std::vector<std::thread> threads;
    std::vector<thread_pool *> seen(T, nullptr);
    std::atomic<int> ready{0};
    for (int n = 0; n < T; ++n)
        threads.emplace_back([&, n] {
            ++ready;
            while (ready < T) {
            }
            seen[n] = thread_controller::instance();
        });
    for (auto &t : threads) t.join();
    for (auto *p : seen)
        c.check(p != nullptr && p == seen[0] && (!was || p == was),
                "two-pools");
    c.nontrivial();
}

LAW_SOON(P24, read_write_locks, 200, 3000,
    "readers and writers of a group of values behind a lock: readers never "
    "see the values of two writers, no write is lost, readers do not keep "
    "each other out; non-trivial: two writers and a reader") {
    read_write_lock mutex;
    int W = c.integer(1, 4), Rd = c.integer(1, 4), N = c.integer(1, 200);
    long value[4] = {0, 0, 0, 0};
    std::atomic<bool> torn{false};
    std::vector<std::thread> threads;
    for (int n = 0; n < W; ++n)
        threads.emplace_back([&] {
            for (int k = 0; k < N; ++k) {
                write_lock_guard guard(mutex);
                for (auto &v : value) v = v + 1;
            }
        });
    for (int n = 0; n < Rd; ++n)
        threads.emplace_back([&] {
            for (int k = 0; k < N; ++k) {
                read_lock_guard guard(mutex);
                for (auto v : value)
                    if (v != value[0]) torn = true;
            }
        });
    for (auto &t : threads) t.join();
    c.check(!torn, "torn");
    for (auto v : value) c.equal(v, (long)W * N, "lost-write");
    // two readers at once
    std::atomic<int> inside{0};
    auto reader = [&] {
        read_lock_guard guard(mutex);
        ++inside;
        while (inside < 2) std::this_thread::yield();
    };
    std::thread a(reader), b(reader);
    a.join(), b.join();
    c.nontrivial(W > 1);
}

LAW_SOON(P24, shared_ocean, 200, 3000,
    "threads that publish, reset and read the shared ocean: readers get "
    "complete oceans that were published, in order, and may keep them; "
    "non-trivial: two readers and five publications") {
    using namespace usml::ocean;
    typedef ocean_model::csptr Ocean;
    int Rd = c.integer(1, 4), N = c.integer(1, 30);
    bool reset = c.flip(0.3);
    ocean_shared::reset();
    c.check(ocean_shared::current() == nullptr, "not-empty", "after reset");
    std::vector<Ocean> made;
    std::vector<std::weak_ptr<const ocean_model>> weak;
    for (int n = 0; n < N; ++n) {
        boundary_model::csptr top(new boundary_flat()),
            bottom(new boundary_flat(100.0 + n));
        profile_model::csptr water(new profile_linear(1500.0 + n));
        made.push_back(Ocean(new ocean_model(top, bottom, water)));
        weak.push_back(made.back());
    }
    auto number = [](const Ocean &o) {
        double height = 0;
        o->bottom()->height(wposition1(0.1, 0.1), &height);
        return (int)std::lround(wposition::earth_radius - height - 100.0);
    };
    std::atomic<bool> bad{false}, stop{false};
    std::vector<std::thread> readers;
    std::vector<Ocean> kept(Rd);
    for (int n = 0; n < Rd; ++n)
        readers.emplace_back([&, n] {
            int last = -1;
            while (!stop) {
                Ocean o = ocean_shared::current();
                if (!o) {
                    if (last >= 0 && !reset) bad = true;
                    continue;
                }
                int k = number(o);
                if (k < last || k >= N) bad = true;
                last = k;
                kept[n] = o;
            }
        });
    for (int n = 0; n < N; ++n) {
        Ocean o = made[n];
        made[n].reset();
        ocean_shared::update(o);
        if (ocean_shared::current() != o) bad = true;
        if (reset && n + 1 < N && n % 3 == 0) ocean_shared::reset();
        if (n % 4 == 0) std::this_thread::sleep_for(microseconds(50));
    }
    stop = true;
    for (auto &t : readers) t.join();
    c.check(!bad, "ocean", "not one that was published, or out of order");
    Ocean o = ocean_shared::current();
    c.equal(number(o), N - 1, "ocean-last");
    for (auto &k : kept)
        if (k) c.check(number(k) < N, "ocean-kept");
    // nobody else keeps the old ones
    kept.clear();
    o.reset();
    for (int n = 0; n + 1 < N; ++n)
        c.check(weak[n].expired(), "ocean-leak", "old ocean is kept");
    ocean_shared::reset();
    c.check(weak[N - 1].expired(), "ocean-leak", "last ocean is kept");
    c.nontrivial(Rd > 1 && N > 4);
}
