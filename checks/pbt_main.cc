// Supervisor of the property-based checks: runs the laws of one property over
// generated cases in forked workers, confirms and shrinks failures, writes the
// evidence file and prints the verdict.
#include "pbt.h"

#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <typeinfo>

namespace pbt {

std::vector<Law> &laws() {
    static std::vector<Law> l;
    return l;
}

static std::string g_scratch_root;
static std::string g_scratch;
static bool g_thorough = false;
std::string scratch_dir() { return g_scratch; }
bool thorough_tier() { return g_thorough; }

}  // namespace pbt

using namespace pbt;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h ^= ch;
        h *= 1099511628211ull;
    }
    return h;
}
static uint64_t case_seed(const Law &law, uint64_t seed, uint64_t index) {
    return mix(mix(hash_str(law.property + "/" + law.name) ^ mix(seed)) ^
               mix(index * 2 + 1));
}

static std::string oneline(std::string s) {
    for (char &ch : s)
        if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
    return s;
}
static std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch < 0x20 || ch > 0x7e) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o + "\"";
}

static int rm_one(const char *p, const struct stat *, int, struct FTW *) {
    return remove(p);
}
static void rm_tree(const std::string &d) {
    if (d.find("/verif-pbt-") == std::string::npos) return;
    nftw(d.c_str(), rm_one, 32, FTW_DEPTH | FTW_PHYS);
}

// run one case in this process: key of the violation, or "" when it held
struct Outcome {
    std::string key, msg, notes;
    std::vector<uint64_t> choices;
};

static void demangle_trim(std::string &s) {
    if (s.size() > 600) s.resize(600);
}

static bool run_case(const Law &law, Case &c, Outcome &o) {
    bool discarded = false;
    try {
        law.fn(c);
    } catch (const Violation &v) {
        o.key = v.key.empty() ? "violation" : v.key;
        o.msg = v.msg;
    } catch (const Discard &) {
        discarded = true;
    } catch (const std::exception &e) {
        o.key = std::string("exception");
        o.msg = std::string(typeid(e).name()) + ": " + e.what();
    } catch (const char *s) {
        o.key = "exception";
        o.msg = s;
    } catch (...) {
        o.key = "exception";
        o.msg = "unknown exception";
    }
    demangle_trim(o.msg);
    o.notes = c.notes();
    o.choices = c.choices();
    return !discarded;
}

// silence the code under test (it prints to stdout/stderr); stderr goes to a
// file, so that sanitizer reports can be quoted
static void redirect_output(const std::string &errfile) {
    fflush(stdout);
    fflush(stderr);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (e >= 0) dup2(e, 2);
}

static SharedLog *new_log() {
    void *p = mmap(nullptr, sizeof(SharedLog), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(2);
    }
    return (SharedLog *)p;
}

static std::string tail_of(const std::string &file, size_t max = 700) {
    std::ifstream in(file.c_str());
    std::string all((std::istreambuf_iterator<char>(in)),
                    std::istreambuf_iterator<char>());
    size_t p = all.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = all.find("runtime error");
    if (p == std::string::npos) p = all.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = all.size() > max ? all.size() - max : 0;
    return oneline(all.substr(p, max));
}

static std::string crash_key(int status, const std::string &err) {
    if (err.find("AddressSanitizer") != std::string::npos) return "asan";
    if (err.find("ThreadSanitizer") != std::string::npos) return "tsan";
    if (err.find("runtime error") != std::string::npos) return "ubsan";
    if (WIFSIGNALED(status)) {
        char b[32];
        snprintf(b, sizeof b, "signal-%d", WTERMSIG(status));
        return b;
    }
    return "process-exit";
}

static pid_t fork_child() {
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
    }
    return p;
}

// run one recorded case in its own process
static Outcome run_isolated(const Law &law, const std::vector<uint64_t> &ch,
                            SharedLog *log) {
    static int serial = 0;
    char name[64];
    snprintf(name, sizeof name, "/iso%d", serial++);
    std::string base = g_scratch_root + name;
    pid_t pid = fork_child();
    if (pid == 0) {
        g_scratch = base + ".d";
        mkdir(g_scratch.c_str(), 0700);
        if (chdir(g_scratch.c_str())) _exit(3);
        redirect_output(base + ".err");
        Case c(ch, log);
        Outcome o;
        run_case(law, c, o);
        FILE *f = fopen((base + ".out").c_str(), "w");
        fprintf(f, "%s\n%s\n%s\n", oneline(o.key).c_str(),
                oneline(o.msg).c_str(), oneline(o.notes).c_str());
        for (uint64_t v : o.choices)
            fprintf(f, "%llu ", (unsigned long long)v);
        fclose(f);
        _exit(0);
    }
    double t0 = now();
    int status = 0;
    bool hang = false;
    uint64_t prog = log->progress;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (log->progress != prog) {
            prog = log->progress;
            t0 = now();
        }
        if (now() - t0 > law.hang_seconds) {
            hang = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            break;
        }
        usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    Outcome o;
    if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        std::ifstream in((base + ".out").c_str());
        std::getline(in, o.key);
        std::getline(in, o.msg);
        std::getline(in, o.notes);
        uint64_t v;
        while (in >> v) o.choices.push_back(v);
    } else {
        std::string err = tail_of(base + ".err");
        o.key = hang ? "hang" : crash_key(status, err);
        o.msg = hang ? "the case did not finish" : err;
        uint64_t n = log->count;
        for (uint64_t i = 0; i < n; ++i) o.choices.push_back(log->choices[i]);
    }
    unlink((base + ".out").c_str());
    unlink((base + ".err").c_str());
    rm_tree(base + ".d");
    return o;
}

struct Failure {
    size_t law;
    uint64_t index;
    std::string key, msg;
    std::vector<uint64_t> choices;
    std::string notes;
    int confirmed = 0, tries = 0;
    bool known = false;
    std::string what, replay;
};

struct LawStats {
    uint64_t evals = 0, discards = 0, asserts = 0, planned = 0;
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

struct Chunk {
    size_t law;
    uint64_t begin, end;
};

struct Known {
    std::string property, key, what;
    uint64_t hits = 0;
};

static std::vector<Known> g_known;

static int known_index(const std::string &prop, const std::string &key) {
    for (size_t i = 0; i < g_known.size(); ++i)
        if (g_known[i].property == prop && g_known[i].key == key) return (int)i;
    return -1;
}

static void worker(const Law &law, const Chunk &ch, uint64_t seed,
                   SharedLog *log, const std::string &base) {
    g_scratch = base + ".d";
    mkdir(g_scratch.c_str(), 0700);
    if (chdir(g_scratch.c_str())) _exit(3);
    redirect_output(base + ".err");
    FILE *f = fopen((base + ".out").c_str(), "w");
    uint64_t evals = 0, discards = 0, asserts = 0;
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    int nsample = 0, nfail = 0;
    std::set<std::string> seen;
    for (uint64_t i = ch.begin; i < ch.end; ++i) {
        log->index = i;
        log->progress = log->progress + 1;
        Case c(case_seed(law, seed, i), log);
        Outcome o;
        bool kept = run_case(law, c, o);
        if (!kept) {
            ++discards;
            continue;
        }
        ++evals;
        asserts += c.asserts();
        for (auto &l : c.labels()) ++labels[l];
        if (c.is_nontrivial()) hashes.insert(c.hash());
        if (o.key.empty()) {
            if (c.is_nontrivial() && nsample < 1 && !o.notes.empty()) {
                ++nsample;
                fprintf(f, "S %s\n", oneline(o.notes).substr(0, 1500).c_str());
            }
        } else {
            bool known =
                known_index(law.property, law.name + "/" + o.key) >= 0;
            if (known)
                fprintf(f, "K %s\n", oneline(o.key).c_str());
            else if (seen.insert(o.key).second) {
                ++nfail;
                fprintf(f, "F %llu %s\t%s\t%s\t", (unsigned long long)i,
                        oneline(o.key).c_str(), oneline(o.msg).c_str(),
                        oneline(o.notes).c_str());
                for (uint64_t v : o.choices)
                    fprintf(f, "%llu ", (unsigned long long)v);
                fprintf(f, "\n");
                fflush(f);
            }
            if (nfail >= 3) break;
        }
    }
    fprintf(f, "E %llu %llu %llu\n", (unsigned long long)evals,
            (unsigned long long)discards, (unsigned long long)asserts);
    for (auto &h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
    for (auto &l : labels)
        fprintf(f, "L %llu %s\n", (unsigned long long)l.second,
                oneline(l.first).c_str());
    fprintf(f, "D\n");
    fclose(f);
    _exit(0);
}

static std::string sanitize(std::string s) {
    for (char &ch : s)
        if (!isalnum((unsigned char)ch) && ch != '-' && ch != '_') ch = '_';
    if (s.size() > 80) s.resize(80);
    return s;
}

// make the failing choice sequence smaller while the same key fails
static void shrink(const Law &law, Failure &f, SharedLog *log) {
    double t0 = now();
    const double budget = 60.0;
    int runs = 0;
    std::vector<uint64_t> best = f.choices;
    auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
        if (runs > 500 || now() - t0 > budget) return false;
        ++runs;
        Outcome o = run_isolated(law, cand, log);
        if (o.key != f.key) return false;
        if (o.choices.size() > cand.size()) {  // padded with zeros: same case
            o.choices.resize(cand.size());
        }
        best = o.choices.size() <= cand.size() ? o.choices : cand;
        f.msg = o.msg;
        if (!o.notes.empty()) f.notes = o.notes;
        return true;
    };
    if (f.key == "hang") return;  // every attempt would cost a full timeout
    bool progress = true;
    while (progress && runs < 500 && now() - t0 < budget) {
        progress = false;
        for (size_t len = best.size() / 2; len >= 1; len /= 2) {
            for (size_t i = best.size(); i-- > 0;) {
                if (i + len > best.size()) continue;
                std::vector<uint64_t> cand(best);
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand)) progress = true;
                if (runs > 250) break;
            }
            if (runs > 250) break;
        }
        for (size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> cand(best);
            cand[i] = 0;
            if (attempt(cand)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best[i];
            for (int k = 0; k < 8 && hi - lo > 1; ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                cand = best;
                if (i >= cand.size()) break;
                cand[i] = mid;
                if (attempt(cand)) {
                    hi = mid;
                    progress = true;
                } else
                    lo = mid;
            }
        }
    }
    f.choices = best;
}

static void write_replay(const Law &law, Failure &f, uint64_t seed,
                         const std::string &dir) {
    mkdir(dir.c_str(), 0755);
    std::string path = dir + "/" + law.property + "-" + sanitize(law.name) +
                       "-" + sanitize(f.key) + ".txt";
    FILE *o = fopen(path.c_str(), "w");
    if (o) {
        fprintf(o, "property %s\nlaw %s\nkey %s\nseed %llu\nindex %llu\n",
                law.property.c_str(), law.name.c_str(), f.key.c_str(),
                (unsigned long long)seed, (unsigned long long)f.index);
        fprintf(o, "choices %zu", f.choices.size());
        for (uint64_t v : f.choices)
            fprintf(o, " %llu", (unsigned long long)v);
        fprintf(o, "\nmessage %s\ninput %s\n", oneline(f.msg).c_str(),
                oneline(f.notes).c_str());
        fclose(o);
    }
    f.replay = path;
}

int main(int argc, char **argv) {
    std::string property, tier = "quick", evidence, replay_dir = ".", known,
                          replay, only, scratch = "/tmp";
    uint64_t seed = 1;
    double scale = 1.0;
    int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--property") property = v;
        if (a == "--tier") tier = v;
        if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        if (a == "--evidence") evidence = v;
        if (a == "--replay-dir") replay_dir = v;
        if (a == "--known") known = v;
        if (a == "--replay") replay = v;
        if (a == "--law") only = v;
        if (a == "--scale") scale = atof(v.c_str());
        if (a == "--jobs") jobs = atoi(v.c_str());
        if (a == "--scratch") scratch = v;
    }
    if (jobs < 1) jobs = 1;
    if (jobs > 16) jobs = 16;
    g_thorough = tier == "thorough";
    double t0 = now();
    std::string tmpl = scratch + "/verif-pbt-XXXXXX";
    std::vector<char> buf(tmpl.begin(), tmpl.end());
    buf.push_back(0);
    if (!mkdtemp(buf.data())) {
        perror("mkdtemp");
        return 2;
    }
    g_scratch_root = buf.data();

    {
        std::ifstream in(known.c_str());
        std::string line;
        while (std::getline(in, line)) {
            // known: property=P01 key=law/key what fails
            if (line.compare(0, 6, "known:")) continue;
            std::istringstream s(line.substr(6));
            std::string p, k, rest;
            s >> p >> k;
            std::getline(s, rest);
            if (p.compare(0, 9, "property=") || k.compare(0, 4, "key="))
                continue;
            Known kn;
            kn.property = p.substr(9);
            kn.key = k.substr(4);
            kn.what = rest.empty() ? "" : rest.substr(1);
            if (kn.property == property) g_known.push_back(kn);
        }
    }

    std::vector<size_t> sel;
    for (size_t i = 0; i < laws().size(); ++i)
        if (laws()[i].property == property &&
            (only.empty() || laws()[i].name == only))
            sel.push_back(i);
    std::sort(sel.begin(), sel.end(), [](size_t a, size_t b) {
        return laws()[a].name < laws()[b].name;
    });
    if (sel.empty()) {
        fprintf(stderr, "no law for property %s\n", property.c_str());
        return 2;
    }
    SharedLog *isolog = new_log();

    //------------------------------------------------------------------
    // replay of a recorded case
    if (!replay.empty()) {
        std::ifstream in(replay.c_str());
        std::string line, lawname, key;
        std::vector<uint64_t> ch;
        while (std::getline(in, line)) {
            std::istringstream s(line);
            std::string w;
            s >> w;
            if (w == "law") s >> lawname;
            if (w == "key") s >> key;
            if (w == "choices") {
                size_t n;
                s >> n;
                uint64_t v;
                while (s >> v) ch.push_back(v);
            }
        }
        int rc = 2;
        for (size_t i : sel)
            if (laws()[i].name == lawname) {
                Outcome o = run_isolated(laws()[i], ch, isolog);
                if (o.key.empty()) {
                    printf("replay of %s/%s: the property held\n",
                           property.c_str(), lawname.c_str());
                    printf("  input: %s\n", o.notes.c_str());
                    rc = 0;
                } else {
                    printf("  %s/%s: %s\n  input: %s\n", lawname.c_str(),
                           o.key.c_str(), o.msg.c_str(), o.notes.c_str());
                    printf("VIOLATION property=%s replay=%s\n",
                           property.c_str(), replay.c_str());
                    rc = 1;
                }
            }
        rm_tree(g_scratch_root);
        return rc;
    }

    //------------------------------------------------------------------
    // exploration
    std::vector<Chunk> chunks;
    std::map<size_t, LawStats> stats;
    for (size_t i : sel) {
        const Law &l = laws()[i];
        uint64_t n = (uint64_t)std::max(
            1.0, (g_thorough ? l.thorough : l.quick) * scale);
        stats[i].planned = n;
        uint64_t parts = std::min<uint64_t>(n, 24);
        for (uint64_t p = 0; p < parts; ++p)
            chunks.push_back(Chunk{i, n * p / parts, n * (p + 1) / parts});
    }
    // interleave the laws so that the slow ones do not all run last
    std::stable_sort(chunks.begin(), chunks.end(),
                     [](const Chunk &a, const Chunk &b) {
                         return a.begin * (double)(b.end - b.begin) <
                                b.begin * (double)(a.end - a.begin);
                     });
    struct Slot {
        pid_t pid = 0;
        size_t chunk = 0;
        SharedLog *log = nullptr;
        std::string base;
        uint64_t prog = 0;
        double since = 0;
    };
    std::vector<Slot> slots(jobs);
    for (auto &s : slots) s.log = new_log();
    std::vector<Failure> failures;
    std::set<std::string> failkeys;
    size_t next = 0, running = 0;
    uint64_t truncated = 0;
    const double deadline = g_thorough ? 6.0 * 3600 : 700.0;
    auto add_failure = [&](size_t law, uint64_t index, const std::string &key,
                           const std::string &msg, const std::string &notes,
                           const std::vector<uint64_t> &ch) {
        const Law &l = laws()[law];
        int k = known_index(l.property, l.name + "/" + key);
        if (k >= 0) {
            ++g_known[k].hits;
            return;
        }
        if (!failkeys.insert(l.name + "/" + key).second) return;
        Failure f;
        f.law = law;
        f.index = index;
        f.key = key;
        f.msg = msg;
        f.notes = notes;
        f.choices = ch;
        failures.push_back(f);
    };
    auto harvest = [&](Slot &s, int status, bool hang) {
        const Chunk &ch = chunks[s.chunk];
        LawStats &st = stats[ch.law];
        bool done = false;
        std::ifstream in((s.base + ".out").c_str());
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty()) continue;
            if (line[0] == 'D') done = true;
            if (line[0] == 'E') {
                unsigned long long a, b, d;
                if (sscanf(line.c_str(), "E %llu %llu %llu", &a, &b, &d) == 3) {
                    st.evals += a;
                    st.discards += b;
                    st.asserts += d;
                }
            }
            if (line[0] == 'H')
                st.hashes.insert(strtoull(line.c_str() + 2, nullptr, 16));
            if (line[0] == 'L') {
                unsigned long long a;
                int off = 0;
                if (sscanf(line.c_str(), "L %llu %n", &a, &off) >= 1)
                    st.labels[line.substr(off)] += a;
            }
            if (line[0] == 'S' && st.samples.size() < 3)
                st.samples.push_back(line.substr(2));
            if (line[0] == 'K') {
                int k = known_index(property,
                                    laws()[ch.law].name + "/" + line.substr(2));
                if (k >= 0) ++g_known[k].hits;
            }
            if (line[0] == 'F') {
                std::vector<std::string> part;
                std::string cur;
                for (char q : line.substr(2)) {
                    if (q == '\t') {
                        part.push_back(cur);
                        cur.clear();
                    } else
                        cur += q;
                }
                part.push_back(cur);
                if (part.size() == 4) {
                    size_t sp = part[0].find(' ');
                    uint64_t idx = strtoull(part[0].c_str(), nullptr, 10);
                    std::istringstream cs(part[3]);
                    std::vector<uint64_t> v;
                    uint64_t x;
                    while (cs >> x) v.push_back(x);
                    add_failure(ch.law, idx, part[0].substr(sp + 1), part[1],
                                part[2], v);
                }
            }
        }
        if (!done) {  // crash or hang at case log->index
            std::string err = tail_of(s.base + ".err");
            std::string key = hang ? "hang" : crash_key(status, err);
            std::vector<uint64_t> v;
            for (uint64_t i = 0; i < s.log->count; ++i)
                v.push_back(s.log->choices[i]);
            st.evals += s.log->index - ch.begin + 1;
            add_failure(ch.law, s.log->index, key,
                        hang ? "the case did not finish" : err, "", v);
        }
        unlink((s.base + ".out").c_str());
        unlink((s.base + ".err").c_str());
        rm_tree(s.base + ".d");
    };
    while (next < chunks.size() || running) {
        for (auto &s : slots) {
            if (s.pid == 0 && next < chunks.size()) {
                if (now() - t0 > deadline || failures.size() >= 6) {
                    truncated += chunks[next].end - chunks[next].begin;
                    ++next;
                    continue;
                }
                s.chunk = next++;
                char name[64];
                snprintf(name, sizeof name, "/chunk%zu", s.chunk);
                s.base = g_scratch_root + name;
                s.log->index = chunks[s.chunk].begin;
                s.log->count = 0;
                s.prog = s.log->progress;
                s.since = now();
                pid_t p = fork_child();
                if (p == 0)
                    worker(laws()[chunks[s.chunk].law], chunks[s.chunk], seed,
                           s.log, s.base);
                s.pid = p;
                ++running;
            }
        }
        for (auto &s : slots) {
            if (!s.pid) continue;
            int status = 0;
            pid_t r = waitpid(s.pid, &status, WNOHANG);
            bool hang = false;
            if (r == 0) {
                if (s.log->progress != s.prog) {
                    s.prog = s.log->progress;
                    s.since = now();
                } else if (now() - s.since >
                           laws()[chunks[s.chunk].law].hang_seconds) {
                    hang = true;
                    kill(-s.pid, SIGKILL);
                    kill(s.pid, SIGKILL);
                    waitpid(s.pid, &status, 0);
                }
            }
            if (r == s.pid || hang) {
                harvest(s, status, hang);
                s.pid = 0;
                --running;
            }
        }
        usleep(2000);
    }

    //------------------------------------------------------------------
    // confirm, shrink, and report the failures
    std::sort(failures.begin(), failures.end(),
              [](const Failure &a, const Failure &b) {
                  if (a.law != b.law)
                      return laws()[a.law].name < laws()[b.law].name;
                  return a.index < b.index;
              });
    int confirmed = 0;
    std::vector<std::string> unconfirmed;
    for (auto &f : failures) {
        const Law &l = laws()[f.law];
        int want = confirmed ? 1 : 3;
        for (int k = 0; k < 12 && f.confirmed < want; ++k) {
            ++f.tries;
            Outcome o = run_isolated(l, f.choices, isolog);
            if (!o.key.empty()) {
                if (o.key != f.key) f.key = o.key;
                ++f.confirmed;
                if (!o.notes.empty()) f.notes = o.notes;
                if (!o.msg.empty()) f.msg = o.msg;
            }
            if (f.key == "hang" && f.confirmed) break;
        }
        if (!f.confirmed) {
            unconfirmed.push_back(l.name + "/" + f.key + " case " +
                                  std::to_string(f.index) + ": " + f.msg);
            printf("UNCONFIRMED %s (not reproduced in %d replays)\n",
                   unconfirmed.back().c_str(), f.tries);
            continue;
        }
        int kn = known_index(property, l.name + "/" + f.key);
        if (kn >= 0) {
            ++g_known[kn].hits;
            continue;
        }
        if (!confirmed) shrink(l, f, isolog);
        ++confirmed;
        write_replay(l, f, seed, replay_dir);
        printf("  law %s/%s case %llu (confirmed %d/%d)\n    %s\n    input: "
               "%s\n",
               l.name.c_str(), f.key.c_str(), (unsigned long long)f.index,
               f.confirmed, f.tries, f.msg.c_str(),
               f.notes.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", property.c_str(),
               f.replay.c_str());
    }
    for (auto &k : g_known)
        printf("KNOWN-FINDING: property=%s %s (%llu generated cases hit it)\n",
               property.c_str(), k.what.c_str(), (unsigned long long)k.hits);

    //------------------------------------------------------------------
    // evidence
    uint64_t evals = 0, nontriv = 0;
    std::string rules, samples, perlaw;
    for (size_t i : sel) {
        const Law &l = laws()[i];
        LawStats &st = stats[i];
        evals += st.evals;
        nontriv += st.hashes.size();
        rules += (rules.empty() ? "" : " | ") + l.name + ": " + l.rule;
        for (auto &s : st.samples)
            samples += (samples.empty() ? "" : ",\n   ") +
                       json(l.name + ": " + s);
        std::ostringstream p;
        p << json(l.name) << ": {\"cases\": " << st.evals
          << ", \"distinct_nontrivial\": " << st.hashes.size()
          << ", \"discarded\": " << st.discards
          << ", \"assertions\": " << st.asserts << ", \"classes\": {";
        bool first = true;
        for (auto &x : st.labels) {
            p << (first ? "" : ", ") << json(x.first) << ": " << x.second;
            first = false;
        }
        p << "}}";
        perlaw += (perlaw.empty() ? "" : ",\n   ") + p.str();
        printf("%-28s %8llu cases %8zu nontrivial %8llu discarded %10llu "
               "assertions\n",
               l.name.c_str(), (unsigned long long)st.evals, st.hashes.size(),
               (unsigned long long)st.discards,
               (unsigned long long)st.asserts);
    }
    if (!evidence.empty()) {
        FILE *e = fopen(evidence.c_str(), "w");
        if (!e) {
            perror(evidence.c_str());
            return 2;
        }
        fprintf(e,
                "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n"
                " \"level\": \"exploration\",\n \"coverage\": {\n"
                "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n"
                "  \"rule\": %s,\n  \"samples\": [\n   %s],\n"
                "  \"laws\": {\n   %s},\n  \"cases_not_run\": %llu,\n"
                "  \"unconfirmed\": %zu\n },\n",
                json(property).c_str(), json(tier).c_str(),
                (unsigned long long)seed, (unsigned long long)evals,
                (unsigned long long)nontriv, json(rules).c_str(),
                samples.c_str(), perlaw.c_str(), (unsigned long long)truncated,
                unconfirmed.size());
        fprintf(e, " \"wall_s\": %.2f,\n \"violation_details\": [", now() - t0);
        bool first = true;
        int nviol = 0;
        for (auto &f : failures)
            if (!f.replay.empty()) {
                fprintf(e, "%s%s", first ? "" : ", ",
                        json(laws()[f.law].name + "/" + f.key + ": " + f.msg)
                            .c_str());
                first = false;
                ++nviol;
            }
        fprintf(e, "],\n \"violations\": %d\n}\n", nviol);

        fclose(e);
    }
    printf("%s %s seed %llu: %llu cases, %llu distinct nontrivial, %.1f s: "
           "%s\n",
           property.c_str(), tier.c_str(), (unsigned long long)seed,
           (unsigned long long)evals, (unsigned long long)nontriv, now() - t0,
           confirmed ? "VIOLATED" : "held");
    rm_tree(g_scratch_root);
    return confirmed ? 1 : 0;
}
