"""Property-based testing for the Python half of the library.

Same idea as pbt.h: a case draws its values from a list of choices, so any
failing case is shrunk by making that list shorter and smaller, and the list
is the replay file.
"""
import hashlib
import json
import math
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

TOP = 1 << 40


class Failure(Exception):
    def __init__(self, key, text):
        super().__init__(key + ": " + text)
        self.key, self.text = key, text


class Discard(Exception):
    pass


class Case:
    """One generated case."""

    def __init__(self, rng=None, choices=None):
        self.rng, self.given = rng, choices
        self.choices, self.notes, self.labels = [], [], []
        self.asserts, self.is_nontrivial = 0, False
        self.dir = None

    def _draw(self, top):
        if self.given is not None:
            n = len(self.choices)
            v = self.given[n] if n < len(self.given) else 0
            v = min(v, top)
        else:
            v = self.rng.randrange(top + 1)
        self.choices.append(v)
        return v

    def integer(self, lo, hi):
        return lo + self._draw(hi - lo)

    def flip(self, p=0.5):
        return self._draw(999) >= 1000 - int(1000 * p)

    def pick(self, items):
        return items[self._draw(len(items) - 1)]

    def real(self, lo, hi, special=()):
        if special and self._draw(4) == 1:
            return self.pick(list(special))
        return lo + (hi - lo) * self._draw(TOP) / TOP

    def logreal(self, lo, hi):
        return math.exp(self.real(math.log(lo), math.log(hi)))

    def note(self, name, value):
        self.notes.append("%s=%s" % (name, "%.10g" % value if isinstance(value, float) else value))

    def label(self, text):
        self.labels.append(text)

    def nontrivial(self, yes):
        self.is_nontrivial = bool(yes)

    def discard(self):
        raise Discard()

    def check(self, ok, key, text=""):
        self.asserts += 1
        if not ok:
            raise Failure(key, str(text))

    def equal(self, got, want, key, text=""):
        self.check(got == want, key, "%s got %r expected %r" % (text, got, want))

    def close(self, got, want, tol, key, text=""):
        self.check(abs(got - want) <= tol, key,
                   "%s got %.15g expected %.15g (tolerance %.6g)" % (text, got, want, tol))


LAWS = []


def law(quick, thorough, rule):
    def add(f):
        LAWS.append({"name": f.__name__, "f": f, "quick": quick, "thorough": thorough, "rule": rule})
        return f
    return add


def run_case(one, case, scratch):
    """None, or the (key, text) of a failure"""
    case.dir = tempfile.mkdtemp(dir=scratch)

    def late(*_):
        raise Failure("hang", "no answer within 60 s")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        one["f"](case)
    except Discard:
        return "discard"
    except Failure as e:
        return e.key, e.text
    except Exception as e:  # the code under test may not throw
        where = traceback.extract_tb(e.__traceback__)[-1]
        return "exception", "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(case.dir, ignore_errors=True)
    return None


def case_rng(seed, name, index):
    return random.Random("%d/%s/%d" % (seed, name, index))


def worker(job):
    one, seed, indexes, scratch, deadline = LAWS[job[0]], job[1], job[2], job[3], job[4]
    out = {"evals": 0, "discards": 0, "asserts": 0, "hashes": [], "labels": {}, "samples": [], "fails": [], "skipped": 0}
    for n in indexes:
        if time.time() > deadline:
            out["skipped"] += 1
            continue
        case = Case(rng=case_rng(seed, one["name"], n))
        r = run_case(one, case, scratch)
        out["evals"] += 1
        out["asserts"] += case.asserts
        if r == "discard":
            out["discards"] += 1
            continue
        for x in case.labels:
            out["labels"][x] = out["labels"].get(x, 0) + 1
        if case.is_nontrivial and r is None:
            out["hashes"].append(hashlib.md5(repr(case.choices).encode()).hexdigest()[:16])
            if len(out["samples"]) < 3:
                out["samples"].append(" ".join(case.notes)[:400])
        if r is not None:
            out["fails"].append((n, r[0], r[1], case.choices))
            if len(out["fails"]) > 3:
                break
    return job[0], out


def shrink(one, key, choices, scratch, budget=60):
    end = time.time() + budget

    def fails(c):
        case = Case(choices=c)
        r = run_case(one, case, scratch)
        return case if isinstance(r, tuple) and r[0] == key else None
    best = list(choices)
    size = 16
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(best) and time.time() < end:
            c = best[:i] + best[i + size:]
            if fails(c):
                best = c
            else:
                i += size
        size //= 2
    better = True
    while better and time.time() < end:
        better = False
        for i in range(len(best)):
            for v in (0, best[i] // 2, best[i] - 1):
                if time.time() > end or not 0 <= v < best[i]:
                    continue
                c = best[:i] + [v] + best[i + 1:]
                if fails(c):
                    best, better = c, True
                    break
    return best


def main(prop):
    opt = {"--tier": "quick", "--seed": "1", "--scale": "1", "--scratch": "/tmp", "--replay-dir": ".", "--known": "",
           "--evidence": "", "--replay": "", "--law": "", "--jobs": "0"}
    args = sys.argv[1:]
    for i in range(0, len(args) - 1, 2):
        opt[args[i]] = args[i + 1]
    t0 = time.time()
    seed, tier = int(opt["--seed"]), opt["--tier"]
    scratch = tempfile.mkdtemp(prefix="verif-pbt-", dir=opt["--scratch"])
    try:
        return run(prop, opt, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path, scratch):
    head = {}
    for line in open(path):
        k, _, v = line.strip().partition(" ")
        head[k] = v
    one = [x for x in LAWS if x["name"] == head["law"]][0]
    case = Case(choices=[int(x) for x in head["choices"].split()])
    r = run_case(one, case, scratch)
    if isinstance(r, tuple):
        print("  %s/%s: %s" % (one["name"], r[0], r[1]))
        print("  input: " + " ".join(case.notes))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay held")
    return 0


def run(prop, opt, seed, tier, scratch, t0):
    if opt["--replay"]:
        return replay(prop, opt["--replay"], scratch)
    known = {}
    if opt["--known"] and os.path.exists(opt["--known"]):
        for line in open(opt["--known"]):
            w = line.strip().split(" ", 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop:
                known[w[2][4:]] = w[3]
    limit = 700 if tier == "quick" else 780
    jobs = int(opt["--jobs"]) or os.cpu_count() or 1
    work, chosen = [], [i for i, x in enumerate(LAWS) if opt["--law"] in ("", x["name"])]
    for i in chosen:
        n = max(1, int(LAWS[i][tier if tier == "thorough" else "quick"] * float(opt["--scale"])))
        step = max(1, min(50, n // (jobs * 4)))
        work += [(i, seed, range(k, min(n, k + step)), scratch, t0 + limit) for k in range(0, n, step)]
    stats = {i: {"evals": 0, "discards": 0, "asserts": 0, "hashes": set(), "labels": {}, "samples": [], "fails": [],
                 "skipped": 0} for i in chosen}
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for i, out in pool.imap(worker, work):
            st = stats[i]
            for k in ("evals", "discards", "asserts", "skipped"):
                st[k] += out[k]
            st["hashes"].update(out["hashes"])
            st["samples"] = (st["samples"] + out["samples"])[:3]
            st["fails"] += out["fails"]
            for x, c in out["labels"].items():
                st["labels"][x] = st["labels"].get(x, 0) + c
    details, bad, seen = [], False, {}
    for i in chosen:
        one = LAWS[i]
        for n, key, text, choices in stats[i]["fails"]:
            name = one["name"] + "/" + key
            seen.setdefault(name, (i, n, choices, text))
    for name, (i, n, choices, text) in sorted(seen.items()):
        one, key = LAWS[i], name.split("/", 1)[1]
        # a failure that does not repeat is not reported
        again = [run_case(one, Case(choices=choices), scratch) for _ in range(3)]
        if not all(isinstance(r, tuple) and r[0] == key for r in again):
            print("  unconfirmed: %s case %d %s" % (name, n, text))
            continue
        if name in known:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, name, known[name]))
            continue
        best = shrink(one, key, choices, scratch)
        case = Case(choices=best)
        r = run_case(one, case, scratch)
        os.makedirs(opt["--replay-dir"], exist_ok=True)
        path = os.path.join(opt["--replay-dir"], "%s-%s-%s.txt" % (prop, one["name"], key))
        with open(path, "w") as f:
            f.write("property %s\nlaw %s\nkey %s\nseed %d\nindex %d\nchoices %s\nmessage %s\ninput %s\n" % (
                prop, one["name"], key, seed, n, " ".join(map(str, best)), r[1], " ".join(case.notes)))
        print("  law %s case %d" % (name, n))
        print("    " + r[1])
        print("    input: " + " ".join(case.notes))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        details.append(name + ": " + r[1])
        bad = True
    total = distinct = skipped = 0
    for i in chosen:
        st = stats[i]
        total, distinct, skipped = total + st["evals"], distinct + len(st["hashes"]), skipped + st["skipped"]
        print("%-28s %8d cases %8d nontrivial %8d discarded %10d assertions" % (
            LAWS[i]["name"], st["evals"], len(st["hashes"]), st["discards"], st["asserts"]))
    print("%s %s seed %d: %d cases, %d distinct nontrivial, %.1f s: %s" % (
        prop, tier, seed, total, distinct, time.time() - t0, "VIOLATED" if bad else "held"))
    if opt["--evidence"]:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": total, "distinct_nontrivial": distinct,
                           "rule": " | ".join(LAWS[i]["name"] + ": " + LAWS[i]["rule"] for i in chosen),
                           "samples": [LAWS[i]["name"] + ": " + s for i in chosen for s in stats[i]["samples"]],
                           "laws": {LAWS[i]["name"]: {"cases": stats[i]["evals"], "distinct_nontrivial": len(stats[i]["hashes"]),
                                                      "discarded": stats[i]["discards"], "assertions": stats[i]["asserts"],
                                                      "classes": stats[i]["labels"]} for i in chosen},
                           "cases_not_run": skipped},
              "wall_s": round(time.time() - t0, 2), "violation_details": details, "violations": len(details)}
        with open(opt["--evidence"], "w") as f:
            json.dump(ev, f, indent=1)
    if not total:
        return 2
    return 1 if bad else 0
