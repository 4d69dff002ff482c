#!/usr/bin/env python3
"""Build the check of one property from /repo's working tree and run it.

    run.py P07 [--tier quick|thorough] [--seed N] [--law NAME] [--scale X]
    run.py P07 --replay replays/P07-law-key.txt
    run.py --setup            build every check

The library sources are taken from /repo (USML_REPO overrides it for
experiments), compiled in /verif/build, never inside /repo.
"""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get("USML_REPO", "/repo"))
MODULES = ["beampatterns", "biverbs", "eigenrays", "eigenverbs", "managed",
           "netcdf", "ocean", "platforms", "rvbts", "sensors", "threads",
           "transmit", "types", "ublas", "waveq3d", "wavegen"]

VARIANTS = {
    # numerical work: fast, but IEEE semantics (the project's own -Ofast
    # build drops NaN handling, which the oracles need)
    "opt": ["-O2", "-DNDEBUG"],
    # memory errors, uBLAS index checks, libstdc++ container assertions
    "asan": ["-O1", "-DBOOST_UBLAS_TYPE_CHECK=0", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address", "-fno-omit-frame-pointer"],
    # data races
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread"],
}
# property -> variants its laws are built with
from checks.config import PROPERTIES  # noqa: E402


def sh_quote(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_ninja(bdir, variant, props):
    flags = VARIANTS[variant]
    inc = os.path.join(bdir, "inc")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "usml")
    if os.path.islink(link) and os.readlink(link) != REPO:
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(REPO, link)
    # -isystem is not used: header changes must trigger a rebuild
    cx = ["-std=gnu++17", "-g1", "-w", "-fPIC", "-I" + inc,
          "-I" + os.path.join(HERE, "checks")] + flags
    san = [f for f in flags if f.startswith("-fsanitize")]
    out = ["cxxflags = " + " ".join(cx),
           "ldflags = " + " ".join(san),
           "libs = -lnetcdf_c++4 -lnetcdf -lboost_filesystem -lboost_system "
           "-lpthread",
           "rule cxx",
           "  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar crs $out $in",
           "rule link",
           "  command = g++ $ldflags $in -o $out $libs"]
    objs = []
    for m in MODULES:
        for src in sorted(glob.glob(os.path.join(REPO, m, "*.cc"))):
            o = "lib/%s_%s.o" % (m, os.path.basename(src)[:-3])
            out.append("build %s: cxx %s" % (o, sh_quote(
                os.path.join(inc, "usml", m, os.path.basename(src)))))
            objs.append(o)
    out.append("build libusml.a: ar " + " ".join(objs))
    main = os.path.join(HERE, "checks", "pbt_main.cc")
    out.append("build pbt_main.o: cxx " + sh_quote(main))
    for p in props:
        po = []
        for src in sorted(glob.glob(os.path.join(HERE, "checks", p + "_*.cc"))):
            o = "chk/%s.o" % os.path.basename(src)[:-3]
            out.append("build %s: cxx %s" % (o, sh_quote(src)))
            po.append(o)
        # the helper of a check in Python has its own main()
        out.append("build bin/%s: link %s%s libusml.a" %
                   (p, "" if PROPERTIES[p].get("python") else "pbt_main.o ",
                    " ".join(po)))
    text = "\n".join(out) + "\n"
    path = os.path.join(bdir, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def build(variant, targets):
    bdir = os.path.join(os.environ.get("USML_BUILD",
                                       os.path.join(HERE, "build")), variant)
    os.makedirs(bdir, exist_ok=True)
    props = [p for p in sorted(PROPERTIES) if PROPERTIES[p]["variant"] == variant]
    write_ninja(bdir, variant, props)
    r = subprocess.run(["ninja", "-C", bdir] + ["bin/" + t for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("the check could not be built from", REPO)
        sys.exit(2)
    return bdir


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for v in VARIANTS:
            ps = [p for p in sorted(PROPERTIES) if PROPERTIES[p]["variant"] == v]
            if ps:
                build(v, ps)
        return 0
    prop = args.pop(0)
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"),
           "--seed": os.environ.get("VERIF_SEED", "1")}
    while args:
        k = args.pop(0)
        opt[k] = args.pop(0)
    bdir = build(PROPERTIES[prop]["variant"], [prop])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    binary = os.path.join(bdir, "bin", prop)
    cmd = [binary, "--property", prop,
           "--known", os.path.join(HERE, "known_findings.txt"),
           "--replay-dir", os.path.join(HERE, "replays")]
    if "--replay" not in opt and "--law" not in opt and "--scale" not in opt \
            and "USML_REPO" not in os.environ:
        cmd += ["--evidence", os.path.join(HERE, "evidence", prop + ".json")]
    if "--replay" in opt:
        opt["--replay"] = os.path.abspath(opt["--replay"])
    for k, v in opt.items():
        cmd += [k, v]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:" \
        "detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:detect_deadlocks=0"
    env.pop("RC_PARAMS", None)
    if PROPERTIES[prop].get("python"):
        cmd[:3] = ["/usr/bin/python3", os.path.join(
            HERE, "checks", PROPERTIES[prop]["python"])]
        env.update(P28_WRITER=binary, USML_SOURCE=REPO, OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    sys.stdout.flush()
    pre = PROPERTIES[prop].get("wrap", [])
    return subprocess.run(pre + cmd, env=env, cwd=HERE).returncode


if __name__ == "__main__":
    sys.exit(main())
