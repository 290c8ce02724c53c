#!/usr/bin/env python3
"""Content-addressed incremental build of /repo's sources plus the simulation harnesses.

Every translation unit of the code under test is taken from /repo's *current working tree* (globbed, so that
added / moved / split files are followed).  Objects are cached under /verif/build by the hash of the flags and of
the content of every file under /repo or /verif they included, never by time stamps.
"""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"

COMMON = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread",
          "-DENABLE_ARUCO_TAGS=1", "-include", "memory", "-include", "fstream",
          "-I" + REPO + "/ov_core/src", "-I" + REPO + "/ov_init/src", "-I" + REPO + "/ov_msckf/src",
          "-I" + REPO + "/ov_eval/src", "-I" + VERIF + "/sim",
          "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
FLAVORS = {
    # plain: no instrumentation, ROS off (as the repository's own build)
    "plain": ["-DROS_AVAILABLE=0", "-O2"],
    # inst: every load/store/atomic is a call into OUR scheduler runtime (sim/rt_tsan.cpp); the ROS1 layer is compiled
    # against the stub headers in ros_stub/.
    "inst": ["-DROS_AVAILABLE=1", "-fsanitize=thread", "-DSIM_INST=1", "-isystem", VERIF + "/ros_stub"],
}
LIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_video", "-lopencv_calib3d",
        "-lopencv_highgui", "-lopencv_imgcodecs", "-lopencv_aruco", "-lceres", "-lglog",
        "-lboost_system", "-lboost_filesystem", "-lboost_thread", "-lboost_date_time", "-lpthread", "-ldl"]

MAIN_SKIP = ("test_", "run_", "ros1_", "ros2_")


def repo_sources(flavor, parts):
    out = []
    for part in parts:
        for f in sorted(glob.glob(os.path.join(REPO, part, "src", "**", "*.cpp"), recursive=True)):
            b = os.path.basename(f)
            rel = os.path.relpath(f, os.path.join(REPO, part, "src"))
            if os.sep not in rel and b != "dummy.cpp":
                continue  # programs with a main()
            if b.startswith(MAIN_SKIP) or b.startswith("ROS2"):
                continue
            if "ROS1" in b and flavor != "inst":
                continue
            if part == "ov_init" and b.startswith("SimulatorInit") and flavor == "inst":
                continue
            out.append(f)
    return out


def sha(b):
    return hashlib.sha256(b).hexdigest()


_content = {}


def file_hash(p):
    h = _content.get(p)
    if h is None:
        try:
            with open(p, "rb") as fh:
                h = sha(fh.read())
        except OSError:
            h = "missing"
        _content[p] = h
    return h


def tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")


def compile_one(src, flavor, extra):
    flags = COMMON + FLAVORS[flavor] + extra
    if src.startswith(VERIF + "/"):
        flags = ["-O1" if f == "-O2" else f for f in flags]
    if src.endswith(".nosan.cpp") and flavor == "inst":
        flags = [f for f in flags if f != "-fsanitize=thread"]
    cmdkey = sha(("\0".join([CXX] + flags + [src])).encode())
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    base = os.path.join(BUILD, "obj", cmdkey[:24])
    meta = base + ".meta"

    def key_of(deps):
        return sha("\n".join(d + " " + file_hash(d) for d in deps).encode())

    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            for deps in m["deps"]:
                k = key_of(deps)
                obj = base + "." + k[:24] + ".o"
                if os.path.exists(obj):
                    return obj, 0.0, None
        except (ValueError, KeyError):
            pass
    t0 = time.time()
    tmp_o = base + ".%d.tmp.o" % os.getpid()
    tmp_d = base + ".%d.tmp.d" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", tmp_d, "-c", src, "-o", tmp_o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        for f in (tmp_o, tmp_d):
            if os.path.exists(f):
                os.unlink(f)
        return None, time.time() - t0, src + "\n" + r.stdout[-4000:]
    txt = open(tmp_d).read().replace("\\\n", " ")
    deps = sorted({os.path.normpath(x) for x in txt.split(":", 1)[1].split() if tracked(os.path.normpath(x))})
    os.unlink(tmp_d)
    k = key_of(deps)
    obj = base + "." + k[:24] + ".o"
    os.replace(tmp_o, obj)
    hist = []
    if os.path.exists(meta):
        try:
            hist = json.load(open(meta))["deps"]
        except (ValueError, KeyError):
            hist = []
    if deps not in hist:
        hist = [deps] + hist[:5]
    tmp_m = meta + ".%d" % os.getpid()
    json.dump({"deps": hist}, open(tmp_m, "w"))
    os.replace(tmp_m, meta)
    # keep the cache small: at most 6 objects per translation unit
    olds = sorted(glob.glob(base + ".*.o"), key=os.path.getmtime)
    for o in olds[:-6]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return obj, time.time() - t0, None


HARNESS = {
    # name: (flavor, repo parts, harness sources)
    "h_vio": ("plain", ["ov_core", "ov_init", "ov_msckf"], ["h_vio.cpp", "interpose.cpp"]),
}


def load_harnesses():
    p = os.path.join(VERIF, "sim", "harness.json")
    if os.path.exists(p):
        HARNESS.clear()
        for k, v in json.load(open(p)).items():
            HARNESS[k] = tuple(v)


def build(names, quiet=False, jobs=None):
    load_harnesses()
    t0 = time.time()
    jobs = jobs or os.cpu_count() or 4
    work = {}
    for n in names:
        flavor, parts, srcs = HARNESS[n]
        for s in repo_sources(flavor, parts):
            work[(s, flavor)] = None
        for s in srcs:
            work[(os.path.join(VERIF, "sim", s), flavor)] = None
    order = sorted(work, key=lambda k: -os.path.getsize(k[0]))
    prio = ("Propagator", "DynamicInit", "UpdaterSLAM", "Simulator.cpp", "StateHelper", "VioManager", "FeatureInit", "h_")
    order.sort(key=lambda k: 0 if any(p in os.path.basename(k[0]) for p in prio) else 1)
    errs = []
    ncomp = 0
    with ThreadPoolExecutor(jobs) as ex:
        for k, (obj, dt, err) in zip(order, ex.map(lambda k: compile_one(k[0], k[1], []), order)):
            work[k] = obj
            if dt > 0:
                ncomp += 1
            if err:
                errs.append(err)
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        raise SystemExit(2)
    exes = {}
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    for n in names:
        flavor, parts, srcs = HARNESS[n]
        objs = [work[(s, flavor)] for s in repo_sources(flavor, parts)] + \
               [work[(os.path.join(VERIF, "sim", s), flavor)] for s in srcs]
        key = sha("\n".join(sorted(objs)).encode())[:20]
        exe = os.path.join(BUILD, "bin", n + "." + key)
        if not os.path.exists(exe):
            for o in glob.glob(os.path.join(BUILD, "bin", n + ".*")):
                if not o.endswith(".tmp"):
                    try:
                        os.unlink(o)
                    except OSError:
                        pass
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX, "-rdynamic", "-pthread", "-o", tmp] + objs + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-6000:] + "\n")
                raise SystemExit(2)
            os.replace(tmp, exe)
        exes[n] = exe
    if not quiet:
        sys.stderr.write("[build] %s: %d compiled, %.1fs\n" % (",".join(names), ncomp, time.time() - t0))
    return exes


if __name__ == "__main__":
    load_harnesses()
    print(build(sys.argv[1:] or sorted(HARNESS)))
