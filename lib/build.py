"""Builds the harnesses from /repo's working tree (nothing is written in /repo)."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only to try planted changes side by side
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"

WRAP = ["clset_match", "clset_action", "clset_update", "pa_build", "pa_best_action",
        "pa_rand_action", "ea", "cl_init", "cl_copy", "cl_free", "cl_crossover", "cl_mutate"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def sources():
    s = sorted(glob.glob(REPO + "/xcsf/*.c"))
    s = [f for f in s if os.path.basename(f) != "main.c"]
    return s


def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/xcsf/*.[ch]*")) + sorted(extra)
    for f in fs:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


# /repo's third-party submodules are empty here: headers and libraries are the
# installed ones, found the way /opt/vp/build.sh finds them
INC = ["-I/opt/vp/cmake/include", "-I" + REPO + "/xcsf"]
LIBS = ["-ldSFMT-19937", "-lcjson", "-lm"]
CFLAGS = ["-std=gnu11", "-DDSFMT_MEXP=19937"] + INC
PAR = ["-fopenmp", "-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE"]


def lib_objects(tag="asan", flags=("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"), parallel=True):
    key = tree_hash()
    d = os.path.join(BUILD, "obj-%s-%s" % (tag, key))
    done = os.path.join(d, ".done")
    objs = [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in sources()]
    if os.path.exists(done):
        return objs
    for old in glob.glob(os.path.join(BUILD, "obj-%s-*" % tag)):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    fl = CFLAGS + list(flags) + (PAR if parallel else ["-Wno-unknown-pragmas"])

    def one(p):
        run(["gcc", "-w"] + fl + ["-c", p[0], "-o", p[1]])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, zip(sources(), objs)))
    open(done, "w").close()
    return objs


def harness(name, srcs, wrap=WRAP, tag="asan", flags=("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"), parallel=True):
    objs = lib_objects(tag, flags, parallel)
    hs = [os.path.join(VERIF, "harness", s) for s in srcs] + glob.glob(VERIF + "/harness/*.h")
    out = os.path.join(BUILD, "%s-%s-%s" % (name, tag, tree_hash(hs)))
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, tag))):
        os.unlink(old)
    cmd = ["gcc", "-w"] + CFLAGS + list(flags) + (PAR if parallel else []) + \
        [os.path.join(VERIF, "harness", s) for s in srcs] + objs + \
        ["-Wl,--wrap=" + w for w in wrap] + LIBS + ["-o", out + ".tmp%d" % os.getpid()]
    run(cmd)
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out


def java():
    d = os.path.join(BUILD, "java")
    src = os.path.join(VERIF, "spec", "java", "Dbl.java")
    out = os.path.join(d, "Dbl.class")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        run(["javac", "-cp", TLAJAR, "-d", d, src])
    return d


def pymodule():
    """The Python extension, built from the working tree."""
    import sysconfig
    py = "/opt/vp/venv/bin/python"
    suffix = subprocess.check_output([py, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
    inc = subprocess.check_output([py, "-c", "import sysconfig;print(sysconfig.get_path('include'))"], text=True).strip()
    pys = glob.glob(REPO + "/xcsf/*.py") + glob.glob(REPO + "/xcsf/utils/*.py")
    key = tree_hash(pys)
    d = os.path.join(BUILD, "py-" + key)
    if os.path.exists(os.path.join(d, ".done")):
        return d
    for old in glob.glob(os.path.join(BUILD, "py-*")):
        shutil.rmtree(old, ignore_errors=True)
    pk = os.path.join(d, "xcsf")
    os.makedirs(pk)
    fl = ("-O1", "-fPIC")
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(lib_objects, "pic", fl, True)
        cpp = os.path.join(d, "pybind_wrapper.o")
        b = ex.submit(run, ["g++", "-w", "-std=c++17", "-O0", "-fPIC", "-fvisibility=hidden", "-fopenmp", "-DPARALLEL",
             "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE", "-DDSFMT_MEXP=19937",
             "-I" + inc] + INC + ["-c", REPO + "/xcsf/pybind_wrapper.cpp", "-o", cpp])
        objs = a.result()
        b.result()
    run(["g++", "-shared", "-fopenmp", "-o", os.path.join(pk, "xcsf" + suffix), cpp] + objs + LIBS)
    for f in glob.glob(REPO + "/xcsf/*.py"):
        shutil.copy(f, pk)
    os.makedirs(os.path.join(pk, "utils"), exist_ok=True)
    for f in glob.glob(REPO + "/xcsf/utils/*.py"):
        shutil.copy(f, os.path.join(pk, "utils"))
    open(os.path.join(d, ".done"), "w").close()
    return d


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    java()
    print(harness("xdrive", ["xdrive.c", "xtrace.c"]))
