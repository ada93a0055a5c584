"""Build and run machinery shared by check.py and setup: compiles /repo's current
sources together with the harness into /verif/.build, runs worker processes and
collects what their monitors saw."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OUT = os.environ.get("VERIF_OUT", VERIF)       # where evidence/ and replays/ go
CORES = 8

# sources that are programs of their own, and the MPI part
PROGRAMS = {"kvtree_print.c", "tv_data_display.c"}


class BuildError(Exception):
    pass


# what gcc only warns about
LENIENT = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]
COMMON = ["-g", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FLAVORS = {
    # name: (cc, cxx, flags, lock define)
    "asan": ("clang", "clang++", ASAN, "FLOCK"),
    "asan_fcntl": ("clang", "clang++", ASAN, "FCNTL"),
    "gasan": ("gcc", "g++", ASAN, "FLOCK"),
    "plain": ("gcc", "g++", ["-O2"], "FLOCK"),
    "plain_fcntl": ("gcc", "g++", ["-O2"], "FCNTL"),
    "tsan": ("clang", "clang++", ["-O1", "-fsanitize=thread"], "FLOCK"),
}
# programs: harness sources, whether the monitor wraps libc, whether the library's
# MPI part is compiled in and against which mpi.h
PROGS = {
    "core": dict(src=["vh", "wrap", "core"], wrap=True, mpi=None),
    "file": dict(src=["vh", "wrap", "file"], wrap=True, mpi=None),
    "lock": dict(src=["vh", "wrap", "lock"], wrap=True, mpi=None),
    "thr": dict(src=["vh", "thr"], wrap=False, mpi=None),
    "cli": dict(src=[], wrap=False, mpi=None),
    "sim": dict(src=["vh", "wrap", "mpisim/sim", "mpiwork", "simmain"], wrap=True, mpi="sim"),
    "real": dict(src=["vh", "wrap", "mpiwork", "realmain"], wrap=True, mpi="real"),
}


def lib_sources(mpi):
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, "*.c"))):
        b = os.path.basename(f)
        if b in PROGRAMS:
            continue
        if not mpi and "mpi" in b:
            continue
        out.append(f)
    return out


_tree_hash = None


def tree_hash():
    """over everything a build depends on"""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        files = glob.glob(os.path.join(SRC, "**", "*.[ch]"), recursive=True)
        files += glob.glob(os.path.join(HARNESS, "**", "*"), recursive=True)
        files += [os.path.abspath(__file__)]
        for f in sorted(files):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0")
                h.update(open(f, "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


_real_mpi = None


def real_mpi_flags():
    global _real_mpi
    if _real_mpi is None:
        c = sh(["mpicc", "--showme:compile"]).split()
        l = sh(["mpicc", "--showme:link"]).split()
        _real_mpi = (c, l)
    return _real_mpi


def build(flavor, prog):
    """returns the path of the executable"""
    d = os.path.join(BUILD, flavor, prog)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "x_" + prog)
    stamp = os.path.join(d, "stamp")
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash()
        if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(exe):
            return exe
        if os.path.exists(stamp):
            os.unlink(stamp)
        cc, cxx, flags, lock = FLAVORS[flavor]
        p = PROGS[prog]
        with open(os.path.join(d, "config.h"), "w") as f:
            f.write("#define HAVE_BYTESWAP_H\n#define KVTREE_FILE_LOCK_USE_%s\n#define KVTREE_TEST_BASE \"/dev/shm\"\n" % lock)
        inc = ["-I" + d, "-I" + SRC]
        link = []
        if p["mpi"] == "sim":
            inc = ["-I" + d, "-I" + os.path.join(HARNESS, "mpisim"), "-I" + SRC]
        elif p["mpi"] == "real":
            c, link = real_mpi_flags()
            inc += c + ["-DOMPI_SKIP_MPICXX", "-DMPICH_SKIP_MPICXX"]
        inc += ["-DKVTREE_VERIF"]
        if flavor.startswith("plain"):
            inc += ["-DVERIF_PLAIN"]
        jobs, lib_o, har_o = [], [], []
        srcs = lib_sources(p["mpi"] is not None)
        if prog == "cli":
            srcs = srcs + [os.path.join(SRC, "kvtree_print.c")]
        for s in srcs:
            o = os.path.join(d, "l_" + os.path.basename(s)[:-2] + ".o")
            lib_o.append(o)
            jobs.append((["%s" % cc, "-w"] + (LENIENT if cc == "clang" else []) + COMMON + flags + inc + ["-c", s, "-o", o], o, p["wrap"]))
        for s in p["src"]:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            har_o.append(o)
            jobs.append(([cxx, "-std=c++17", "-Wall"] + COMMON + flags + inc + ["-I" + HARNESS, "-c", os.path.join(HARNESS, s + ".cpp"), "-o", o], o, False))

        def one(j):
            sh(j[0])
            if j[2]:
                sh(["objcopy", "--redefine-syms=" + os.path.join(HARNESS, "redefine.syms"), j[1]])

        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(one, jobs))
        ld = cxx if p["src"] else cc
        sh([ld] + COMMON + flags + har_o + lib_o + link + ["-lz", "-lpthread", "-lm", "-o", exe])
        for o in lib_o + har_o:
            os.unlink(o)
        with open(stamp, "w") as f:
            f.write(want)
    return exe


LOCALES = ["de_DE", "tr_TR", "ps_AF"]       # decimal comma, other letter cases, decimal sign of several bytes


def locales():
    """directory with the locales the workloads run in, besides C; None where they cannot be made"""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        done = os.path.join(d, "done")
        if not os.path.exists(done):
            ok = True
            ps = []
            try:
                for l in LOCALES:
                    ps.append(subprocess.Popen(["localedef", "-c", "--no-archive", "-i", l, "-f", "UTF-8", os.path.join(d, l + ".utf8")],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL))
            except OSError:
                ok = False
            for q in ps:
                q.wait()
            ok = ok and all(os.path.exists(os.path.join(d, l + ".utf8", "LC_NUMERIC")) for l in LOCALES)
            with open(done, "w") as f:
                f.write("1" if ok else "0")
        return d if open(done).read() == "1" else None


def build_many(pairs):
    pairs = sorted(set(pairs))
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(pairs, ex.map(lambda fp: build(*fp), pairs)))
