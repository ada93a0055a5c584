#!/usr/bin/env python3
"""Makes a planted bug from a definition directory and confirms it.

usage: mkseed.py DEF...      each DEF is a directory with edit.py (EDITS = [(file, old, new), ...],
PROPERTY, NEEDS, BREAKS) and demo.c or demo.sh.  A demo.c gets a demo.sh that builds and runs it:
KIND = "base" (no MPI), "asan" (sources under AddressSanitizer), "mpi<N>" (N processes).

The bug is kept in /verif/seeded/<name> only if it builds, passes the tests, and its demonstration
succeeds without it and fails with it.
"""
import glob, json, os, re, shutil, subprocess, sys

W = "/tmp/seed/work"
ENV = dict(os.environ, LC_ALL="C", CC="gcc", CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated",
           OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1")
HEAD = """#!/bin/bash
# exit 0: the property holds here; run with the built repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'find "$d" -delete' EXIT
"""
BASE = HEAD + """gcc -g -w -I"$repo/src" -I"$repo/_build" "$here/demo.c" -o "$d/demo" -L"$repo/_build/src" -lkvtree_base -Wl,-rpath,"$repo/_build/src" -lz -lpthread || exit 99
mkdir "$d/w" && cd "$d/w" || exit 99
timeout 120 "$d/demo" "$d/w" 2> "$d/err"; rc=$?
[ $rc = 0 ] || { echo "demo ended with $rc"; tail -5 "$d/err"; exit 1; }
"""
ASAN = HEAD + """gcc -g -w -fsanitize=address -I"$repo/src" -I"$repo/_build" "$here/demo.c" "$repo"/src/kvtree.c "$repo"/src/kvtree_io.c "$repo"/src/kvtree_err.c "$repo"/src/kvtree_helpers.c "$repo"/src/kvtree_util.c -o "$d/demo" -lz -lpthread || exit 99
mkdir "$d/w" && cd "$d/w" || exit 99
timeout 120 "$d/demo" "$d/w" 2> "$d/err"; rc=$?
[ $rc = 0 ] || { echo "demo ended with $rc"; grep -m3 -E 'ERROR|SUMMARY|demo' "$d/err"; exit 1; }
"""
MPI = HEAD + """export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
mpicc -g -w -I"$repo/src" -I"$repo/_build" "$here/demo.c" -o "$d/demo" -L"$repo/_build/src" -lkvtree -Wl,-rpath,"$repo/_build/src" -lz || exit 99
mkdir "$d/w" && cd "$d/w" || exit 99
timeout -k 5 %(T)d mpirun -np %(N)d "$d/demo" "$d/w" > "$d/out" 2> "$d/err"; rc=$?
[ $rc = 0 ] || { echo "demo ended with $rc"; grep -h -m5 demo: "$d/out" "$d/err"; exit 1; }
"""

def sh(cmd, **k):
    return subprocess.run(cmd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])

def build():
    if not os.path.exists(W + "/_build/build.ninja"):
        r = sh(["cmake", "-S", ".", "-B", "_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DMPI=ON", "-DENABLE_TESTS=ON"], cwd=W)
        if r.returncode: return r.stdout
    r = sh(["ninja", "-C", "_build"], cwd=W)
    return r.stdout if r.returncode else None

def tests():
    r = sh(["ctest", "--test-dir", "_build", "--timeout", "60"], cwd=W)
    # those that fail without any change, too, are not among the stable ones
    bad = [l for l in r.stdout.splitlines() if re.search(r"\*\*\*(Failed|Timeout|Exception)|\(Failed\)|\(Timeout\)", l)]
    return bad

def demo(d):
    try:
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=W, timeout=300)
        return r.returncode, r.stdout.strip()
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def base_lines(f):
    out = subprocess.check_output(["git", "-C", "/repo", "show", "a9812d8:" + f], text=True)
    return set(out.splitlines())

def main():
    fresh(); e = build()
    if e: sys.exit("unchanged tree does not build: " + e[-2000:])
    ok_tests = tests()
    for d in sys.argv[1:]:
        name = os.path.basename(d.rstrip("/"))
        ns = {}
        exec(open(d + "/edit.py").read(), ns)
        out = "/verif/seeded/" + name
        stage = "/tmp/seed/stage-" + name
        shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
        for f in os.listdir(d):
            if f not in ("edit.py",): shutil.copy(os.path.join(d, f), stage)
        k = ns.get("KIND", "base")
        if not os.path.exists(stage + "/demo.sh"):
            t = BASE if k == "base" else ASAN if k == "asan" else MPI % dict(N=int(k[3:]), T=ns.get("TIME", 60))
            open(stage + "/demo.sh", "w").write(t)
        os.chmod(stage + "/demo.sh", 0o755)
        sh(["git", "checkout", "-q", "--", "."], cwd=W); e = build()
        rc0, o0 = demo(stage)
        why = None
        if rc0: why = f"demo fails on the unchanged tree ({rc0}): {o0[-600:]}"
        else:
            for f, old, new in ns["EDITS"]:
                s = open(f"{W}/{f}").read()
                if s.count(old) != 1: why = f"{s.count(old)} matches in {f} of {old[:60]!r}"; break
                open(f"{W}/{f}", "w").write(s.replace(old, new))
        if not why:
            diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
            cur = None; orig = 0
            for l in diff.splitlines():
                if l.startswith("--- a/"): cur = l[6:]; bl = base_lines(cur)
                elif l.startswith("-") and not l.startswith("---"):
                    if l[1:] in bl: orig += 1
            if not orig: print(f"{name}: note: no original line is removed")
            e = build()
            if e: why = "does not build: " + e[-800:]
        if not why:
            bad = [x for x in tests() if x not in ok_tests]
            if bad: why = "tests fail: " + "; ".join(bad)
        if not why:
            rcs = [demo(stage) for _ in range(2)]
            if any(r[0] == 0 for r in rcs): why = f"demo does not notice it {rcs}"
        if why:
            print(f"{name}: NOT KEPT: {why}"); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(stage, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        print(f"{name}: kept; demo says: {rcs[0][1][:200]!r}")
        shutil.rmtree(stage, ignore_errors=True)
    shutil.rmtree(W, ignore_errors=True)

main()
