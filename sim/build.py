#!/usr/bin/env python3
"""Generate a ninja file for the simulator and build the requested executables from /repo's working tree."""
import hashlib, json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM2_REPO", "/repo")
OUT = os.environ.get("MM2_OUT", os.path.join(VERIF, "build"))
LIB = f"{REPO}/src/library"
APP = f"{REPO}/src/app"

DEFS = ("-DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_CHRONO_NO_LIB -DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL "
        "-DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_NO_LIB -DBOOST_THREAD_VERSION=5 "
        "-DHAS_STRING_VIEW=1 -DONLY_C_LOCALE=1 -D_USE_MATH_DEFINES -DMM2_VERIF_SIM -DSIM_SHIMS=2")
INC = (f"-I{VERIF}/sim -I{VERIF}/sim/shim -I{APP}/include -I{LIB}/include "
       f"-include {VERIF}/sim/shim/boost_1_84_flat_map.hpp")
BASE = "-std=c++20 -g1 -fno-access-control -Wno-everything"
CORE_FLAGS = f"-std=c++20 -O2 -g1 -fno-threadsafe-statics -fno-builtin-malloc -Wall -I{VERIF}/sim"
INSTR = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
LIBS = ("-lboost_thread -lboost_chrono -lboost_serialization -lboost_program_options -ldate-tz "
        "-lexpat -lz -lbz2 -lpthread -lrt -ldl")

CORE = ["sched", "tsan_rt", "heap", "io", "main"]

EXES = {}


def exe(name, props, scen, lib, **kw):
    EXES[name] = dict(props=props, scen=scen, lib=lib)


from targets import TARGETS  # noqa: E402

for t in TARGETS:
    exe(**t)


def version_source():
    src = open(f"{LIB}/src/util/version.cpp.in").read()
    import re
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"project\([^)]*VERSION\s+([0-9.]+)", cm, re.S)
    ver = m.group(1) if m else "0.0.0"
    out = re.sub(r"@[A-Za-z0-9_]*VERSION[A-Za-z0-9_]*@", ver, src)
    out = re.sub(r"\$\{[A-Za-z0-9_]*VERSION[A-Za-z0-9_]*\}", ver, out)
    p = f"{OUT}/version.cpp"
    if not os.path.exists(p) or open(p).read() != out:
        open(p, "w").write(out)
    return p


def lib_path(s):
    if s == "@version":
        return f"{OUT}/version.cpp"
    if s.startswith("app/"):
        return f"{APP}/src/{s}"
    return f"{LIB}/src/{s}"


def oname(path):
    return "o/" + path.replace(VERIF + "/", "v_").replace(REPO + "/", "r_").replace("/", "_") + ".o"


def generate(names):
    os.makedirs(OUT, exist_ok=True)
    version_source()
    L = ["ninja_required_version = 1.8"]
    cc = "ccache clang++-18" if shutil.which("ccache") else "clang++-18"
    L.append(f"rule cxx\n command = {cc} $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in")
    L.append("rule link\n command = clang++-18 -rdynamic -Wl,--build-id=none -fuse-ld=lld $in -o $out $libs\n description = LINK $out")
    done = {}

    def obj(path, flags):
        o = oname(path)
        if o not in done:
            done[o] = 1
            L.append(f"build {o}: cxx {path}\n flags = {flags}")
        return o

    for n in names:
        e = EXES[n]
        objs = [obj(f"{VERIF}/sim/core/{c}.cpp", CORE_FLAGS) for c in CORE]
        for s in e["scen"]:
            objs.append(obj(f"{VERIF}/sim/scen/{s}.cpp", f"{BASE} {'-O0' if s.endswith('_srs') else '-O1'} {INSTR} {DEFS} {INC}"))
        for s in e["lib"]:
            opt = "-O0" if s.endswith("srs.cpp") or s.endswith("options.cpp") else "-O1"
            objs.append(obj(lib_path(s), f"{BASE} {opt} {INSTR} {DEFS} {INC}"))
        L.append(f"build bin/{n}: link {' '.join(objs)}\n libs = {LIBS}")
    p = f"{OUT}/build.ninja"
    new = "\n".join(L) + "\n"
    p = f"{OUT}/{'-'.join(names) if len(names) < 4 else 'all'}.ninja"
    if not os.path.exists(p) or open(p).read() != new:
        open(p, "w").write(new)
    return p


def forget_stale():
    """ninja compares times; sources that were replaced by older files need their objects forgotten."""
    stamp = f"{OUT}/sources.json"
    old = json.load(open(stamp)) if os.path.exists(stamp) else {}
    now, stale = {}, not old
    for root in (f"{REPO}/src", f"{VERIF}/sim"):
        for d, _, files in os.walk(root):
            for f in files:
                p = os.path.join(d, f)
                st = os.stat(p)
                o = old.get(p)
                if o and o[0] == st.st_mtime_ns and o[1] == st.st_size:
                    now[p] = o
                    continue
                h = hashlib.sha256(open(p, "rb").read()).hexdigest()
                now[p] = [st.st_mtime_ns, st.st_size, h]
                if o and o[2] != h and st.st_mtime_ns <= o[0] or not o and old:
                    stale = True
    if stale or any(p not in now for p in old):
        shutil.rmtree(f"{OUT}/o", ignore_errors=True)
    json.dump(now, open(stamp + ".new", "w"))
    os.replace(stamp + ".new", stamp)


def build(names, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    forget_stale()
    env = dict(os.environ)
    env.setdefault("CCACHE_DIR", f"{OUT}/ccache")
    env.setdefault("CCACHE_BASEDIR", "/")
    env["CCACHE_NOHASHDIR"] = "1"
    env["CCACHE_SLOPPINESS"] = "include_file_mtime,include_file_ctime,time_macros"
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_COMPILERCHECK"] = "content"
    env.pop("CCACHE_BASEDIR")
    p = generate(names)
    r = subprocess.run(["ninja", "-C", OUT, "-f", os.path.basename(p), "-j", str(os.cpu_count() or 8)], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "error:" in l or "undefined symbol" in l or "referenced by" in l]
        sys.stdout.write("\n".join(errs[:40]) + "\n" if errs else r.stdout[-6000:])
        raise SystemExit(2)
    if not quiet:
        sys.stdout.write(r.stdout[-1500:])


if __name__ == "__main__":
    build(sys.argv[1:] or sorted(EXES), quiet=False)
