#!/usr/bin/env python3
"""Build wreport's sources from /repo's working tree together with a harness.

  build.py FLAVOUR TARGET   ->  prints the path of the executable / module

FLAVOUR: asan (ASan+UBSan), tsan, memcheck (valgrind), plain
Objects are cached in /verif/build by a hash of (compiler flags, preprocessor
closure), so what is linked always corresponds to the current sources.
"""
import concurrent.futures, hashlib, os, re, subprocess, sys, shlex, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CXX = "clang++"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-fPIC"]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=all",
             "-fsanitize-ignorelist=" + os.path.join(VERIF, "tools", "ignorelist.txt")],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    # Run under valgrind; not optimised, since optimised code can test
    # undefined values whose outcome does not matter
    "memcheck": ["-O0"],
}

class BuildError(Exception):
    pass

def genconf():
    """Generate what meson would generate: config.h and wreport/version.h"""
    txt = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"version:\s*'([0-9.]+)'", txt)
    version = m.group(1) if m else "0.0"
    major, minor = (version.split(".") + ["0"])[:2]
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "wreport"), exist_ok=True)
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            with tempfile.NamedTemporaryFile("w", dir=os.path.dirname(p), delete=False) as fd:
                fd.write(s)
            os.replace(fd.name, p)
    put(os.path.join(gen, "config.h"),
        "#pragma once\n#define HAS_GETOPT_LONG\n#define HAVE_LUA\n"
        f"#define PACKAGE_VERSION \"{version}\"\n#define TABLE_DIR \"/nonexistent/wreport\"\n")
    put(os.path.join(gen, "wreport", "version.h"),
        f"#pragma once\n#define WREPORT_VERSION_MAJOR {major}\n#define WREPORT_VERSION_MINOR {minor}\n")
    return gen

def lib_sources():
    res = []
    base = os.path.join(REPO, "wreport")
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith((".cc", ".cpp", ".cxx")): continue
            if f.endswith(("-test.cc", "-bench.cc", "-main.cc")): continue
            if f in ("tests.cc", "testrunner.cc", "benchmark.cc", "test-utils-lua.cc"): continue
            res.append(os.path.join(d, f))
    return res

def pkg(*a):
    return shlex.split(subprocess.run(["pkg-config", *a], capture_output=True, text=True, check=True).stdout)

def compile_one(src, flags, outdir):
    """Compile src; cached on the hash of its preprocessed text + flags"""
    pp = subprocess.run([CXX, *flags, "-E", "-o", "-", src], capture_output=True)
    if pp.returncode != 0:
        raise BuildError(f"preprocessing {src}:\n{pp.stderr.decode(errors='replace')}")
    h = hashlib.sha256(" ".join(flags).encode() + b"\0" + src.encode() + b"\0" + pp.stdout).hexdigest()[:32]
    obj = os.path.join(outdir, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(obj):
        tmp = obj + f".tmp{os.getpid()}"
        r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True)
        if r.returncode != 0:
            raise BuildError(f"compiling {src}:\n{r.stderr.decode(errors='replace')}")
        os.replace(tmp, obj)
    return obj

def flags_for(flavour, extra_inc=()):
    gen = genconf()
    return (COMMON + FLAVOURS[flavour] +
            ["-I" + gen, "-I" + REPO, "-I" + os.path.join(REPO, "wreport"), "-I" + os.path.join(VERIF, "harness"), "-DWREPORT_VERIF=1"]
            + list(extra_inc) + pkg("--cflags", "lua5.3"))

def build(flavour, target, harness=None, sources=None, shared=False, extra_inc=(), extra_link=(), with_lib=True, src_flags=None):
    outdir = os.path.join(BUILD, flavour)
    os.makedirs(outdir, exist_ok=True)
    flags = flags_for(flavour, extra_inc)
    srcs = (lib_sources() if with_lib else []) + list(sources or [])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags + list((src_flags or {}).get(s, ())), outdir), srcs))
    link = FLAVOURS[flavour] + (["-shared"] if shared else []) + ["-pthread"]
    h = hashlib.sha256("\0".join(objs + link + list(extra_link)).encode()).hexdigest()[:24]
    exe = os.path.join(outdir, f"{target}-{h}" + (".so" if shared else ""))
    if not os.path.exists(exe):
        tmp = exe + f".tmp{os.getpid()}"
        r = subprocess.run([CXX, *link, *objs, "-o", tmp, *extra_link, *pkg("--libs", "lua5.3"), "-lm"], capture_output=True)
        if r.returncode != 0:
            raise BuildError(f"linking {target}:\n{r.stderr.decode(errors='replace')}")
        os.replace(tmp, exe)
    return exe

def prune(keep_hours=12):
    import time
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            if time.time() - os.path.getmtime(p) > keep_hours * 3600:
                os.unlink(p)

def build_pydriver(flavour="asan"):
    """The driver, with a Python interpreter and the bindings inside"""
    pyinc = shlex.split(subprocess.run(["python3-config", "--includes"], capture_output=True, text=True, check=True).stdout)
    pylink = shlex.split(subprocess.run(["python3-config", "--embed", "--ldflags"], capture_output=True, text=True, check=True).stdout)
    base = os.path.join(REPO, "python")
    srcs = []
    for d, dirs, files in os.walk(base):
        dirs.sort()
        srcs += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cc")]
    h = [f for f in harness_sources() if not os.path.basename(f).startswith("mode_")] + [os.path.join(VERIF, "harness", "alt_py.cc")]
    return build(flavour, "pydriver", sources=h + srcs, extra_inc=tuple(pyinc + ["-I" + base]), extra_link=tuple(pylink))

def harness_sources():
    d = os.path.join(VERIF, "harness")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc") and not f.startswith("alt_")]

def build_wrepdriver(flavour="asan"):
    """The driver, with the wrep tool inside"""
    base = os.path.join(REPO, "src")
    m = re.search(r"executable\(\s*'wrep'\s*,(.*?)link_with", open(os.path.join(base, "meson.build")).read(), re.S)
    names = re.findall(r"'([^']+\.cc)'", m.group(1)) if m else ["options.cc", "wrep.cc"]
    srcs = [os.path.join(base, n) for n in names]
    h = [f for f in harness_sources() if not os.path.basename(f).startswith("mode_")] + [os.path.join(VERIF, "harness", "alt_wrep.cc")]
    return build(flavour, "wrepdriver", sources=h + srcs, src_flags={s: ["-Dmain=vf_wrep_main"] for s in srcs})

ALT = {"python": "pydriver", "wrep": "wrepdriver"}   # mode -> driver it is in

def driver(flavour, target="driver"):
    if target == "pydriver": return build_pydriver(flavour)
    if target == "wrepdriver": return build_wrepdriver(flavour)
    return build(flavour, target, sources=harness_sources())

if __name__ == "__main__":
    try:
        print(driver(sys.argv[1], sys.argv[2]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
