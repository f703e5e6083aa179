#!/usr/bin/env python3
"""Build ADOL-C from /repo's working tree plus one harness check, and run it.

usage: run.py PROPERTY [quick|thorough] [--replay FILE] [extra runner args]
       run.py --setup
"""
import fcntl, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ADOLC_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
COLPACK = "/opt/vp/colpack-cmake"
HARN = os.path.join(VERIF, "harness")
JOBS = str(os.cpu_count() or 4)

SAN = ("-fsanitize=address,bounds,shift,signed-integer-overflow,null,return,bool,enum,vla-bound,integer-divide-by-zero"
       " -fno-sanitize-recover=all -fno-omit-frame-pointer")
VARIANTS = {
    # name: (compile flags, cmake options, asan link needed)
    "san": ("-w -O1 -g1 -D_GLIBCXX_ASSERTIONS " + SAN, [], SAN),
    "plain": ("-w -O1 -g1", [], ""),
    "tsan": ("-w -O1 -g1 -fsanitize=thread", ["-DENABLE_BOOST_POOL=OFF"], "-fsanitize=thread"),
    "actadv": ("-w -O1 -g1 -D_GLIBCXX_ASSERTIONS " + SAN,
               ["-DENABLE_ACTIVITY_TRACKING=ON", "-DENABLE_ADVANCED_BRANCHING=ON"], SAN),
    "refcnt": ("-w -O1 -g1 -D_GLIBCXX_ASSERTIONS " + SAN,
               ["-DENABLE_TRACELESS_REFCOUNTING=ON", "-DENABLE_BOOST_POOL=OFF"], SAN),
}


def sh(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)


def tail(log, n=60):
    try:
        return "".join(open(log, errors="replace").readlines()[-n:])
    except OSError:
        return ""


def config_of(prop):
    cfg = json.load(open(os.path.join(HARN, "checks.json")))
    return cfg[prop]


def build(prop, cfg):
    os.makedirs(BUILD, exist_ok=True)
    var = cfg.get("variant", "san")
    flags, opts, link = VARIANTS[var]
    bd = os.path.join(BUILD, var)
    log = os.path.join(BUILD, f"{var}-{prop}.log")
    if os.path.exists(log):
        os.unlink(log)
    lock = open(os.path.join(BUILD, f".lock-{var}"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    env.pop("VERIF_SEED", None)
    if not os.environ.get("VERIF_CCACHE"):
        env["CCACHE_DISABLE"] = "1"
    conf = ["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
            f"-DCMAKE_CXX_FLAGS={flags}", f"-DCMAKE_C_FLAGS={flags}", "-DBUILD_INTERFACE=ON",
            "-DENABLE_SPARSE=ON", f"-DColPack_DIR={COLPACK}", "-DENABLE_BOOST_POOL=ON",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"] + opts
    if os.environ.get("VERIF_CCACHE"):
        conf += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache", "-DCMAKE_C_COMPILER_LAUNCHER=ccache"]
    if sh(conf, log, env=env) != 0:
        shutil.rmtree(bd, ignore_errors=True)
        if sh(conf, log, env=env) != 0:
            print(tail(log))
            print("ERROR: cmake configuration failed")
            sys.exit(2)
    inc = ["-I", os.path.join(REPO, "ADOL-C/include"), "-I", os.path.join(bd, "ADOL-C/include"),
           "-I", os.path.join(bd, "ADOL-C"), "-I", os.path.join(HARN, "core"),
           "-I", os.path.join(REPO, "ADOL-C/src"), "-I", os.path.join(REPO, "ADOL-C/c_interface")]
    defs = ["-DADOLC_BITWORD_BITS=32", "-DADOLC_SHARED"]
    exe = os.path.join(bd, f"check_{prop}")
    objs, procs = [], []
    with open(log, "ab") as f:
        cc = (["ccache"] if os.environ.get("VERIF_CCACHE") else []) + ["g++", "-std=c++20", "-w"]
        for src, fl in [("core/runner.cpp", "-O1 -g1"),
                        (f"checks/{cfg.get('source', prop + '.cpp')}", flags + " " + cfg.get("flags", ""))]:
            o = os.path.join(bd, f"h_{prop}_" + os.path.basename(src) + ".o")
            objs.append(o)
            cmd = cc + fl.split() + defs + inc + ["-c", os.path.join(HARN, src), "-o", o]
            f.write((" ".join(cmd) + "\n").encode())
            f.flush()
            procs.append((src, subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)))
        lib = subprocess.call(["ninja", "-C", bd, "-j", JOBS, "adolc", "ADOLCInterface"], stdout=f,
                              stderr=subprocess.STDOUT, env=env)
        bad = [s for s, p in procs if p.wait() != 0]
    if lib or bad:
        print(tail(log))
        print("ERROR: build failed:", "library" if lib else bad)
        sys.exit(2)
    lnk = ["g++", "-o", exe] + objs + link.split() + ["-L", bd, "-ladolc", "-L", os.path.join(bd, "ADOL-C/c_interface"),
           "-lADOLCInterface", f"-Wl,-rpath,{bd}", f"-Wl,-rpath,{bd}/ADOL-C/c_interface", "-lpthread"]
    lnk[1:1] = cfg.get("link", "").split()
    if sh(lnk, log, env=env) != 0:
        print(tail(log))
        print("ERROR: link failed")
        sys.exit(2)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # only verifies that the toolchain is there; every check builds what it needs
        for t in ("cmake", "ninja", "g++"):
            if not shutil.which(t):
                print("missing", t)
                return 2
        print("ok")
        return 0
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if a and a[0] in ("quick", "thorough"):
        tier = a.pop(0)
    cfg = config_of(prop)
    t0 = time.time()
    exe = build(prop, cfg)
    print(f"build: {time.time() - t0:.1f} s", flush=True)
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = "1"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:"
                           "max_malloc_fill_size=8192:malloc_fill_byte=190:detect_stack_use_after_return=0:"
                           "strict_memcmp=0:alloc_dealloc_mismatch=1:" + cfg.get("asan", ""))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=66"
    env["LD_LIBRARY_PATH"] = ""
    for k in ("LD_PRELOAD",):
        env.pop(k, None)
    ev = os.path.join(VERIF, "evidence")
    rd = os.path.join(VERIF, "replays", prop)
    os.makedirs(ev, exist_ok=True)
    os.makedirs(rd, exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    cmd = [exe, "--tier", tier, "--seed", seed, "--known", os.path.join(VERIF, "known_findings.txt"),
           "--replay-dir", rd]
    if "--replay" not in a and "--case" not in a and "--evidence" not in a:
        cmd += ["--evidence", os.path.join(ev, prop + ".json")]
    cmd += a
    r = subprocess.call(cmd, env=env)
    return r


if __name__ == "__main__":
    sys.exit(main())
