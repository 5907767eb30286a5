#!/usr/bin/env python3
"""Builds and runs one check against /repo's working tree.

  python3 /verif/mc/run.py C01 [--thorough] [--replay FILE] [extra driver arguments]

Exit status: 0 the property held on everything explored, 1 a violation (VIOLATION line), 2 the check is broken.
"""
import hashlib, json, os, subprocess, sys, time, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KIGUMI_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
CACHE = os.path.join(VERIF, ".cache")
CXX = "clang++-18"
DEFS = ["-DBOOST_CONTAINER_DYN_LINK", "-DBOOST_CONTAINER_NO_LIB", "-DCGAL_USE_GMPXX=1",
        "-DBOOST_PROGRAM_OPTIONS_DYN_LINK", "-DBOOST_PROGRAM_OPTIONS_NO_LIB",
        "-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3"]
BASE = ["-std=c++20", "-pthread", "-w", "-I" + os.path.join(MC, "shim"), "-include", os.path.join(MC, "shim", "cgal6_compat.h")]
LIBS = ["-lgmpxx", "-lgmp", "-lmpfr", "-lboost_container", "-pthread"]
VARIANTS = {
    # What the machine code is instrumented with.
    "plain": ["-O1", "-DNDEBUG"],
    "assert": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "sched": ["-O1", "-gline-tables-only", "-DNDEBUG", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"],
}


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def pch(variant):
    """A precompiled header of CGAL and Boost only: nothing of /repo is in it."""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(MC, "pch.h")
    flags = DEFS + BASE + VARIANTS[variant]
    h = hashlib.sha256()
    for f in (src, os.path.join(MC, "shim", "cgal6_compat.h")):
        h.update(open(f, "rb").read())
    h.update(" ".join(flags).encode())
    out = os.path.join(CACHE, f"pch-{variant}-{h.hexdigest()[:16]}.pch")
    with open(os.path.join(CACHE, f"pch-{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + ".tmp"
            r = run([CXX, *flags, "-x", "c++-header", src, "-o", tmp])
            if r.returncode != 0:
                log(r.stdout)
                return None
            os.rename(tmp, out)
    return out


def compile_one(src, out, variant, extra=(), use_pch=True, libs=(), link=True):
    flags = DEFS + BASE + VARIANTS[variant] + ["-I" + os.path.join(REPO, "include"), "-I" + REPO]
    if use_pch:
        p = pch(variant)
        if p:
            flags = ["-include-pch", p] + flags
    if variant == "sched" and link:
        return link_sched(src, out, flags, extra, libs)
    cmd = [CXX, *flags, *extra, *([src] if isinstance(src, str) else src), "-o", out]
    cmd += [*LIBS, *libs] if link else ["-c"]
    return run(cmd)


def link_sched(src, out, flags, extra, libs):
    """Instrumented like for the thread sanitizer, linked with our own runtime (mc/sched_rt.cc)."""
    rt = out + ".rt.o"
    p = subprocess.Popen([CXX, "-std=c++20", "-O2", "-g1", "-w", "-fno-builtin", "-c", os.path.join(MC, "sched_rt.cc"), "-o", rt],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = run([CXX, *flags, *extra, src, "-c", "-o", out + ".o"])
    text = p.communicate()[0]
    if p.returncode != 0:
        return subprocess.CompletedProcess([], p.returncode, text)
    if r.returncode != 0:
        return r
    return run([CXX, out + ".o", rt, "-o", out, *LIBS, *libs, "-ldl"])


def main():
    args = sys.argv[1:]
    if args and args[0] == "setup":
        bad = [v for v in VARIANTS if v in ("plain", "asan", "sched") and pch(v) is None]
        return 1 if bad else 0
    prop = args.pop(0)
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    args = [a for a in args if a != "--thorough"]
    seed = os.environ.get("VERIF_SEED", "1")
    import checks
    spec = checks.CHECKS[prop]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    work = os.path.join(VERIF, "out", "build", f"{prop}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    t0 = time.time()
    try:
        return checks.run_check(sys.modules[__name__], prop, spec, tier, seed, args, replay, work, t0)
    finally:
        for f in os.listdir(work):
            try:
                os.unlink(os.path.join(work, f))
            except OSError:
                pass
        try:
            os.rmdir(work)
        except OSError:
            pass


if __name__ == "__main__":
    sys.path.insert(0, MC)
    sys.exit(main())
