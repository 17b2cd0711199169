"""Builds the framework and the drivers from /repo's working tree, instrumented."""
import os, subprocess, fcntl, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "-fno-omit-frame-pointer -g1"
VARIANTS = {
    # shift-base: left shifts of negative raw values are defined since C++20 and by every supported compiler;
    # vptr/function: need the exact dynamic types of the plugin's code across library boundaries
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr,function,shift-base -O1 " + COMMON,
    "tsan": "-fsanitize=thread -O1 " + COMMON,
}
RULE = "<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -w -Wno-error -o <OBJECT> -c <SOURCE>"

def build(variant, targets=()):
    """-> directory of the built drivers, or None with the build log printed"""
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    bd = os.path.join(base, variant)
    env = dict(os.environ, CC="clang", CXX="clang++", LC_ALL="C")
    with open(os.path.join(base, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        log = ""
        for attempt in (0, 1):
            ok = True
            if not os.path.exists(os.path.join(bd, "build.ninja")):
                p = subprocess.run(["cmake", "-G", "Ninja", "-S", os.path.join(VERIF, "harness"), "-B", bd, "-Wno-dev",
                                    "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILE_OBJECT=" + RULE,
                                    "-DCMAKE_CXX_FLAGS=" + VARIANTS[variant]], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                log += p.stdout
                ok = p.returncode == 0
            if ok:
                p = subprocess.run(["ninja", "-C", bd, *targets], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                log += p.stdout
                ok = p.returncode == 0
            if ok:
                return os.path.join(bd, "out")
            if attempt == 0:       # a stale tree may not build: start over once
                subprocess.run(["rm", "-rf", bd])
        sys.stderr.write(log[-6000:])
        return None

if __name__ == "__main__":
    ok = True
    for v in sys.argv[1:] or ["asan"]:
        t = time.time()
        v, *targets = v.split(":")
        ok = build(v, targets) is not None and ok
        print("%s: %.1fs" % (v, time.time() - t))
    sys.exit(0 if ok else 1)
