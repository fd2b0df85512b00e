"""Builds the library from /repo's working tree into a scratch directory, and harnesses against it."""
import os, subprocess, shutil, re

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VARIANTS = {
    # asserts stay enabled (no NDEBUG), as in the project's own build
    "plain": "-O2 -g",
    "asan": "-O1 -g -fsanitize=address -fsanitize-recover=address -fno-omit-frame-pointer",
    "sched": "-O1 -g -fsanitize=thread",
}


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-8000:]))
    return p.stdout


class Lib:
    def __init__(self, scratch, variant="plain"):
        self.dir = os.path.join(scratch, "build-" + variant)
        self.variant = variant
        self.flags = VARIANTS[variant]
        d = self.dir
        os.makedirs(os.path.join(d, "shim/uthash/src"))
        for h in ("uthash.h", "utlist.h"):
            os.symlink("/usr/include/" + h, os.path.join(d, "shim/uthash/src", h))
        env = dict(os.environ, CC="gcc", CXX="g++")
        common = "-Wno-error -w -I%s/shim" % d
        run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
             "-DBUILD_TESTING=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DCMAKE_C_FLAGS_RELWITHDEBINFO=" + self.flags, "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + self.flags,
             "-DCMAKE_C_FLAGS=" + common, "-DCMAKE_CXX_FLAGS=" + common,
             # a shared-library-like link of the helper executables must work for every variant
             "-DCMAKE_EXE_LINKER_FLAGS=" + ("-fsanitize=address" if variant == "asan" else "-fsanitize=thread" if variant == "sched" else "")],
            env=env)
        run(["ninja", "-C", d, "-j8", "842"], env=env)
        self.lib = os.path.join(d, "lib842.a")

    def harness(self, src, out, extra=(), link_extra=()):
        exe = os.path.join(self.dir, out)
        if self.variant == "sched":
            return self.sched_harness(src, exe)
        flags = self.flags.split() if self.variant != "sched" else ["-O1", "-g"]
        run(["g++", "-std=c++17", "-w"] + flags +
            ["-DCL_TARGET_OPENCL_VERSION=120", "-DCL_HPP_MINIMUM_OPENCL_VERSION=120",
             "-DCL_HPP_TARGET_OPENCL_VERSION=120", "-DCL_HPP_ENABLE_EXCEPTIONS",
             "-I", os.path.join(REPO, "include"), "-I", os.path.join(self.dir, "include"), "-I", os.path.join(VERIF, "harness")] +
            list(extra) + ["-rdynamic", "-o", exe, os.path.join(VERIF, "harness", src)] + list(link_extra) +
            [self.lib, "-lOpenCL", "-lnuma", "-lpthread", "-ldl", "-lm"])
        return exe

    def sched_harness(self, src, exe):
        """The library is instrumented; the harness and the scheduler are not, and supply what the instrumentation calls."""
        objs = []
        inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(self.dir, "include"), "-I", os.path.join(VERIF, "harness")]
        for f, fl in ((src, ["-O1", "-g"]), ("sync_users.cpp", ["-O1", "-g", "-fsanitize=thread"]), ("vpsched.cpp", ["-O2", "-g"]), ("fake842.cpp", ["-O2", "-g"])):
            o = os.path.join(self.dir, os.path.splitext(f)[0] + ".o")
            run(["g++", "-std=c++17", "-w"] + fl + inc + ["-c", os.path.join(VERIF, "harness", f), "-o", o])
            objs.append(o)
        run(["g++", "-rdynamic", "-o", exe] + objs + [self.lib, "-lOpenCL", "-lnuma", "-lpthread", "-ldl", "-lm"])
        return exe
