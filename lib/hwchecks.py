"""Check of the hardware back ends: C18 (HwMonitor.tla, HwSession.tla, HwTrace.tla)."""
import glob, json, os, random
from concurrent.futures import ThreadPoolExecutor
import build, vp

WRAPS = ["malloc", "calloc", "free", "open", "open64", "openat", "fcntl", "fcntl64", "close", "access", "ioctl",
         "tss_create", "tss_set", "pthread_key_create", "pthread_setspecific",
         "fprintf", "__fprintf_chk", "printf", "__printf_chk", "fputs", "puts", "fwrite", "perror"]


def backend(ctx, name, part, defs):
    """The sources of one back end as they are in the repository, against stand-ins for the device."""
    d = ctx.path("hw-" + name)
    os.makedirs(os.path.join(d, "inc/lib842"))
    open(os.path.join(d, "inc/lib842/config.h"), "w").close()
    stub = os.path.join(build.VERIF, "harness/stub")
    inc = ["-I", os.path.join(d, "inc"), "-I", os.path.join(build.REPO, "include"), "-I", os.path.join(build.REPO, "src/common"), "-I", stub]
    srcs = []
    for p in (part, "common"):
        for e in ("*.c", "*.cpp"):
            srcs += sorted(glob.glob(os.path.join(build.REPO, "src", p, e)))
    objs = []
    for s in srcs + [os.path.join(build.VERIF, "harness/hw_driver.c")]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        build.run([("gcc" if s.endswith(".c") else "g++"), "-O1", "-g", "-w", "-D_GNU_SOURCE"] + defs + inc + ["-c", s, "-o", o])
        objs.append(o)
    exe = os.path.join(d, "hw_driver")
    build.run(["g++", "-o", exe] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread"])
    return exe


def num(d):
    return str((d[0] << 48) + (d[1] << 32) + (d[2] << 16) + d[3])


def action(a):
    if a["op"] == "exit":
        return "x:%d:%s:%d" % (a["t"], a["fail"], a["e"])
    return ":".join([str(a["t"]), a["f"], str(a["n"]), str(a["in"]), num(a["is"]), str(a["out"]), num(a["os"]), ",".join(map(num, a["il"])),
                     ",".join(map(num, a["ol"])), a["fail"], str(a["e"]), str(a["wait"])])


def programs(ctx, num, maxlen, salt):
    procs = 4

    def one(k):
        return ctx.tlc("HwSession", {"Base": 65536, "MaxChunks": 16, "N": 3, "MaxCalls": maxlen, "Few": "TRUE"}, spec="GSpec", workers=1, simulate=(num + procs - 1) // procs,
                       depth=maxlen + 3, seed=(ctx.seed * 6007 + k * 37 + salt) % (1 << 31), name="hw%d" % k, heap="1g")

    out = []
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(procs)):
            if not r["ok"]:
                raise RuntimeError("HwSession generator: " + r["out"][-2000:])
            out += [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"HIST ')]
            ctx.states += r.get("generated", 0)
            ctx.transitions += r.get("generated", 0)
    return out


def systematic(rng):
    """Every step failing in every position, every limit from both sides."""
    M, S = (1 << 32) - 1, (1 << 64) - 1
    ok = "%d:%s:1:0:8:65536:64:8:64:-:0:1"
    out = []
    for f in ("key", "alloc", "open", "setfd", "sess", "info", "keep", "crypt"):
        for e in (1, 13, 24):
            for c in "cCdDi":
                bad = "%d:%s:1:0:8:65536:64:8:64:%s:%d:1"
                out.append([bad % (1, c, f, e), ok % (1, "c"), ok % (1, "D"), bad % (2, c, f, e), ok % (2, "d"), "x:1:-:0", ok % (1, "C"), bad % (3, "i", f, e), ok % (3, "i")])
    for w in ("fses", "close"):
        out.append([ok % (1, "c"), ok % (2, "C"), "x:1:%s:5" % w, ok % (1, "c"), "x:2:-:0", ok % (2, "D")])
    out.append(["%d:%s:1:0:8:65536:64:8:64:-:0:0" % (t, c) for c in "cdCDi" for t in (1, 2, 3, 4)])
    for n in (0, 1, 2, 3, 5, 15, 16, 17, 18):
        lim = M // n if n else S
        for s in (0, 1, lim - 1, lim, lim + 1 if lim < S else lim, M, M + 1, S // 2, S, S - 1, (1 << 32) * 3, S // max(n, 1) + 1):
            for c in "CD":
                lens = ",".join(["5"] * n)
                out.append(["1:%s:%d:0:%d:65536:64:%s:%s:-:0:1" % (c, n, s, lens, lens), "1:%s:%d:0:64:65536:%d:%s:%s:-:0:1" % (c, n, s, lens, lens), ok % (1, c)])
    for v in (0, 1, M - 1, M, M + 1, S, S - 1, 1 << 33, (1 << 33) + 7):
        for c in "cdCD":
            for n in ((1,) if c in "cd" else (1, 2, 16)):
                for i in {0, n - 1}:
                    l = [str(v if j == i else 5) for j in range(n)]
                    k = ["5"] * n
                    out.append(["1:%s:%d:0:64:65536:64:%s:%s:-:0:1" % (c, n, ",".join(l), ",".join(k)), "1:%s:%d:0:64:65536:64:%s:%s:-:0:1" % (c, n, ",".join(k), ",".join(l)), ok % (1, c)])
    for k in range(17):
        for c in "cD":
            out.append(["1:%s:1:%d:8:65536:64:8:64:-:0:1" % (c, 1 << k), "1:%s:1:65536:8:%d:64:8:64:-:0:1" % (c, 1 << k), "1:%s:1:%d:8:%d:64:8:64:-:0:1" % (c, 65536 - (1 << k), 1 << k)])
    for _ in range(40):     # batches with chunks marked as skipped
        n = rng.randrange(1, 17)
        il = [str(S if rng.random() < .4 else rng.randrange(1 << 16)) for _ in range(n)]
        ol = [str(rng.randrange(1, 1 << rng.choice([8, 16, 32]))) for _ in range(n)]
        out.append(["1:%s:%d:0:%d:65536:%d:%s:%s:-:0:1" % (rng.choice("CD"), n, rng.randrange(1 << 17), rng.randrange(1 << 17), ",".join(il), ",".join(ol))] * 2)
    return out


def c18(ctx):
    small = {"Base": 2, "MaxChunks": 2}
    ctx.check_model("HwSession", dict(small, Few="FALSE", N=1, MaxCalls=ctx.scale(2, 3)), invariants=["InvMonitor", "InvNothingLeft"], what="HwSession (one thread, every call)")
    ctx.check_model("HwSession", dict(small, Few="TRUE", N=ctx.scale(2, 3), MaxCalls=1), invariants=["InvMonitor", "InvNothingLeft"],
                    what="HwSession (threads)")
    ctx.check_model("HwSession", dict(small, Few="TRUE", N=2, MaxCalls=1), properties=["Termination"], spec="LiveSpec", what="HwSession (termination)")
    rng = random.Random(ctx.seed * 23 + 1)
    progs = [[action(a) for a in h] for h in programs(ctx, ctx.scale(1500, 20000), 14, 3)] + systematic(rng)
    jobs = []
    for p in progs:
        mask = rng.choice([0, 0, 1, 7, 63, 127, 4095, 32767, 65535])
        jobs.append("H h%d %d %d %d %s" % (len(jobs), rng.randrange(1 << 30), mask, rng.randrange(2), " ".join(p)))
    D = ["-DLIB842_HAVE_CRYPTODEV_LINUX_COMP"]
    for name, part, defs in (("cryptodev", "cryptodev", D), ("cryptodev-threads", "cryptodev", D + ["-D__STDC_NO_THREADS__"]),
                             ("cryptodev-old", "cryptodev", D + ["-DVP_NO_SESSINFO"]), ("aix", "aix", ["-DVP_AIX", "-DLIB842_HAVE_AIX_HWCOMPRESSION"])):
        exe = backend(ctx, name, part, defs)
        mine = jobs if name in ("cryptodev", "aix") else jobs[::3]
        recs = ctx.run_jobs(exe, mine, name, timeout=20)
        for r in recs[:2]:
            ctx.sample({"backend": name, "events": json.loads(r).get("ev", [])[:12]})
        ctx.count("calls", sum(r.count('"k":"call"') for r in recs))
        ctx.count("requests to the device", sum(r.count('"k":"crypt"') + r.count('"k":"acc"') for r in recs))
        ctx.count("failed steps", sum(r.count('"k":"fail"') for r in recs))
        ctx.validate(recs, "HwTrace", {"Base": 65536, "MaxChunks": 16}, ["InvNoCrash", "InvC18", "InvAllGone"], name)


CHECKS = {"C18": c18}
