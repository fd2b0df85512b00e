"""Nothing accumulates: C21 (Ledger.tla, LedgerMonitor.tla, LedgerTrace.tla)."""
import json, os, random
import codec


def calls(ctx, rng):
    """Calls of the codec: data with capacities at which each of the steps can run out, streams that are fine, damaged, cut short."""
    out = []

    def call(impl, what, cap, data):
        if what in "dD" and impl == 2:
            data = data + bytes(-len(data) % 8)
        out.append("%d%s%s%s:%s" % (impl, what, rng.choice("--t"), cap, codec.hx(data)))

    for k in range(ctx.scale(60, 300)):
        L = rng.choice([1, 2, 7, 8, 9, 15, 16, 24, 40, 64, 100, 256, 520, 1032, 2100])
        d = codec.make_data(rng, L)
        need = L + L // 8 + 64
        for cap in {0, 1, 8, rng.randrange(need), rng.randrange(need), need}:
            for impl in (1, 2):
                if impl == 2 and L % 8:
                    continue
                call(impl, rng.choice("ccC"), "~%d" % (8 * rng.randrange(1, 4) if impl == 2 else rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16])), d)
                call(impl, "C" if rng.randrange(4) == 0 else "c", cap // 8 * 8 if impl == 2 else cap, d)
    for tag, b in [(s[0], s[1]) for s in codec.spec_streams(ctx, ctx.scale(150, 800), salt=91)]:
        for impl in (1, 2):
            call(impl, "D" if rng.randrange(5) == 0 else "d", rng.choice([0, 1, 8, 64, 4096, 8192]), b if rng.randrange(3) else codec.mutate(rng, b))
    rng.shuffle(out)
    return out


def c21(ctx):
    ctx.check_model("Ledger", {"N": 16, "MaxOps": ctx.scale(2, 4)}, ["DIdle", "DExact"], spec="Spec", what="the design of giving back")
    exe = ctx.harness("ledger_driver.cpp", "plain")
    rng = random.Random(ctx.seed * 31 + 21)
    rounds, jobs = 32, []

    def job(t, what):
        jobs.append("%s %s%d %d %s" % (t, t.lower(), len(jobs), rounds, what))

    cs = calls(ctx, rng)
    each = 8
    for k in range(0, len(cs), each):
        job("K", " ".join(cs[k:k + each]))
    n = lambda: rng.choice([1, 2, 3, 3, 4, 7])
    pol = lambda: rng.choice(["", "", "s"])
    for t, ops in (("C", "neifckK"), ("D", "neifckF")):
        for o in ops:
            job(t, "%d%s %s" % (n(), pol(), o))
            job(t, "%d%s |%s" % (n(), pol(), o))
        for k in range(ctx.scale(6, 30)):
            s = "".join(rng.choice(ops) for _ in range(rng.randrange(2, 6)))
            job(t, "%d%s %s%s" % (n(), pol(), rng.choice(["", "|"]), s))
        for o in "qQ":
            job(t, "%d%s %s%s" % (n(), pol(), rng.choice(["", "n", "c", "f"]), o))
            job(t, "%d %s" % (n(), o))
        job(t, "%d%s x" % (n(), pol()))
        for k in range(ctx.scale(3, 6)):
            m = rng.randrange(1, 7)
            job(t, "%d%s t%d" % (m, pol(), rng.randrange(m)))
    for k in range(ctx.scale(40, 300)):
        job("U", "".join(rng.choice("aaabbrmMcdspe") for _ in range(rng.randrange(3, 24))))
    for o in [x + f for x in "hbnNpdD" for f in "012"] + ["o", "O"]:
        job("O", "%d %s" % (rng.choice([64, 256, 4096]), o))
    for o in ["u", "v", "w", "y", "Y", "z", "x", "X", "ux", "wx", "ux"]:
        f = rng.randrange(3)
        job("O", "%d h%d%sh%d%s" % (rng.choice([64, 256]), f, o, f, rng.choice(["", "b%d" % rng.randrange(3)])))
    for k in range(ctx.scale(2, 10)):
        job("O", "%d %s" % (rng.choice([64, 256, 4096]), "".join(rng.choice("hbnNpdD") + rng.choice("012") for _ in range(3)) + rng.choice(["", "o", "O"])))
    rng.shuffle(jobs)
    os.makedirs(ctx.path("cl"), exist_ok=True)
    recs = ctx.run_jobs(exe, jobs, "rounds", timeout=300, env={"VP_SCRATCH": ctx.path("cl")})
    kept = [r for r in recs if json.loads(r)["fault"] != 1009]
    for t, what in (("K", "rounds of calls of the codec"), ("C", "rounds of compression streams"), ("D", "rounds of decompression streams"),
                    ("U", "rounds of blocks"), ("O", "rounds of OpenCL decompressors")):
        ctx.count(what, sum(len(json.loads(r)["live"]) for r in kept if json.loads(r)["t"] == t))
    ctx.validate(kept, "LedgerTrace", {}, ["InvNoFault", "InvReturned"], "rounds")


CHECKS = {"C21": c21}
