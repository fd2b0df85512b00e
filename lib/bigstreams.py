"""Operations of the streams on 4 GiB and more, and with hundreds of threads, on free-running threads (BigStream.tla)."""
import json, random

G4 = 4096      # blocks of 1 MiB


def check(ctx, jobs, invs, name):
    exe = ctx.harness("bigstream_driver.cpp", "plain")
    recs = ctx.run_jobs(exe, jobs, name, shards=2, timeout=400)
    kept = [r for r in recs if json.loads(r)["fault"] != 1009]     # killed for want of memory
    if len(kept) < len(recs):
        ctx.log("%d operations on 4 GiB were killed" % (len(recs) - len(kept)))
    if not kept:
        return
    ctx.count("operations beyond 4 GiB, or with many threads", sum(len(json.loads(r)["ops"]) for r in kept))
    ctx.validate(kept, "BigStream", {}, ["InvNoFault"] + invs, name)


def comp_jobs(rng, failing=False, epochs=(0,)):
    jobs = []
    for k, ep in enumerate(epochs):
        nb = G4 + rng.randrange(3, 90)
        t = rng.choice([2, 3, 4])
        f = "%d" % (G4 + rng.randrange(0, 3)) if failing else "-"
        jobs.append("C c%d %d %d %d.%d.%s.- %d.0.-.- %d.%d.-.%d" % (k, t, ep, nb, rng.choice([0, 8, 1048575]), f, rng.randrange(1, 9), nb, rng.choice([0, 65536]), G4 - 5))
        # more threads than blocks, and than fit a byte
        jobs.append("C t%d %d %d %d.0.%s.- %d.0.-.- 300.5.%s.-" % (k, rng.choice([256, 257, 300]), 0 if ep == 0 else rng.choice([4, 8, 16]), rng.randrange(20, 50),
                                                              "7" if failing else "-", rng.randrange(1, 20), "-"))
    return jobs


def decomp_jobs(rng, failing=False):
    jobs = []
    g = rng.choice([G4, 2 * G4, 3 * G4])
    x = ["%d-%dx" % (g + 3, g + 3)] if failing else []
    parts = ["0-9c", "%d-%dm" % (G4 - 6, G4 + 5), "%d-%dc" % (2 * G4 - 2, 2 * G4 + 1), "%d-%du" % (3 * G4, 3 * G4 + 2)]
    if failing:
        parts = [p for p in parts if not p.startswith("%d-" % g)] + ["%d-%dc" % (g + 20, g + 40)]
    rng.shuffle(parts)
    parts = parts[:2] + x + parts[2:]
    rest = "0:%d-%dc,3-8u" % (G4 - 2, G4 + 3)
    jobs.append("D d %d 0:%s %s 1:%d-%dc" % (rng.choice([2, 3, 4]), ",".join(parts), rest, G4 + 1, G4 + 20))
    jobs.append("D t %d 0:%s%s %s" % (rng.choice([256, 257, 300]), "5-60m", ",2-2x" if failing else "", rest))
    return jobs


def complete(ctx):
    check(ctx, comp_jobs(random.Random(ctx.seed * 29 + 1)), ["InvOnce"], "big")


def epochs(ctx):
    rng = random.Random(ctx.seed * 29 + 2)
    check(ctx, comp_jobs(rng, epochs=[4096] + rng.sample([256, 1024, 2048], ctx.scale(1, 3))), ["InvOnce", "InvEpoch"], "big")


def restored(ctx):
    check(ctx, decomp_jobs(random.Random(ctx.seed * 29 + 3)), ["InvRestored"], "big")


def reported(ctx):
    rng = random.Random(ctx.seed * 29 + 4)
    check(ctx, comp_jobs(rng, True) + decomp_jobs(rng, True) + decomp_jobs(rng), ["InvReported"], "big")


def together(ctx):
    rng = random.Random(ctx.seed * 29 + 5)
    jobs = ["B b%d %d %d" % (n, n, r) for n, r in ((1, 70000), (2, 700), (127, 5), (128, 5), (255, 5), (256, 5), (257, 5), (rng.randrange(300, 600), 5))]
    # downs beyond the count are not allowed; fewer: nobody gets through
    jobs += ["L l%d %d %d %d" % (k, rng.randrange(1, 40), n, n - (k % 3 == 2)) for k, n in enumerate((1, 127, 128, 256, 257, 300, 65535, 65536, 70001))]
    check(ctx, jobs, ["InvTogether"], "many")


def ends(ctx):
    rng = random.Random(ctx.seed * 29 + 6)
    jobs = []
    for k in range(ctx.scale(6, 20)):
        n, ep = rng.choice([1, 2, 3, 256, 300]), rng.choice([0, 1, 2, 64, 4096])
        nb = G4 + rng.randrange(50) if n < 10 else 320
        at = rng.choice([0, 1, nb // 2, nb - 3])
        jobs.append("C e%d %d %d 5.0.-.- %d.9.%s.%s%d" % (k, n, ep, nb, rng.choice(["-", "3"]) if at < 3 else "-", rng.choice("!!0"), at))
        jobs.append("D f%d %d 0:4097-4098c %d:0-90c,%s4096-4110u" % (k, n, rng.choice([1, 2, 2]), rng.choice(["", "200-200x,"])))
    check(ctx, jobs, ["InvEnds"], "big")
