"""Checks of the streams and their synchronisation: C08..C13.

Scenarios are run on the real classes under a controlled scheduler (harness/vpsched.cpp); what is observed is fed
event by event to the monitors of the specification (StreamTrace.tla).  The designs (CompStream.tla, DecompStream.tla,
Sync.tla) are explored exhaustively against the same monitors, and their behaviours are replayed into the real classes."""
import functools, json, random, re
from concurrent.futures import ThreadPoolExecutor
import bigstreams, longchecks
import vp

POL = (0, 0, 0, 1, 1, 2, 3)


# ---------------------------------------------------------------- scenarios
def comp_op(rng, focus, last):
    nb = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8] if focus != "epoch" else [1, 2, 3, 4, 5, 6, 7, 8, 9])
    tail = rng.choice([0, 0, 0, 1, 65536, 1048575, 8])
    kinds = rng.choice([0, 0, 1, 1, 2, 3])
    pf = {"fail": .6, "term": .25, "epoch": .2}.get(focus, .12)
    fails = []
    if nb and rng.random() < pf:
        fails = rng.sample(range(nb), rng.choice([1, 1, 2, nb]) if nb > 1 else 1)
    cancel = int(rng.random() < {"term": .45, "epoch": .25}.get(focus, .15))
    return "S%d.%d.%d.%s" % (nb, tail, kinds, "_".join(map(str, fails)) or "-"), nb, cancel


def comp_job(rng, jid, focus):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    ep = rng.choice([0, 0, 1, 2, 2, 4]) if focus != "epoch" else rng.choice([1, 1, 2, 2, 4])
    s = []
    if rng.random() < .4:
        s.append("R")
    nops = rng.choice([1, 1, 2, 2, 3, 4])
    k = 0
    while k < nops:
        st, nb, cancel = comp_op(rng, focus, k == nops - 1)
        if focus == "epoch" and k and rng.random() < .4:
            s.append("E%d" % rng.choice([1, 2, 4]))
        s.append(st)
        x = rng.random()
        if x < .15:
            s.append("B%d" % rng.randrange(0, nb + 1))
        elif x < .25:
            s.append("L")
        elif x < .4:
            s += ["Y"] * rng.randrange(1, 6)
        lastone = k == nops - 1
        destroy = lastone and rng.random() < {"term": .6, "epoch": .25}.get(focus, .15)
        if destroy:
            x = rng.random()
            if x < .5:
                s += ["F%d" % cancel] + ["Y"] * rng.randrange(0, 4)
            k += 1
            break
        s.append("F%d" % cancel)
        # the next operations from within the completion callback
        if not lastone and rng.random() < .35:
            depth = 0
            while k < nops - 1 and rng.random() < .6:
                st, nb, cancel = comp_op(rng, focus, False)
                s += ["(", st, "F%d" % cancel]
                depth += 1
                k += 1
            s += [")"] * depth
            s.append("W" if depth == 0 else "A%d" % (len([t for t in s if t[0] == "F"])))
        else:
            s.append("W")
        k += 1
    return "C %s %d %d %d %d %s" % (jid, rng.randrange(1 << 31), rng.choice(POL), n, ep, " ".join(s))


def push_tok(rng, off, fail):
    x = rng.random()
    if x < .15:
        ks = "c" * 16
    elif x < .3:
        ks = "u" * 16
    elif x < .38:
        ks = "0" * 16
    else:
        w = rng.choice(["cu0", "cc0", "cccu", "u0", "ccccccc0u"])
        ks = "".join(rng.choice(w) for _ in range(16))
    if fail:
        f = rng.choice("xzE")
        if f == "E":
            ks += "E"
            if "c" not in ks:
                ks = "c" + ks[1:]
        else:
            p = rng.choice([0, 15, rng.randrange(16)])
            ks = ks[:p] + f + ks[p + 1:]
    if rng.random() < .2:
        ks += "pp"     # wide chunks
    return "P%d.%s" % (off, ks)


def decomp_job(rng, jid, focus):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    s = []
    if rng.random() < .4:
        s.append("R")
    nops = rng.choice([1, 1, 2, 2, 3])
    for k in range(nops):
        s.append("S")
        nb = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
        pf = {"fail": .7, "term": .2}.get(focus, .12)
        failing = rng.random() < pf
        fails = set(rng.sample(range(nb), rng.choice([1, 1, min(2, nb)]))) if failing and nb else set()
        offs = rng.sample(range(12), nb)
        ps = [push_tok(rng, o, j in fails) for j, o in enumerate(offs)]
        mt = rng.random() < .25 and nb >= 2
        main = ps
        if mt:
            c = rng.randrange(1, nb)
            s += ["T", "("] + ps[:c] + [")"]
            main = ps[c:]
        for p in main:
            s.append(p)
            x = rng.random()
            if x < .12 or (focus == "fail" and x < .3):
                if not mt:
                    s.append("L")
            elif x < .3:
                s.append("Y")
        if mt:
            s.append("J")
        if rng.random() < .15:
            s.append("L")
        lastone = k == nops - 1
        cancel = int(rng.random() < (.4 if focus == "term" else .15))
        if lastone and rng.random() < (.6 if focus == "term" else .15):
            if rng.random() < .5:
                s += ["F%d" % cancel] + ["Y"] * rng.randrange(0, 4)
            break
        s.append("F%d" % cancel)
        if not lastone and rng.random() < .3:
            s += ["(", "S"] + [push_tok(rng, o, focus == "fail" and rng.random() < .2) for o in rng.sample(range(12), rng.randrange(0, 3))] + ["F%d" % int(rng.random() < .2), ")"]
            s.append("A%d" % (len([t for t in s if t[0] == "F"])))
        else:
            s.append("W")
    return "D %s %d %d %d 0 %s" % (jid, rng.randrange(1 << 31), rng.choice(POL), n, " ".join(s))


def barrier_job(rng, jid):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    s = ["Y"] * rng.randrange(0, 8)
    if rng.random() < .4:
        s += ["L"] * (rng.random() < .1) + ["I"] + ["Y", "I"] * (rng.random() < .2)
    return "B %s %d %d %d %d %s" % (jid, rng.randrange(1 << 31), rng.choice(POL), n, rng.choice([1, 2, 3, 3, 5, 8]), " ".join(s))


def latch_job(rng, jid):
    count = rng.choice([0, 1, 2, 3, 4])
    kinds = []
    left = count
    while left > 0:
        c = rng.choice("cccnd" if left > 1 else "ccn")
        kinds.append(c)
        left -= 2 if c == "d" else 1
    kinds += ["w"] * rng.randrange(0, 4) + ["b"] * rng.randrange(0, 2)
    rng.shuffle(kinds)
    if rng.random() < .5:
        kinds.append("W")
        if rng.random() < .3:
            kinds += ["w", "W"]
    if rng.random() < .15 and count:     # never reaches zero: nobody may get through
        k = next(i for i, c in enumerate(kinds) if c in "cnd")
        kinds[k] = "w"
    return "L %s %d %d %d %d %s" % (jid, rng.randrange(1 << 31), rng.choice(POL), 1, count, "".join(kinds))


# ---------------------------------------------------------------- running
def execute(ctx, jobs, name, invs):
    exe = ctx.harness("stream_driver.cpp", "sched")
    recs = ctx.run_jobs(exe, jobs, name, timeout=60)
    # identical observations are validated once
    uniq, out = set(), []
    for r in recs:
        k = r[r.index('"n":'):r.index('"plan":')]
        if k not in uniq:
            uniq.add(k)
            out.append(r)
    ctx.count("schedules", len(recs))
    ctx.count("different observations", len(out))
    for r in recs[:2]:
        d = json.loads(r)
        ctx.sample({"scenario": d["job"], "events": [e[:4] for e in d["ev"]][:60]})
    ctx.validate(out, "StreamTrace", {}, invs, name)
    return recs


def pipe_job(rng, jid):
    return "P %s %d %d %d %d %d.%d.%d.%d" % (jid, rng.randrange(1 << 31), rng.choice((0, 2, 1)), rng.choice([1, 2, 2, 3]), rng.choice([0, 0, 1, 2]),
                                           rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 0, 4096, 65536]), rng.randrange(1 << 30), rng.random() < .7)


# ---------------------------------------------------------------- behaviours of the designs, as scenarios with a plan
def chain(script, i):
    out = []
    while i < len(script) and script[i]["cb"]:
        out.append(script[i])
        i += 1
    return out


def body_comp(rng, o):
    return ["S%d.%d.%d.%s" % (o["nb"], rng.choice([0, 0, 8]), rng.choice([0, 1]), "_".join(map(str, o["fails"])) or "-")]


def body_decomp(rng, o):
    return ["S"] + [push_tok(rng, j, j in o["fails"]) for j in range(o["np"])]


def plan_job(rng, jid, kind, p, loose):
    """loose: the scenario, but not the schedule"""
    sc = p["script"]
    body = body_comp if kind == "C" else body_decomp
    s, i, nf = [], 0, 0
    while i < len(sc):
        o = sc[i]
        s += body(rng, o)
        i += 1
        if o["how"] == "nofin":
            break
        s.append("F%d" % (o["how"] in ("cancel", "cancelnowait")))
        nf += 1
        if o["how"] in ("nowait", "cancelnowait"):
            break
        nest = chain(sc, i)
        for x in nest:
            s += ["("] + body(rng, x) + ["F%d" % (x["how"] == "cancel")]
            nf += 1
        s += [")"] * len(nest)
        i += len(nest)
        s.append("A%d" % nf)
    log = [e for e in p["log"] if e not in ("fine", "dtore", "exit", "pushe", "settled")]
    return "%s %s %d %d %d %d %s%s" % (kind, jid, rng.randrange(1 << 31), rng.choice(POL if loose else (0, 2)), p["n"], p["ep"], " ".join(s),
                                      "" if loose else " % " + " ".join(log)), len(log)


def plans(ctx, module, consts, num, seed):
    r = ctx.tlc(module, dict(consts, Spurious="FALSE", Logging="TRUE"), spec="GSpec", workers=1, simulate=num, depth=900,
                seed=seed % (1 << 31), name="plan-%s-%d" % (module, seed), heap="1g", timeout=300)
    out = []
    for l in r["out"].splitlines():
        if l.startswith('"PLAN '):
            out.append(json.loads(json.loads(l)[5:]))
    if not out:
        raise RuntimeError("no behaviours generated from %s: %s" % (module, r["out"][-1500:]))
    ctx.transitions += r.get("generated", 0)
    return out


def planned(ctx, rng, kind, num, eps=(0, 1, 2)):
    confs = []
    for n in (1, 2, 3):
        for e in (eps if kind == "C" else (0,)):
            c = {"N": n, "MaxOps": 3, "MaxFails": 1}
            c.update({"EP": e, "MaxNb": 5} if kind == "C" else {"MaxPush": 5})
            confs.append(c)
    mod = "CompStream" if kind == "C" else "DecompStream"
    with ThreadPoolExecutor(vp.NCPU) as ex:
        res = list(ex.map(lambda k: plans(ctx, mod, confs[k], max(1, num // len(confs)), ctx.seed * 131 + k * 17 + (kind == "D")), range(len(confs))))
    jobs, lens = [], {}
    for ps in res:
        for p in ps:
            jid = "p%s%d" % (kind, len(jobs))
            j, n = plan_job(rng, jid, kind, p, False)
            jobs.append(j)
            lens[jid] = n
    ctx.count("behaviours of the design replayed", len(jobs))
    return jobs, lens


def followed(ctx, recs, lens):
    full = sum(1 for r in recs for d in [json.loads(r)] if d["id"] in lens and d["plan"] == lens[d["id"]])
    ctx.count("replayed to the end", full)
    ctx.log("%d of %d behaviours of the design were replayed to the end" % (full, len(lens)))


# ---------------------------------------------------------------- design models
def design_comp(ctx, invs):
    c = {"Spurious": "FALSE", "Logging": "FALSE"}
    conf = [dict(N=2, EP=0, MaxNb=2, MaxOps=1, MaxFails=1, Spurious="TRUE"), dict(N=2, EP=1, MaxNb=2, MaxOps=1, MaxFails=1), dict(N=2, EP=0, MaxNb=1, MaxOps=2, MaxFails=1)]
    if ctx.thorough:
        conf += [dict(N=2, EP=2, MaxNb=4, MaxOps=1, MaxFails=1), dict(N=3, EP=0, MaxNb=2, MaxOps=1, MaxFails=1), dict(N=3, EP=1, MaxNb=2, MaxOps=1, MaxFails=1),
                 dict(N=2, EP=1, MaxNb=2, MaxOps=2, MaxFails=1)]
    for k in conf:
        d = dict(c, **k)
        d["MaxThread"] = d["N"]
        ctx.check_model("CompStream", d, invs, what="CompStream %s" % k, deadlock=True, heap="16g", timeout=1500)


def design_decomp(ctx, invs):
    c = {"Spurious": "FALSE", "Logging": "FALSE"}
    conf = [dict(N=2, MaxPush=2, MaxOps=1, MaxFails=1, Spurious="TRUE"), dict(N=2, MaxPush=1, MaxOps=2, MaxFails=1), dict(N=2, MaxPush=3, MaxOps=1, MaxFails=2)]
    if ctx.thorough:
        conf += [dict(N=3, MaxPush=2, MaxOps=1, MaxFails=1), dict(N=2, MaxPush=2, MaxOps=2, MaxFails=1), dict(N=3, MaxPush=3, MaxOps=1, MaxFails=1)]
    for k in conf:
        d = dict(c, **k)
        d["MaxThread"] = d["N"]
        ctx.check_model("DecompStream", d, invs + ["AllProcessed"], what="DecompStream %s" % k, deadlock=True, heap="16g", timeout=1500)


def liveness(ctx):
    ctx.check_model("CompStream", {"Spurious": "FALSE", "Logging": "FALSE", "N": 2, "EP": 1, "MaxNb": 1, "MaxOps": 1, "MaxFails": 1, "MaxThread": 2},
                    [], ["Termination"], spec="LiveSpec", what="CompStream terminates", deadlock=True)
    ctx.check_model("DecompStream", {"Spurious": "FALSE", "Logging": "FALSE", "N": 2, "MaxPush": 1, "MaxOps": 1, "MaxFails": 1, "MaxThread": 2},
                    [], ["Termination"], spec="LiveSpec", what="DecompStream terminates", deadlock=True)


# ---------------------------------------------------------------- the checks
def beside(rng, job):
    """another stream in the same process: it worked before, or works in between"""
    head, script = job.split()[:6], job.split()[6:]
    kind = head[0] if rng.random() < .8 else rng.choice("CD")
    stays = rng.random() < .6
    ops = "".join(rng.choice("oox") for _ in range(rng.choice([0, 1, 1, 2, 3]))) or "-"
    if stays:
        for _ in range(rng.choice([0, 1, 1, 2])):
            depth, places = 0, []
            for i, t in enumerate(script):
                depth += (t == "(") - (t == ")")
                if depth == 0 and t != "(" and (i + 1 == len(script) or script[i + 1] != "("):
                    places.append(i + 1)
            if places:
                script.insert(rng.choice(places), "Q" + rng.choice("oox"))
    return " ".join(head + ["X%s%d.%s.%d" % (kind, rng.choice([1, 2]), ops, stays)] + script)


def beside_big(big):
    """with the operations of bigstreams running at the same time"""
    def deco(fn):
        @functools.wraps(fn)
        def both(ctx):
            with longchecks.Beside(big, ctx):
                fn(ctx)
        return both
    return deco


def mixed(ctx, rng, make, focus, num):
    jobs = [make(rng, "j%d" % i, focus if rng.random() < .8 else rng.choice(["", "fail", "term", "epoch"])) for i in range(num)]
    return [beside(rng, j) if rng.random() < .12 else j for j in jobs]


@beside_big(bigstreams.complete)
def c08(ctx):
    rng = random.Random(ctx.seed * 23 + 1)
    design_comp(ctx, ["InvOnce"])
    pj, lens = planned(ctx, rng, "C", ctx.scale(1200, 12000))
    recs = execute(ctx, mixed(ctx, rng, comp_job, "", ctx.scale(6000, 60000)) + pj, "schedules", ["InvNoCrash", "InvOthers", "InvC08"])
    followed(ctx, recs, lens)
    execute(ctx, [pipe_job(rng, "q%d" % i) for i in range(ctx.scale(60, 600))], "pipes", ["InvNoCrash", "InvPipe"])


@beside_big(bigstreams.epochs)
def c09(ctx):
    rng = random.Random(ctx.seed * 23 + 2)
    design_comp(ctx, ["InvEpoch"])
    pj, lens = planned(ctx, rng, "C", ctx.scale(1500, 12000), eps=(1, 2, 4))
    recs = execute(ctx, mixed(ctx, rng, comp_job, "epoch", ctx.scale(8000, 80000)) + pj, "schedules", ["InvNoCrash", "InvOthers", "InvC09"])
    followed(ctx, recs, lens)


@beside_big(bigstreams.restored)
def c10(ctx):
    rng = random.Random(ctx.seed * 23 + 3)
    design_decomp(ctx, ["NothingBad"])
    pj, lens = planned(ctx, rng, "D", ctx.scale(1200, 12000))
    recs = execute(ctx, mixed(ctx, rng, decomp_job, "", ctx.scale(6000, 60000)) + pj, "schedules", ["InvNoCrash", "InvOthers", "InvC10"])
    followed(ctx, recs, lens)
    execute(ctx, [pipe_job(rng, "q%d" % i) for i in range(ctx.scale(60, 600))], "pipes", ["InvNoCrash", "InvPipe"])


@beside_big(bigstreams.reported)
def c11(ctx):
    rng = random.Random(ctx.seed * 23 + 4)
    design_comp(ctx, ["InvFailures"])
    design_decomp(ctx, ["NothingBad"])
    recs = []
    for kind, make in (("C", comp_job), ("D", decomp_job)):
        pj, lens = planned(ctx, rng, kind, ctx.scale(700, 7000))
        recs = execute(ctx, mixed(ctx, rng, make, "fail", ctx.scale(4500, 45000)) + pj, "schedules" + kind, ["InvNoCrash", "InvOthers", "InvC11"])
        followed(ctx, recs, lens)


@beside_big(bigstreams.ends)
def c12(ctx):
    rng = random.Random(ctx.seed * 23 + 5)
    design_comp(ctx, ["InvEnd"])
    design_decomp(ctx, ["NothingBad"])
    liveness(ctx)
    for n in (1, 3, 4):
        ctx.check_model("Construct", {"N": n}, ["InvEnds"], what="construction of a stream with %d threads fails" % n)
    ctx.check_model("Construct", {"N": 3}, [], ["Ends"], spec="LiveSpec", what="construction ends")
    refused = []
    for n in (1, 2, 2, 3, 4, 5):
        for k in range(1, n + 1):
            for kind in "CD":
                refused += ["%s r%d %d %d %d 0 !%d" % (kind, 10000 * n + 1000 * k + len(refused), rng.randrange(1 << 31), rng.choice(POL), n, k) for _ in range(ctx.scale(25, 250))]
    execute(ctx, refused, "refused", ["InvNoCrash", "InvOthers", "InvC12"])
    for kind, make in (("C", comp_job), ("D", decomp_job)):
        pj, lens = planned(ctx, rng, kind, ctx.scale(700, 7000))
        recs = execute(ctx, mixed(ctx, rng, make, "term", ctx.scale(5000, 50000)) + pj, "schedules" + kind, ["InvNoCrash", "InvOthers", "InvC12"])
        followed(ctx, recs, lens)


@beside_big(bigstreams.together)
def c13(ctx):
    rng = random.Random(ctx.seed * 23 + 6)
    c = {"N": 3, "R": 3, "Interrupts": "FALSE", "Count": 1, "Waiters": 1, "MaxThread": 3}
    for n, r in ctx.scale([(2, 4), (3, 3), (4, 2)], [(2, 6), (3, 4), (4, 3), (5, 2)]):
        for i in ("FALSE", "TRUE"):
            ctx.check_model("Sync", dict(c, N=n, R=r, Interrupts=i, MaxThread=n), ["BarrierRight", "NobodyLeft"], spec="BSpec", deadlock=True,
                            what="barrier, %d threads, %d rounds, interruption %s" % (n, r, i), heap="12g")
    ctx.check_model("Sync", dict(c, N=3, R=2, Interrupts="TRUE"), ["BarrierRight"], ["AllThrough"], spec="BLive", deadlock=True, what="barrier liveness")
    for k, w in ((0, 2), (1, 3), (3, 2)):
        ctx.check_model("Sync", dict(c, Count=k, Waiters=w, MaxThread=k + w), ["LatchRight"], spec="LSpec", deadlock=True, what="latch %d/%d" % (k, w))
    jobs = [barrier_job(rng, "b%d" % i) for i in range(ctx.scale(6000, 60000))] + [latch_job(rng, "l%d" % i) for i in range(ctx.scale(3000, 30000))]
    rng.shuffle(jobs)
    execute(ctx, jobs, "sync", ["InvNoCrash", "InvC13"])


CHECKS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13}
