"""Checks of the OpenCL parts: C14 (buffers of chunks, CLBatch.tla), C15 (program cache, ClCache.tla), bounds of the kernel (C04)."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import codec, vp

FMT = codec.FMT
MARKER = bytes([0xbe, 0x5a, 0x46, 0xbf, 0x97, 0xe5, 0x2d, 0xd7, 0xb2, 0x7c, 0x94, 0x1a, 0xee, 0xd6, 0x70, 0x76])


def pad8(b):
    return b + bytes(-len(b) % 8)


def slot_of(b, chunk, rng):
    """a compressed chunk in a slot of the maybe-compressed formats"""
    return MARKER + len(b).to_bytes(8, "little") + bytes(rng.randrange(256) for _ in range(chunk - 24 - len(b))) + b


def batches(ctx, rng, ss, fmt, chunk, stride, count, flags=0, maxn=12, jobs=None):
    jobs = [] if jobs is None else jobs
    slotlen = stride if fmt == 0 else chunk
    ss = [x for x in ss if len(x[1]) <= slotlen - (24 if fmt else 0)]
    ok = [x for x in ss if x[0] == "ok" and x[3] and x[2] <= chunk]

    for k in range(count):
        n = rng.choice([1, 1, 2, 3, 5, maxn, maxn, rng.randrange(1, maxn + 1)])
        safe = rng.random() < .4      # only valid chunks: sizes can be left out
        tail = int(rng.random() < .5)
        items = []
        for i in range(n):
            x = rng.random()
            cap = chunk
            if fmt and x < .2:
                items.append("%d:%d:%d:r%s" % (chunk, cap, chunk, rng.randbytes(chunk).hex()))
                continue
            if fmt and x < .25:     # nearly a marker
                m = bytearray(MARKER)
                m[rng.randrange(16)] ^= 1 << rng.randrange(8)
                items.append("%d:%d:%d:r%s" % (chunk, cap, chunk, (bytes(m) + rng.randbytes(chunk - 16)).hex()))
                continue
            if fmt and x < .4:      # already in its place
                items.append("%d:%d:%d:s%s" % (chunk, cap, chunk, (MARKER + bytes(8) + rng.randbytes(chunk - 24)).hex()))
                continue
            if fmt and x < .43 and not safe:
                z = rng.choice([chunk + 8, chunk * 2, 1 << 20, 1 << 32, (1 << 64) - 8])
                items.append("%d:%d:-1:s%s" % (chunk, cap, (MARKER + z.to_bytes(8, "little") + rng.randbytes(chunk - 24)).hex()))
                continue
            if x < .7:              # real data, compressed by the library
                d = codec.make_data(rng, chunk if rng.random() < .6 else 8 * rng.randrange(0, chunk // 8 + 1))
                if len(d) >= 8:
                    if fmt == 0 and len(d) * 69 / 64 + 16 > slotlen:
                        d = d[:slotlen // 2 & ~7]
                    if fmt and rng.random() < .5:    # compressible
                        d = (d[:64] * (chunk // len(d[:64]) + 1))[:chunk]
                    if rng.random() < .15 and not safe:
                        cap = rng.choice([0, 8, len(d) - 8, len(d) // 2, len(d)])
                        if fmt:
                            cap = chunk    # the chunk may turn out to be stored as it is
                    items.append("0:%d:%d:c%s" % (cap, len(d), d.hex()))
                    continue
            tag, b, ln, hw, *_ = rng.choice(ok) if safe else rng.choice(ss)
            if not safe and rng.random() < .3:
                b = codec.mutate(rng, b)
                tag, ln = "?", -1
            if len(b) > slotlen - (24 if fmt else 0):
                b = b[:slotlen - (24 if fmt else 0)]
                ln = -1
            if fmt:
                b = pad8(b)
                if len(b) == 0 or len(b) > chunk - 24:
                    b = bytes(8)
                    ln = -1
            if rng.random() < .25 and not safe:
                cap = min(chunk, max(0, rng.choice([0, 8, 16, ln, ln - 1, ln - 8, ln + 8, rng.randrange(chunk + 1)])))
            ln = ln if tag == "ok" and hw else -1
            items.append("%d:%d:%d:s%s" % (len(b) if fmt == 0 else chunk, cap, ln, (b if fmt == 0 else slot_of(b, chunk, rng)).hex()))
        jobs.append("K k%d %d %d %d %d %d %d %d %s" % (len(jobs), rng.randrange(1 << 30), flags, fmt, chunk, stride, tail, n, " ".join(items)))
    return jobs


def streams(ctx, num, salt):
    return codec.spec_streams(ctx, num, maxops=10, salt=salt, full=True) + codec.spec_streams(ctx, num, maxops=6, prefixes=codec.SMALL, salt=salt + 1, full=True)


def far(rng, ss, jobs):
    """very many chunks, and buffers in which offsets do not fit 32 bits"""
    def items(f, chunk, slot, m):
        fits = [x for x in ss if x[0] in ("ok", "badcrc", "unspec") and len(x[1]) <= slot - (24 if f else 0) and x[2] <= min(chunk, 4096)]
        ok = [x for x in fits if x[0] == "ok" and x[3] and x[2] > 0]
        out = []
        for k in range(m):
            b = rng.choice(ok if rng.random() < .7 else fits)[1]
            if f and rng.random() < .25:
                out.append("%d:%d:-1:r%s" % (chunk, chunk, rng.randbytes(chunk).hex()))
            elif f:
                b = pad8(b) if 0 < len(pad8(b)) <= chunk - 24 else bytes(8)
                out.append("%d:%d:-1:s%s" % (chunk, chunk, slot_of(b, chunk, rng).hex()))
            else:
                out.append("%d:%d:-1:s%s" % (len(b), rng.choice([4096, 4096, 4096, 8]), b.hex()))
        return out

    G = 1 << 32
    for f, c, s, n, io, oo, api in [(0, 512, 1024, 66000, 0, 0, 0), (0, 512, 1024, 65537, 8, 16, 1), (1, 1024, 1024, 65600, 0, 0, rng.randrange(2)),
                                    (2, 1024, 1024, 65600, 0, 0, rng.randrange(2)),
                                    (0, 1024, 1 << 28, 19, 0, 8, 1), (0, 1 << 28, 2048, 19, 0, 0, 1), (0, 512, 1024, 300, G + 8, G + 4096, 1), (0, 512, 1024, 5, 2 * G - 65536, G - 16, 1)]:
        m = 7
        jobs.append("F f%d %d %d %d %d %d %d %d %d %d %s" % (len(jobs), rng.randrange(1 << 30), f, c, s, n, io, oo, api, m, " ".join(items(f, c, min(s, 4096), m))))


def c14(ctx):
    rng = random.Random(ctx.seed * 17 + 3)
    exe = ctx.harness("cl_driver.cpp")
    ss = streams(ctx, ctx.scale(120, 800), 140)
    confs = [(0, 1024, 2048), (0, 4096, 1536), (0, 512, 1024), (1, 1024, 1024), (1, 4096, 4096), (2, 1024, 1024), (2, 2048, 2048)]
    if ctx.thorough:
        confs += [(0, 64, 200), (0, 8192, 8192), (1, 128, 128), (2, 128, 128), (2, 8192, 8192)]
    recs = []
    jobs = []
    for f, c, s in confs:
        batches(ctx, rng, ss, f, c, s, ctx.scale(14, 80), jobs=jobs)
        batches(ctx, rng, ss, f, c, s, ctx.scale(4, 20), flags=4, jobs=jobs)
    # more chunks than there are work items in a group
    for f, c, s in [(0, 512, 1024), (1, 1024, 1024), (2, 1024, 1024)]:
        for n in ctx.scale([256, 257], [255, 256, 257, 512, 513, 700]):
            items = []
            for i in range(n):
                if f == 0:
                    b = rng.choice([x for x in ss if len(x[1]) <= s and x[2] <= c])
                    items.append("%d:%d:-1:s%s" % (len(b[1]), c, b[1].hex()))
                else:
                    d = (rng.randbytes(24) * c)[:c]
                    items.append("0:%d:%d:c%s" % (c, c, d.hex()))
            jobs.append("K k%d %d 0 %d %d %d 0 %d %s" % (len(jobs), rng.randrange(1 << 30), f, c, s, n, " ".join(items)))
    far(rng, ss, jobs)
    recs = ctx.run_jobs(exe, jobs, "batches", timeout=120)
    for r in recs[:4]:
        d = json.loads(r)
        ctx.sample({"fmt": d["fmt"], "chunk": d["chunk"], "slot": bytes(d["slot"]).hex()[:120], "runs": d["runs"]})
    ctx.count("chunks", len(recs))
    ctx.count("runs", sum(r.count('"api":') for r in recs))
    ctx.validate(recs, "CLBatch", FMT, ["InvNoCrash", "InvChunks", "InvSame", "InvFrame"], "batches")


def kernel_bounds(ctx):
    """Part of C04: the kernel with buffers delimited by inaccessible pages"""
    rng = random.Random(ctx.seed * 19 + 5)
    exe = ctx.harness("cl_driver.cpp")
    ss = streams(ctx, ctx.scale(100, 800), 160)
    jobs = []
    for f, c, s in [(0, 1024, 2048), (0, 4096, 1024), (1, 1024, 1024), (2, 1024, 1024)]:
        batches(ctx, rng, ss, f, c, s, ctx.scale(40, 300), flags=1, maxn=4, jobs=jobs)
        if f == 0:
            batches(ctx, rng, ss, f, c, s, ctx.scale(30, 200), flags=3, maxn=2, jobs=jobs)
    recs = ctx.run_jobs(exe, jobs, "kernel-bounds", timeout=120)
    ctx.validate(recs, "CLBatch", FMT, ["InvNoCrash", "InvSpace", "InvFrame"], "kernel-bounds")


CFGS = "{<<1024,1024,0,0,0>>, <<512,1024,0,0,0>>, <<1024,2048,0,0,0>>, <<1024,1024,1,0,0>>, <<1024,1024,2,0,0>>, <<1024,1024,0,1,0>>, <<1024,1024,0,0,1>>, <<1024,1024,1,0,1>>, <<512,1024,0,1,0>>}"


def histories(ctx, num, maxlen):
    out = []
    procs = 4

    def one(k):
        return ctx.tlc("ClCache", {"Cfgs": vp.Subst("GenCfgs"), "MaxLen": maxlen, "RecFile": '"none"'}, spec="GSpec", workers=1, simulate=(num + procs - 1) // procs,
                       depth=maxlen + 3, seed=(ctx.seed * 7919 + k * 31 + 5) % (1 << 31), name="hist%d" % k, heap="1g")

    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(procs)):
            if not r["ok"]:
                raise RuntimeError("ClCache generator: " + r["out"][-2000:])
            out += [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"HIST ')]
            ctx.states += r.get("generated", 0)
            ctx.transitions += r.get("generated", 0)
    return out


def action(a):
    if a["op"] == "N":
        return "N" + "".join(":%s@%d" % ("/".join(map(str, c)), k) for c, k in zip(a["cfgs"], a["at"]))
    if a["op"] == "C":
        return "C:%s:%d%s" % ("/".join(map(str, a["cfg"])), a["w"], "r" if a["r"] else "")
    return {"D": "D", "T": "T:%d" % a["w"], "Z": "Z:%d:%d" % (a["w"], a["arg"]), "B": "B:%d" % a["arg"], "J": "J:%d" % a["w"]}[a["op"]]


def c15(ctx):
    ctx.check_model("ClCache", {"Cfgs": vp.Subst("SmallCfgs"), "MaxLen": 0, "RecFile": '"none"'}, invariants=["Correct"], what="ClCache (all histories)")
    race = {"Procs": "{1,2}", "Cfgs": "{1,2}", "Blocks": 2, "Replace": "TRUE"}
    ctx.check_model("ClCacheRace", race, invariants=["Correct", "Complete"], properties=["Done"], what="ClCacheRace (2 processes)")
    if ctx.tier != "quick":
        ctx.check_model("ClCacheRace", dict(race, Blocks=3), invariants=["Correct", "Complete"], properties=["Done"], what="ClCacheRace (2 processes, 3 blocks)")
        for b in (2, 3):
            ctx.check_model("ClCacheRace", dict(race, Procs="{1,2,3}", Blocks=b), invariants=["Correct", "Complete"], view="View", what="ClCacheRace (3 processes, %d blocks)" % b)
    exe = ctx.harness("cl_driver.cpp")
    rng = random.Random(ctx.seed)
    hs = [" ".join(map(action, h)) for h in histories(ctx, ctx.scale(60, 600), 12)]
    jobs = ["X x%d %d %d %s" % (i, rng.randrange(1 << 30), len(h.split()), h) for i, h in enumerate(hs)]
    # every configuration right after every other one, twice
    cfgs = re.findall(r"<<([0-9,]+)>>", CFGS)
    for a in cfgs:
        for b in cfgs:
            if a != b:
                acts = ["C:%s:-1" % c.replace(",", "/") for c in (a, b, b, a)]
                jobs.append("X x%d 1 %d %s" % (len(jobs), len(acts), " ".join(acts)))
    # interrupted or cut at every byte of the metadata
    c = cfgs[0].replace(",", "/")
    for k in range(0, 160, ctx.scale(7, 1)):
        acts = ["C:%s:-1" % c, "T:%d" % k, "C:%s:-1" % c, "C:%s:-1" % c]
        jobs.append("X x%d 1 %d %s" % (len(jobs), len(acts), " ".join(acts)))
    for f in range(8):
        for v in range(6):
            acts = ["C:%s:-1" % c, "Z:%d:%d" % (f, v), "C:%s:-1" % c, "C:%s:-1" % c]
            jobs.append("X x%d 1 %d %s" % (len(jobs), len(acts), " ".join(acts)))
    # one is constructed while another one is reading or writing the file
    near = [a.replace(",", "/") for a in cfgs[1:6]]
    nests = [(pre, c, k, b) for b in near for pre in ("", c, b) for k in range(12)]
    nests += [(pre, b, k, c) for b in near for pre in ("", c, b) for k in range(12)]
    # (reading the cache of its own configuration while it changes, always)
    must = [n for n in nests if n[0] == n[1] and n[2] <= 5]
    rest = [n for n in nests if n not in must]
    rng.shuffle(rest)
    for pre, a, k, b in must + rest[:ctx.scale(90, len(rest))]:
        acts = ["C:%s:-1" % pre] * (pre != "") + ["N:%s@%d:%s@99" % (a, k, b), "C:%s:-1" % a, "C:%s:-1" % b]
        jobs.append("X x%d 1 %d %s" % (len(jobs), len(acts), " ".join(acts)))
    recs = ctx.run_jobs(exe, jobs, "histories", timeout=200)
    recs = [r if '"steps"' in r else json.dumps(dict(json.loads(r), steps=[])) for r in recs] # (died without a word)
    for r in recs[:3]:
        ctx.sample(json.loads(r)["steps"][:4])
    for r in recs:
        for s in json.loads(r)["steps"]:
            if s["act"] == "C":
                ctx.count("constructions")
                ctx.count("from cache" if s["bin"] and not s["src"] else "cache refused by OpenCL" if s["bin"] else "from source")
    ctx.validate(recs, "ClCache", {"Cfgs": "{}", "MaxLen": 0}, ["InvNoCrash", "InvSucceeds", "InvResult", "InvOwn"], "histories",
                 spec="TSpec", view=None, alias="TShown")


CHECKS = {"C14": c14, "C15": c15}
