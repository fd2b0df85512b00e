"""Check of the high-level-synthesis tokenizer: C19 (HlsTokens.tla, HlsTokenizer.tla, HlsTrace.tla)."""
import glob, json, os, random
from concurrent.futures import ThreadPoolExecutor
import build, codec, vp

FMT = codec.FMT
# bits of the parameters; only used to fill them in, the specification has its own
PARAM = [64, 56, 56, 48, 41, 56, 48, 48, 40, 33, 56, 48, 48, 40, 33, 48, 40, 40, 32, 25, 41, 33, 33, 25, 18, 8, 0, 6, 0, 0, 0, 0]
END = 30


def driver(ctx):
    """The tokenizer as it is in the repository, against stand-ins for the vendor's headers."""
    exe = ctx.path("hls_driver")
    src = os.path.join(build.REPO, "src/hls/842_decomp.cpp")
    build.run(["clang++", "-std=c++17", "-O1", "-w", "-I", os.path.join(build.VERIF, "harness/stub/hls"), "-I", os.path.dirname(src),
               "-I", os.path.join(build.REPO, "include"), "-I", os.path.join(build.REPO, "src/common"),
               '-DVP_HLS_SOURCE="%s"' % src, os.path.join(build.VERIF, "harness/hls_driver.cpp"), "-o", exe])
    return exe


def fill(rng, ops, style):
    b = codec.Bits()
    for op in ops:
        n = PARAM[op]
        b.put(op, 5)
        # parameters that look like operations of their own if a bit is lost
        v = rng.getrandbits(n) if n else 0
        if style == 1:
            v = int(("11110" * 14)[:n] or "0", 2)
        elif style == 2:
            v = (1 << n) - 1
        elif style == 3:
            v = 0
        b.put(v, n)
    return b


def programs(ctx, num, maxops):
    def one(k):
        return ctx.tlc("HlsTokenizer", dict(FMT, Buffer=266, Low=138, MaxWords=1, MaxOps=maxops), spec="GSpec", workers=1, simulate=(num + 3) // 4,
                       depth=maxops + 4, seed=(ctx.seed * 7001 + k * 13 + 5) % (1 << 31), name="hls%d" % k, heap="1g")
    out = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, range(4)):
            if not r["ok"]:
                raise RuntimeError("HlsTokenizer generator: " + r["out"][-2000:])
            out += [json.loads(json.loads(l)[5:])["ops"] for l in r["out"].splitlines() if l.startswith('"HIST ')]
            ctx.states += r.get("generated", 0)
            ctx.transitions += r.get("generated", 0)
    return out


def c19(ctx):
    ctx.check_model("HlsTokenizer", dict(FMT, Buffer=266, Low=138, MaxWords=ctx.scale(16, 64), MaxOps=1), invariants=["InvFits", "InvThere", "InvNoLoss", "InvEnd", "InvForced"],
                    what="HlsTokenizer (every sequence of operations)")
    ctx.check_model("HlsTokenizer", dict(FMT, Buffer=266, Low=138, MaxWords=ctx.scale(4, 12), MaxOps=1), properties=["Termination"], spec="LiveSpec", what="HlsTokenizer (termination)")
    # the design's threshold is tight: with a larger one the register overflows, with a smaller one an operation may be cut
    for bad in (dict(Buffer=266, Low=140), dict(Buffer=264, Low=138), dict(Buffer=266, Low=137)):
        r = ctx.tlc("HlsTokenizer", dict(FMT, MaxWords=8, MaxOps=1, **bad), invariants=["InvFits", "InvThere"])
        if not r["violated"]:
            raise RuntimeError("HlsTokenizer accepts %s" % bad)
    rng = random.Random(ctx.seed * 31 + 7)
    data = []
    for ops in programs(ctx, ctx.scale(1600, 12000), 40):
        b = fill(rng, ops, rng.choice([0, 0, 0, 1, 2, 3]))
        x = rng.randrange(6)
        if x < 3:
            b.put(END, 5)
            b.put(rng.getrandbits(32), 32)
        elif x == 3:      # something after the end
            b.put(END, 5)
            b.put(rng.getrandbits(200), rng.randrange(200))
        elif x == 4 and b.n > 8:     # cut in the middle, at the end of a word
            b = b.bytes()
            data.append(b[:len(b) // 16 * 16])
            continue
        data.append(b.bytes())
    # every boundary of a word inside every operation, with and without an end
    for op in [o for o in range(32) if o not in (END, 26, 29, 31)]:
        for lead in range(0, 128, ctx.scale(3, 1)):
            n, pre = lead, []
            while n >= 5:
                if n >= 11 and n % 5:
                    pre.append(27)
                    n -= 11
                else:
                    pre.append(28)
                    n -= 5
            b = fill(rng, pre, 0)
            t = fill(rng, [op] * rng.randrange(1, 5), rng.choice([0, 0, 1, 2]))
            b.put(t.v, t.n)
            if rng.random() < .6:
                b.put(END, 5)
            data.append(b.bytes())
            if rng.random() < .3:
                k = -b.n % 128         # nothing, or less than an operation, left in the last word
                if k:
                    b.put((1 << k) - 1 if rng.random() < .5 else 0b11110 << max(0, k - 5), k)
                data.append(b.bytes())
    for n in range(1, 40):              # a word filled to the last bit
        for tail in (27, 28):
            room = 128 * ((n % 4) + 1)
            ops = []
            while room >= 5:
                fit = [o for o in range(30) if o not in (26, 29) and PARAM[o] + 5 <= room]
                o = rng.choice(fit)
                ops.append(o)
                room -= PARAM[o] + 5
            b = fill(rng, ops, n % 4)
            b.put((1 << room) - 1 if tail == 27 else 0, room)
            data.append(b.bytes())
    for tag, b in codec.spec_streams(ctx, ctx.scale(300, 3000), salt=19, prefixes="{0, 8, 64}"):
        data.append(b)
        if rng.random() < .3:
            data.append(codec.mutate(rng, b))
    for _ in range(ctx.scale(200, 3000)):
        data.append(bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 200))))
    jobs = []
    for b in data:
        if not 0 < len(b) <= 1200:
            b = b[:1200] or b"\xf0"
        jobs.append("H t%d %s" % (len(jobs), b.hex()))
    try:
        exe = driver(ctx)
    except Exception as e:   # something of the vendor's headers that the stand-ins do not have
        print("C19: the tokenizer does not compile against the stand-ins, nothing was replayed: %s" % str(e)[:500])
        return
    recs = ctx.run_jobs(exe, jobs, "hls", timeout=10)
    for r in recs[:3]:
        ctx.sample({"in": json.loads(r)["in"][:32], "tokens": len(json.loads(r)["toks"])})
    ctx.count("streams", len(recs))
    ctx.count("tokens", sum(len(json.loads(r)["lasts"]) for r in recs))
    ctx.validate(recs, "HlsTrace", FMT, ["InvEnds", "InvTokens", "InvOneEnd"], "hls")


CHECKS = {"C19": c19}
