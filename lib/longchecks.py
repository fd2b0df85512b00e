"""Calls with inputs, outputs or capacities of 4 GiB and more (LongRuns.tla, LongModel.tla, LongTrace.tla)."""
import json, random
from concurrent.futures import ThreadPoolExecutor

FMT = {"I2Bits": 8, "I4Bits": 9, "I8Bits": 8}
G4 = 1 << 32
TABLE = []
for _b in range(256):
    _c = _b << 24
    for _ in range(8):
        _c = ((_c << 1) ^ 0x04C11DB7 if _c & 0x80000000 else _c << 1) & 0xffffffff
    TABLE.append(_c)


def crc_bytes(c, data):
    for x in data:
        c = ((c << 8) & 0xffffffff) ^ TABLE[(c >> 24) ^ x]
    return c


def crc_run(c, v, n):
    """checksum c continued by n blocks v"""
    apply = lambda m, x: __import__("functools").reduce(lambda a, i: a ^ (m[i] if x >> i & 1 else 0), range(32), 0)
    m, add = [crc_bytes(1 << i, bytes(8)) for i in range(32)], crc_bytes(0, v)
    while n:
        if n & 1:
            c = apply(m, c) ^ add
        add = apply(m, add) ^ add
        m = [apply(m, x) for x in m]
        n >>= 1
    return c


class Stream:
    """A stream in runs of operations, and what it decodes to as far as the checksum needs it"""
    def __init__(self):
        self.ops, self.crc, self.len, self.last = [], 0, 0, None

    def add(self, op, args, v, n, blocks=None):
        self.ops.append("%d:%s*%d" % (op, args, n))
        blocks = n if blocks is None else blocks
        self.crc, self.len, self.last = crc_run(self.crc, v, blocks), self.len + blocks, v
        return self

    def data(self, v, n=1): return self.add(0, "d" + v.hex(), v, n)
    def zeros(self, n=1): return self.add(28, "", bytes(8), n)
    def repeat(self, n, k=64): return self.add(27, "i%d" % (k - 1), self.last, n, n * k)
    def ref8(self, block, v): return self.add(25, "i%d" % (block % 256), v, 1)

    def end(self, crc=None):
        c = self.crc if crc is None else crc
        self.ops.append("30:c%08x*1" % c)
        return " ".join(self.ops)


def job_g(k, cap, decs, extra, ops): return "G g%s %d %s %d %s" % (k, cap, decs, extra, ops)


def check(ctx, jobs, invs, name, shards=3):
    ctx.check_model("LongModel", {"I2Bits": 2, "I4Bits": 2, "I8Bits": 1, "MaxOps": ctx.scale(2, 3), "MaxN": ctx.scale(2, 3)},
                    invariants=["InvSame", "InvMerged"], what="LongRuns (against the plain decoder)")
    exe = ctx.harness("long_driver.cpp", "plain")
    recs = ctx.run_jobs(exe, jobs, name, shards=shards, timeout=700)
    # ended from outside, for want of memory: says nothing about the library
    # or there is no such amount of address space
    kept = [r for r in recs if json.loads(r)["fault"] not in (1009, 77)]
    if len(kept) < len(recs):
        ctx.log("%d calls beyond 4 GiB were killed" % (len(recs) - len(kept)))
    if not kept:
        return
    ctx.sample(json.loads(kept[0]))
    ctx.count("calls beyond 4 GiB", len(kept))
    ctx.validate(kept, "LongTrace", FMT, ["InvNoFault"] + invs, name)


class Beside:
    """with Beside(check, ctx): what follows runs at the same time"""
    def __init__(self, fn, ctx):
        ctx.lib("plain")
        self.ex = ThreadPoolExecutor(1)
        self.f = self.ex.submit(fn, ctx)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.result()


def specials(rng, blocks):
    """a few blocks that are not zero: at both ends, around 4 GiB, and again within reach of a reference"""
    at = {}
    vs = [rng.randbytes(8) for _ in range(6)]
    for b in (1, 5, 300):
        at[b] = rng.choice(vs)
    g = G4 // 8
    for b in (g - 2, g, g + 3, g + 7, g + 8):
        at[b] = vs[b % 3]
    at[blocks - 1] = vs[5]
    return " ".join("%d:%s" % (b, v.hex()) for b, v in sorted(at.items()) if b < blocks)


def encode_jobs(ctx, decs):
    rng = random.Random(ctx.seed * 13 + 1)
    blocks = G4 // 8 + rng.randrange(20, 600)
    cap = 64 << 20
    return ["E e1 1 %d %s %d %s %s" % (blocks, decs[0], cap, rng.randbytes(3).hex(), specials(rng, blocks)),
            "E e2 2 %d %s %d - %s" % (blocks, decs[1], cap, specials(rng, blocks))]


def roundtrip(ctx):
    check(ctx, encode_jobs(ctx, ["1", "12"]), ["InvEncodes", "InvDecodes"], "long")


def sizes(ctx):
    check(ctx, encode_jobs(ctx, "--"), ["InvEncodes", "InvSize"], "long")


def repeats(ctx):
    check(ctx, encode_jobs(ctx, "--"), ["InvTight"], "long")


def references(ctx):
    rng = random.Random(ctx.seed * 13 + 2)
    jobs, g = [], G4 // 8
    a, b, c, d = (rng.randbytes(8) for _ in range(4))
    # the blocks at the same places modulo 4 GiB are different ones
    s = Stream().data(a, 3).zeros().repeat((g - 4) // 64).repeat(1, (g - 5) % 64 or 1)
    while s.len < g + 2:
        s.zeros()
    s.data(b).data(c)
    at = s.len - 2
    s.ref8(at, b).ref8(at + 1, c).ref8(at + 1, c).zeros().repeat(5)
    s.add(28, "", bytes(8), 1).data(d).ref8(s.len - 1, d)
    # halves: four-byte and two-byte references to the block d
    p = s.len - 1
    s.add(24, "i%d,i%d" % (2 * p % 512 + 1, 2 * p % 512), d[4:] + d[:4], 1)
    s.add(18, ",".join("i%d" % ((4 * p + x) % 256) for x in (3, 0, 2, 1)), d[6:] + d[:2] + d[4:6] + d[2:4], 1)
    jobs.append(job_g(0, 8 * s.len, "12", 0, s.end()))
    # a stream that is itself longer than 4 GiB
    s = Stream().data(a).data(b, g * 64 // 69 + 7).data(c)
    s.ref8(s.len - 1, c)
    s.ref8(s.len - 3, b)
    jobs.append(job_g(1, 8 * s.len + 8, "12", 0, s.end()))
    check(ctx, jobs, ["InvDecodes"], "long", shards=2)


def spaces(ctx):
    rng = random.Random(ctx.seed * 13 + 3)
    jobs, g = [], G4 // 8
    small = Stream().data(rng.randbytes(8)).zeros(3).repeat(2)
    ops = small.end()
    # capacities and input lengths beyond 32 bits, of which next to nothing is used
    for k, cap in enumerate([G4 - 8, G4, G4 + 8, G4 + 3, 2 * G4, 2 * G4 + 64]):
        jobs.append(job_g("c%d" % k, cap, "12", 0, ops))
    for k, extra in enumerate([G4 - 8, G4, G4 - 24, G4 + 1, 3 * G4]):
        jobs.append(job_g("i%d" % k, 8 * small.len, "1" if extra % 8 else "12", extra, ops))
    # and beyond 32 bits counted in words, or 35 in bits
    T = 8 * G4
    for k, (cap, extra) in enumerate([(T, 0), (T + 16, 0), (2 * T + 64, 8), (64, T), (8 * small.len, T + 24), (4 * T, 2 * T)]):
        jobs.append(job_g("t%d" % k, cap, "12", extra, ops))
    for k, (impl, blocks, cap) in enumerate([(1, 40, T), (2, 40, T), (1, 3, T + 8), (2, 3, T + 16), (2, 40, 2 * T + 64), (1, 3, 2 * T + 1), (2, 40, 4 * T)]):
        jobs.append("E t%d %d %d 12 %d - 0:%s" % (k, impl, blocks, cap, rng.randbytes(8).hex()))
    for k, (impl, blocks, cap) in enumerate([(1, 40, G4), (2, 40, G4), (1, 3, G4 + 8), (2, 3, G4 + 16), (1, 3, 2 * G4 + 8), (2, 3, 2 * G4 + 8)]):
        jobs.append("E s%d %d %d 12 %d - 0:%s" % (k, impl, blocks, cap, rng.randbytes(8).hex()))
    # the space is exact beyond 4 GiB, too
    s = Stream().data(rng.randbytes(8)).repeat(g // 64).zeros(2)
    jobs.append(job_g("x", 8 * s.len - 8, "12", 0, s.end()))
    check(ctx, jobs, ["InvEncodes", "InvDecodes"], "long")


def checksums(ctx):
    rng = random.Random(ctx.seed * 13 + 4)
    g = G4 // 8
    a, b = rng.randbytes(8), rng.randbytes(8)
    jobs = []
    # the checksum of what is beyond a multiple of 4 GiB only, or of what is before it
    s = Stream().data(a).repeat(g // 64).zeros(2)
    jobs.append(job_g("low", 8 * s.len, "12", 0, s.end(crc_run(crc_run(0, a, 1), bytes(8), 2))))
    s = Stream().data(a).repeat(g // 64).zeros(2)
    jobs.append(job_g("ok", 8 * s.len, "12", 0, s.end()))
    check(ctx, jobs, ["InvDecodes"], "long", shards=2)
