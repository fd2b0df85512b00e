"""Checks of the codec: C01 - C06, C16, C17 (records validated against CodecTrace.tla), C07 (Chunked.tla)."""
import json, os, random, struct, subprocess

import build
import longchecks
import ptx
from concurrent.futures import ThreadPoolExecutor

FMT = {"I2Bits": 8, "I4Bits": 9, "I8Bits": 8}
HDR = "codec_driver.cpp"


# ---------------------------------------------------------------- streams generated by the specification
class Bits:
    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, v, w):
        self.v, self.n = (self.v << w) | (v & ((1 << w) - 1)), self.n + w

    def bytes(self):
        pad = -self.n % 8
        return (self.v << pad).to_bytes((self.n + pad) // 8, "big")


def pack(rec):
    out, cur = bytearray(), Bits()
    pairs = []
    pre = rec["pre"]
    for i in range(0, len(pre), 8):
        cur.put(0, 5)
        cur.put(int.from_bytes(bytes(pre[i:i + 8]), "big"), 64)
        if cur.n % 8 == 0:
            out += cur.bytes()
            cur = Bits()
    for v, w in rec["ops"]:
        cur.put(v, w)
    nbits = len(out) * 8 + cur.n
    return bytes(out + cur.bytes()), nbits


PREFIXES = "{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 62, 63, 64, 65, 66, 96, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 258, 300, 320, 384, 448, 511, 512, 513}"
SMALL = "{0, 0, 1, 2, 5, 8, 63, 64, 65}"


def spec_streams(ctx, num, maxops=12, prefixes=PREFIXES, salt=0, full=False):
    """num streams written by GenStreams.tla, as (tag, bytes), or (tag, bytes,
    decoded length, hardware subset only, number of bits, what follows in memory)"""
    procs = min(8, max(1, num // 20))
    per = (num + procs - 1) // procs

    def one(k):
        r = ctx.tlc("GenStreams", dict(FMT, MaxOps=maxops, PrefixLens=prefixes), workers=1, simulate=per, depth=maxops + 5,
                    seed=(ctx.seed * 1000003 + salt * 131 + k * 7 + 1) % (1 << 31), name="gen%d" % k, heap="1g", timeout=600)
        if not r["ok"]:
            raise RuntimeError("GenStreams failed: " + r["out"][-2000:])
        return r

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    out, seen = [], set()
    rng = random.Random(ctx.seed * 77 + salt)
    gen = 0
    for r in rs:
        gen += r.get("generated", 0)
        for line in r["out"].splitlines():
            if not line.startswith('"STREAM '):
                continue
            rec = json.loads(json.loads(line)[7:])
            b, nbits = pack(rec)
            tag, tail = rec["tag"], b""
            if tag == "cut":
                # anywhere: in the middle of an operation, between two
                k = rng.randrange(len(b) + 1)
                b, tail = b[:k], b[k:]
            else:
                x = rng.randrange(8)
                pad = -len(b) % 8
                if x < 4:
                    b += bytes(pad)
                elif x == 4:
                    b += bytes(rng.randrange(256) for _ in range(pad))
                elif x == 5:
                    b += bytes(rng.randrange(256) for _ in range(pad + 8 * rng.randrange(1, 5)))
                elif x == 6 and nbits % 8:
                    b = b[:-1] + bytes([b[-1] | rng.randrange(1 << (-nbits % 8))]) + bytes(pad)
                # otherwise: no padding to 8 bytes at all
            if (tag, b) in seen:
                continue
            seen.add((tag, b))
            ctx.count("stream:" + tag)
            for v, w in rec["ops"]:
                if w == 5:
                    ctx.count("op:%02x" % v)
            out.append((tag, b, rec["len"], rec["hw"], nbits, tail) if full else (tag, b))
    ctx.states += gen
    ctx.transitions += gen
    ctx.models.append({"model": "GenStreams (simulation, streams replayed into the decoders)", "states_generated": gen,
                       "streams": len(out)})
    ctx.log("GenStreams: %d distinct streams" % len(out))
    return out


def crc(data):
    c = 0
    for b in data:
        c ^= b << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x04C11DB7) & 0xffffffff if c & 0x80000000 else c << 1
    return c


def minimal_streams(rng):
    """The shortest streams, as (bytes, number of bits)"""
    out = []
    for ops, data in [([], b""), ([(28, 5)], bytes(8)), ([(28, 5), (28, 5)], bytes(16)), ([(28, 5), (27, 5), (63, 6)], bytes(520)),
                      ([(29, 5), (1, 3), (0, 8)], b"\0"), ([(29, 5), (1, 3), (7, 8)], b"\7"), ([(29, 5), (7, 3), (1 << 50, 56)], (1 << 50).to_bytes(7, "big")),
                      ([(0, 5), (0, 64)], bytes(8)), ([(0, 5), (1, 64)], b"\0\0\0\0\0\0\0\1"), ([(0, 5), (1 << 63, 64), (25, 5), (0, 8)], (b"\x80" + bytes(7)) * 2)]:
        w = Bits()
        for v, n in ops + [(30, 5), (crc(data), 32)]:
            w.put(v, n)
        nbits = w.n
        for pad in {0, -((nbits + 7) // 8) % 8}:
            out.append((w.bytes() + bytes(pad), nbits))
    return out


SPECIAL = (0, 0, 0xffffffff, 0x80000000, 1, 0xffff0000, 0xffff, 0xff000000)


def forced(data, want):
    """4 bytes which make want the checksum of data followed by them"""
    c = want
    for _ in range(32):
        c = (((c ^ 0x04C11DB7) >> 1) | 0x80000000) if c & 1 else c >> 1
    return (c ^ crc(data)).to_bytes(4, "big")


def special_checksum(rng):
    x = rng.randrange(3)
    return rng.choice(SPECIAL) if x == 0 else rng.randrange(1 << 32) & -(1 << rng.randrange(1, 32)) if x == 1 else rng.randrange(1 << rng.randrange(1, 32))


def special_data(rng, L):
    """Data with a checksum out of the ordinary"""
    d = make_data(rng, max(0, L - 4))
    return d + forced(d, special_checksum(rng))


def special_streams(rng, n):
    """Streams whose checksum is out of the ordinary (zero, trailing zeros, ...), ending anywhere in a word, as (bytes, number of bits)"""
    out = []
    for k in range(n):
        w, data = Bits(), b""
        for _ in range(rng.randrange(13)):
            if rng.random() < .8 or not data:
                w.put(28, 5)
                data += bytes(8)
            else:
                w.put(27, 5)
                w.put(1, 6)
                data += data[-8:] * 2
        kind = k % 4
        if kind == 0:         # zeros only: their checksum is zero
            w, z = Bits(), k // 4 % 40
            data = bytes(8 * z)
            for _ in range(z):
                w.put(28, 5)
        elif kind == 3:       # short data
            t = forced(data, special_checksum(rng))
            if rng.random() < .5:
                x = rng.randbytes(rng.randrange(4))
                t = x + forced(data + x, special_checksum(rng))
            w.put(29, 5)
            w.put(len(t), 3)
            w.put(int.from_bytes(t, "big"), 8 * len(t))
            data += t
        else:
            x = rng.randbytes(4)
            t = x + forced(data + x, special_checksum(rng))
            w.put(0, 5)
            w.put(int.from_bytes(t, "big"), 64)
            data += t
        w.put(30, 5)
        w.put(crc(data), 32)
        out.append((w.bytes() + bytes(-((w.n + 7) // 8) % 8), w.n))
    return out


def mutate(rng, b):
    """A corrupted copy of a stream"""
    b = bytearray(b)
    k = rng.randrange(7)
    if not b:
        return bytes([rng.randrange(256)])
    if k == 0:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k == 1:
        b[rng.randrange(len(b))] = rng.randrange(256)
    elif k == 2:
        b = b[:rng.randrange(len(b))]
    elif k == 3:
        i = rng.randrange(len(b) * 8)
        for j in range(rng.randrange(1, 33)):   # burst
            if i + j < len(b) * 8 and rng.random() < .5:
                b[(i + j) // 8] ^= 0x80 >> ((i + j) % 8)
    elif k == 4:
        i = rng.randrange(len(b))
        del b[i:i + rng.randrange(1, 9)]
    elif k == 5:
        i = rng.randrange(max(1, len(b) - 12), len(b) + 1) - 1   # near the checksum
        b[i] ^= 1 << rng.randrange(8)
    else:
        i, j = rng.randrange(len(b)), rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    return bytes(b)


def random_streams(rng, n):
    """Bytes that no generator of well-formed streams would write"""
    out = [b"", b"\xf0", bytes(8), b"\xff" * 16, b"\xf0" + bytes(7), b"\xd8" * 16, b"\xe0" * 24]
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 40, 64, 100])
        x = rng.randrange(4)
        if x == 0:
            b = bytes(rng.randrange(256) for _ in range(k))
        elif x == 1:   # zeros or repeats, endlessly
            b = bytes([rng.choice([0xe7, 0x39, 0xce, 0x73, 0x9c])]) * k
        elif x == 2:
            v = 0
            for _ in range(k * 8 // 5 + 1):
                v = v << 5 | rng.choice([28, 27, 25, 24, 29, 30, 18, 0])
            b = v.to_bytes(k + 8, "big")[-k:]
        else:
            b = bytes([0xe0]) + bytes(rng.randrange(256) for _ in range(k))
        out.append(b)
    return out


# ---------------------------------------------------------------- data to compress
def data_inputs(rng, n, maxlen=2600, mult8=None):
    out = []
    for _ in range(n):
        L = rng.choice([rng.randrange(0, 41), 8 * rng.randrange(0, 12), rng.randrange(0, 300), 8 * rng.randrange(0, 80),
                        rng.choice([504, 512, 520, 528, 1024, 2040, 2048, 2056, 2064, 4088, 4096, 4104]),
                        rng.randrange(0, maxlen), 8 * rng.randrange(0, maxlen // 8)])
        L = min(L, maxlen)
        if mult8 or (mult8 is None and rng.random() < .6):
            L -= L % 8
        out.append(make_data(rng, L))
    return out


def make_data(rng, L):
    kind = rng.randrange(9)
    rb = rng.randbytes
    if kind == 0:
        return rb(L)
    if kind == 1:
        return bytes(L)
    if kind == 2:
        p = rb(rng.choice([1, 2, 3, 4, 6, 8, 8, 12, 16, 24, 32, 64, 200, 510, 512, 514, 2040, 2048, 2056]))
        return (p * (L // len(p) + 1))[:L]
    if kind == 3:
        words = [rb(2) for _ in range(rng.choice([2, 3, 5, 16, 300]))]
        return b"".join(rng.choice(words) for _ in range(L // 2 + 1))[:L]
    b = bytearray()
    while len(b) < L:
        x = rng.randrange(10)
        if x < 2:
            b += rb(8)
        elif x == 2:
            b += bytes(8 * rng.choice([1, 1, 2, 3, 63, 64, 65, 66]))
        elif x == 3:
            b += (bytes(b[-8:]) if len(b) >= 8 and rng.random() < .7 else rb(8)) * rng.choice([1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 130])
        elif b:
            # pieces of earlier data, often at the edge of what the rings still hold
            blk = bytearray()
            while len(blk) < 8:
                sz = rng.choice([2, 2, 4, 8]) if len(blk) == 0 else rng.choice([2, 4]) if len(blk) == 4 else 2
                dist = rng.choice([512, 510, 514, 2048, 2046, 2050, 2044, 2052, 2040, 2056, 8, 16,
                                   rng.randrange(2, len(b) + 2), rng.randrange(2, 600)])
                dist = min(dist, len(b))
                s = len(b) - dist
                s -= s % sz
                piece = bytes(b[s:s + sz])
                if rng.random() < .25 or len(piece) < sz:
                    piece = rb(sz)
                blk += piece
            b += blk[:8]
        else:
            b += rb(8)
    b = bytes(b[:L])
    return b


def hx(b):
    return b.hex() if b else "-"


class Jobs:
    def __init__(self, ctx):
        self.ctx, self.rng, self.jobs = ctx, random.Random(ctx.seed * 31 + 7), []

    def add(self, t, data, flags, tail=None):
        """tail: what lies behind the data in memory, where that is accessible"""
        self.jobs.append("%s %s%d %d %d %s%s" % (t, t.lower(), len(self.jobs), self.rng.randrange(1 << 30), flags, hx(data),
                                                 "+" + tail.hex() if tail else ""))

    def file(self, t, data, flags):
        p = self.ctx.path("in%d" % len(self.jobs))
        with open(p, "wb") as f:
            f.write(data)
        self.jobs.append("%s %s%d %d %d @%s" % (t, t.lower(), len(self.jobs), self.rng.randrange(1 << 30), flags, p))


def validate(ctx, recs, invs, name, **kw):
    for r in recs[:2] + recs[len(recs) // 2:len(recs) // 2 + 2]:
        d = json.loads(r)
        ctx.sample({"t": d["t"], "in": bytes(d["in"]).hex()[:160], "calls": d["calls"][:4]})
    return ctx.validate(recs, "CodecTrace", FMT, invs, name, **kw)


def calls_in(recs):
    return sum(r.count('"impl":') for r in recs)


def run(ctx, jobs, invs, name, variant="plain", timeout=90):
    exe = ctx.harness(HDR, variant)
    recs = ctx.run_jobs(exe, jobs, name, timeout=timeout)
    ctx.count("calls", calls_in(recs))
    return validate(ctx, recs, invs, name), recs


def model(ctx):
    """The design of the format, exhaustively, with small constants"""
    ctx.check_model("CodecModel", {"I2Bits": 2, "I4Bits": 2, "I8Bits": 1, "MaxBlocks": ctx.scale(4, 5), "MaxRep": 3},
                    invariants=["Agree", "NoLoss", "RingsAgree", "Windowed"], what="CodecModel (rings of 1 and 2 blocks)")


# ---------------------------------------------------------------- the checks
def c01(ctx):
    model(ctx)
    J = Jobs(ctx)
    for d in data_inputs(ctx.rng, ctx.scale(260, 3000)):
        J.add("C", d, 1 | 2)
    for n in range(0, 20):
        J.add("C", ctx.rng.randbytes(n), 1 | 2)
    for d in data_inputs(ctx.rng, ctx.scale(6, 20), 200):
        J.add("C", d, 8 | 2 | 1)
    # what the generator of streams decodes to is data in which every kind of reference occurs
    for L in ctx.scale([8192, 40000, 65536, 99992, 131072], [8192, 40000, 65536, 65544, 99992, 99999, 100000, 131072, 262144, 524288, 1 << 20]):
        J.file("C", make_data(random.Random(L + ctx.seed), L), 1 | 2)
    J.file("C", ctx.rng.randbytes(ctx.scale(100000, 1 << 20)), 1 | 2)   # compressed size beyond 99999
    run(ctx, J.jobs, ["InvNoCrash", "InvEncodes", "InvRoundTrip", "InvAccepts"], "roundtrip")


def decode_jobs(ctx, n, flags=1, salt=0, full=False):
    J = Jobs(ctx)
    ss = spec_streams(ctx, n, salt=salt, full=True) + spec_streams(ctx, n // 2, maxops=6, prefixes=SMALL, salt=salt + 1, full=True)
    for _, b, _, _, _, tail in ss:
        J.add("D", b, flags, tail)
    return J, ss if full else [x[:2] for x in ss]


def altered_crcs(rng, b, nbits, every):
    """The stream (of nbits bits, checksum last) with its checksum altered, in every single bit or in a few ways"""
    v, n = int.from_bytes(b, "big"), len(b) * 8
    sh = n - nbits
    alts = [1 << k for k in (range(32) if every else rng.sample(range(32), 2))]
    alts += [0xffffffff, (v >> sh) & 0xffffffff, rng.randrange(1, 1 << 32), 0xffff, 0xffff0000, 0xff, 0x101]
    return [(v ^ (a << sh)).to_bytes(len(b), "big") for a in alts if a]


def c02(ctx):
    model(ctx)
    J, ss = decode_jobs(ctx, ctx.scale(800, 12000), full=True)
    long = spec_streams(ctx, ctx.scale(30, 200), maxops=ctx.scale(150, 400), prefixes=SMALL, salt=9)
    for _, b in long:
        J.add("D", b, 1 | 2)
    cuda(ctx, ss + [x for x in spec_streams(ctx, ctx.scale(60, 1000), maxops=40, prefixes="{0, 0, 1, 5, 40, 63, 64, 65, 100}", salt=12, full=True)])
    run(ctx, J.jobs, ["InvNoCrash", "InvFormat"], "format")


def cuda(ctx, streams):
    """The kernel of the CUDA back end, which decodes well-formed streams of the hardware subset (it reports nothing)"""
    exe, why = ptx.build(build.REPO, ctx.path("cuda"))
    if not exe:
        ctx.log("CUDA kernel not covered: %s" % why)
        ctx.count("cuda:not translated")
        return
    rng, jobs = random.Random(ctx.seed * 17 + 3), []
    for t, b, n, hw, *_ in streams:
        if t == "ok" and hw:
            # the slots of a chunk: 2048 bytes of stream, 1024 of data; the first one of a grid has no limit
            chunk = rng.choice([0, 1, 2, 31, 32, 100]) if n <= 1024 and len(b) <= 2040 else 0
            jobs.append("u%d %d %d %d %d %s" % (len(jobs), chunk, rng.choice([1, 2, 32]), n, rng.choice([0, 0, 64, 4096 - n % 4096]), hx(b + bytes(-len(b) % 8))))
    jf = ctx.path("cuda.jobs")
    with open(jf, "w") as f:
        f.write("\n".join(jobs) + "\n")
    r = subprocess.run([exe, jf], capture_output=True, text=True, timeout=300)
    recs = r.stdout.splitlines()
    if r.returncode or len(recs) != len(jobs):
        raise RuntimeError("cuda_driver: %d of %d records, status %d %s" % (len(recs), len(jobs), r.returncode, r.stderr[-500:]))
    ctx.count("cuda:streams", len(recs))
    validate(ctx, recs, ["InvNoFault", "InvFormat"], "cuda")


def c03(ctx):
    # malformed streams decoded into memory of zeros, too: what is referred to must not matter
    J, ss = decode_jobs(ctx, ctx.scale(700, 8000), flags=1 | 2 | 256, salt=20, full=True)
    rng = ctx.rng
    for t, b, *_ in ss:
        if t != "ok":
            continue
        J.add("D", mutate(rng, b), 2 | (rng.randrange(3) == 0))
        J.add("D", mutate(rng, mutate(rng, b)), 2)
    ok = [(b, nbits) for t, b, _, _, nbits, _ in ss if t == "ok" and len(b) <= 64]
    for b, nbits in ok[:ctx.scale(16, 80)]:   # truncated at every byte, the rest lying right behind
        for k in range(len(b)):
            J.add("D", b[:k], 2 | (rng.randrange(4) == 0), b[k:])
    for b, nbits in ok[:ctx.scale(100, 1000)]:   # truncated within the checksum or the word that contains it
        k = rng.randrange(max(0, (nbits + 7) // 8 - 10), (nbits + 7) // 8)
        J.add("D", b[:k], 2 | (rng.randrange(4) == 0), b[k:])
        for m in altered_crcs(rng, b, nbits, False)[:3]:
            J.add("D", m, 2)
    # truncated where nothing but zeros is missing
    for b, nbits in special_streams(rng, ctx.scale(200, 2000)):
        J.add("D", b, 2)
        for k in range(max(0, len(b) - 13), len(b)):
            if k % 8 == 0 or rng.random() < .2:
                J.add("D", b[:k], 2 | (rng.randrange(4) == 0), b[k:])
    for b in random_streams(rng, ctx.scale(300, 3000)):
        J.add("D", b, 2 | (rng.randrange(4) == 0))
    run(ctx, J.jobs, ["InvNoCrash", "InvReject"], "malformed")


def c04(ctx):
    J, ss = decode_jobs(ctx, ctx.scale(300, 4000), flags=4, salt=40)
    rng = ctx.rng
    J2 = Jobs(ctx)
    for t, b in ss:
        if rng.random() < .3:
            J.add("D", mutate(rng, b), 0)
        if rng.random() < .2:
            J.add("D", b, 1)
        if len(b) <= 60 and rng.random() < .3:
            J.add("D", b, 16 | 2)
        J2.add("D", b, 0)
        J2.add("D", mutate(rng, b), 2)
    for b in random_streams(rng, ctx.scale(100, 2000)):
        J.add("D", b, 0)
        J2.add("D", b, 0)
    for d in data_inputs(rng, ctx.scale(160, 2000), 2200):
        J.add("C", d, 4 | 64)
        J2.add("C", d, 2 | 64)
    for d in data_inputs(rng, ctx.scale(30, 300), 90):
        J.add("C", d, 16 | 64)
    for d in data_inputs(rng, ctx.scale(4, 30), 64):
        J.add("C", d, 8 | 64)
        J2.add("C", d, 8 | 64)
    for t, b in ss[:ctx.scale(16, 60)]:
        J.add("D", b, 32 | 2)
    for n in [0, 5, 8, 16, 40, 41, 512]:
        J.add("C", make_data(rng, n), 128 | 2 | 64)
    for n in range(18):
        J.add("C", rng.randbytes(n), 4 | 16 | 64)
        J2.add("C", rng.randbytes(n), 4 | 16 | 64)
    inv = ["InvNoFault", "InvSpaceD", "InvSpaceC"]
    run(ctx, J.jobs, inv, "space")
    run(ctx, J2.jobs, inv, "space-asan", variant="asan")
    try:
        import clchecks
    except ImportError:
        clchecks = None
    if clchecks:
        clchecks.kernel_bounds(ctx)


def c05(ctx):
    model(ctx)
    J = Jobs(ctx)
    rng = ctx.rng
    for d in data_inputs(rng, ctx.scale(350, 4000)):
        J.add("C", d, 2 | 64)
    for n in range(0, 80):
        J.add("C", rng.randbytes(n), 2 | 64)
    for n in range(0, 200, 8):   # every position of the end marker in its word
        J.add("C", make_data(rng, n), 2 | 64)
    for L in ctx.scale([4096, 65536], [4096, 65536, 262144]):
        J.file("C", rng.randbytes(L), 2 | 64)
        J.file("C", rng.randbytes(L + rng.randrange(1, 8)), 2 | 64)
    run(ctx, J.jobs, ["InvNoCrash", "InvWellFormed"], "wellformed")


def c06(ctx):
    rng = ctx.rng
    exe = ctx.harness(HDR)
    # histories: many calls in one process, in different orders, with dirty heaps and buffers
    J, ss = decode_jobs(ctx, ctx.scale(100, 1000), flags=1, salt=60)
    for d in data_inputs(rng, ctx.scale(60, 600), 1500):
        J.add("C", d, 64)
    rng.shuffle(J.jobs)
    order = list(J.jobs)
    recs = []
    for k in range(ctx.scale(3, 6)):
        rng.shuffle(order)
        recs.append(ctx.run_jobs(exe, order, "history%d" % k, shards=4))
    recs = merge(recs)
    # concurrency
    T = []
    for k in range(ctx.scale(6, 40)):
        n = rng.choice([2, 4, 8, 8])
        L = rng.choice([64, 2048, 16384, 49152])
        items = []
        for _ in range(n):
            if rng.random() < .6:
                items.append("C " + hx(make_data(rng, L)))
            else:
                items.append("D " + hx(rng.choice(ss)[1]))
        T.append("T t%d %d %d %d %s" % (k, rng.randrange(1 << 30), max(3, min(400, 600000 // L)), n, " ".join(items)))
    recs2 = ctx.run_jobs(exe, T, "concurrent", shards=1, timeout=200)
    # the first calls of a process, from several threads, under the controlled scheduler
    exe3 = ctx.harness("codecsched_driver.cpp", "sched")
    small = [b for _, b, *_ in ss if len(b) <= 300] or [ss[0][1]]
    V = []
    for k in range(ctx.scale(1500, 15000)):
        n = rng.choice([2, 2, 2, 3, 4])
        items = []
        same = rng.random() < .3
        for i in range(n):
            if i and same:
                items.append(items[0])
            elif rng.random() < .5:
                items.append("C%d %s" % (rng.choice((1, 2)), hx(make_data(rng, rng.choice([8, 16, 32, 64, 120, 200])))))
            else:
                b = rng.choice(small)
                items.append("D%d %s" % (rng.choice((1, 2)), hx(b if rng.random() < .8 else mutate(rng, b))))
        V.append("T v%d %d %d %d %s" % (k, rng.randrange(1 << 31), rng.choice((0, 0, 0, 1, 2, 3)), n, " ".join(items)))
    recs3 = ctx.run_jobs(exe3, V, "scheduled", timeout=60)
    ctx.count("schedules of concurrent calls", len(V))
    ctx.count("calls", calls_in(recs) + calls_in(recs2) + calls_in(recs3))
    uniq = {}
    for r in recs3:
        uniq.setdefault(r[r.index('"in":'):], r)
    validate(ctx, list(uniq.values()), ["InvNoCrash", "InvPure", "InvEncodes", "InvFormat"], "scheduled")
    validate(ctx, recs, ["InvNoCrash", "InvPure"], "history")
    validate(ctx, recs2, ["InvNoCrash", "InvPure"], "concurrent")


def merge(runs):
    """Joins the records of the same job from several runs into one, renumbering the results"""
    by = {}
    for recs in runs:
        for r in recs:
            d = json.loads(r)
            if d["id"] not in by:
                by[d["id"]] = d
                continue
            a = by[d["id"]]
            ren = {0: 0}
            for i, o in enumerate(d["outs"]):
                if o not in a["outs"]:
                    a["outs"].append(o)
                ren[i + 1] = a["outs"].index(o) + 1
            for c in d["calls"]:
                c["idx"], c["amp"] = ren[c["idx"]], ren.get(c["amp"], 0)
                if c not in a["calls"]:
                    a["calls"].append(c)
    return [json.dumps(d) for d in by.values()]


def c16(ctx):
    J, ss = decode_jobs(ctx, ctx.scale(350, 4000), flags=2, salt=80, full=True)
    rng = ctx.rng
    for t, b, _, _, nbits, _ in ss:
        if t == "ok":
            for _ in range(3):
                J.add("D", mutate(rng, b), 2)
            for m in altered_crcs(rng, b, nbits, False)[:4]:
                J.add("D", m, 2)
    # one stream of each kind: nothing at all, zeros, repeats, short data, one block, ...
    kinds = {}
    for b, nbits in minimal_streams(rng) + [(b, nbits) for t, b, _, _, nbits, _ in ss if t == "ok" and len(b) < 200]:
        kinds.setdefault((b[0] >> 3, len(b) // 24), (b, nbits))
    for b, nbits in list(kinds.values())[:ctx.scale(60, 400)]:
        J.add("D", b, 2)
        for m in altered_crcs(rng, b, nbits, True):
            J.add("D", m, 2)
    # checksums out of the ordinary, intact, replaced by another such or lost
    for b, nbits in special_streams(rng, ctx.scale(120, 1000)):
        J.add("D", b, 2)
        v, sh = int.from_bytes(b, "big"), len(b) * 8 - nbits
        for c in (0, 0xffffffff, special_checksum(rng)):
            J.add("D", (v & ~(0xffffffff << sh) | c << sh).to_bytes(len(b), "big"), 2)
    for t, b, _, _, nbits, _ in [x for x in ss if x[0] == "ok"][:ctx.scale(40, 400)]:
        v, sh = int.from_bytes(b, "big"), len(b) * 8 - nbits
        for c in (0, 0xffffffff):
            J.add("D", (v & ~(0xffffffff << sh) | c << sh).to_bytes(len(b), "big"), 2)
    for _ in range(ctx.scale(60, 600)):
        J.add("C", special_data(rng, rng.choice([4, 5, 8, 8, 11, 16, 24, 64, 72, 8 * rng.randrange(1, 200)])), 2 | 64)
    small = [b for t, b, *_ in ss if t == "ok" and len(b) <= 40]
    for b in small[:ctx.scale(6, 40)]:    # every single bit
        for k in range(len(b) * 8):
            m = bytearray(b)
            m[k // 8] ^= 0x80 >> (k % 8)
            J.add("D", bytes(m), 2)
    for d in data_inputs(rng, ctx.scale(150, 2000)):
        J.add("C", d, 2 | 64)
    for n in range(0, 64):
        J.add("C", rng.randbytes(n), 8 | 2 | 64 if n % 9 == 0 else 2 | 64)
    for L in ctx.scale([65536 + 8 * 5, 65539], [65536 + 8 * 5, 65539, 1 << 20]):
        J.file("C", rng.randbytes(L), 2 | 64)
    run(ctx, J.jobs, ["InvNoCrash", "InvChecksumD", "InvChecksumC"], "checksum")


def c17(ctx):
    model(ctx)
    rng = ctx.rng
    J = Jobs(ctx)
    for d in data_inputs(rng, ctx.scale(220, 3000), 2600, mult8=True):
        J.add("C", d, 2 | 32 | 64)
    for L in ctx.scale([6000, 12000], [6000, 12000, 40000, 65536]):
        J.add("C", make_data(rng, L - L % 8), 2 | 32 | 64)
    for n in [1, 2, 3, 62, 63, 64, 65, 66, 67, 127, 128, 129, 130, 191, 192, 193, 194, 195, 260]:
        b = rng.randbytes(8)
        J.add("C", b * n, 2 | 32 | 64)
        J.add("C", bytes(8 * n), 2 | 32 | 64)
        J.add("C", rng.randbytes(8) + b * n + bytes(8 * n) + b, 2 | 32 | 64)
    recs = run(ctx, J.jobs, ["InvNoCrash", "InvEconomy"], "economy")
    P = Jobs(ctx)
    for _ in range(ctx.scale(60, 600)):
        p = rng.randbytes(rng.choice([2, 4, 6, 8, 10, 12, 14, 16, 20, 24, 28, 32]))
        L = 8 * rng.randrange(64, 400)
        P.add("C", (p * (L // len(p) + 1))[:L], 2 | 32 | 64)
    exe = ctx.harness(HDR)
    recs = [r.replace('"cost":1', '"cost":2', 1) for r in ctx.run_jobs(exe, P.jobs, "periodic")]
    validate(ctx, recs, ["InvNoCrash", "InvEconomy"], "periodic")


def c07(ctx):
    rng = ctx.rng
    exe = ctx.harness(HDR)
    ctx.check_model("Chunked", {"N": 2, "Stride": 2, "RecFile": '"none"'}, spec="MSpec", invariants=["MCorrect", "MFrame"], what="Chunked (model)")
    ss = [b for _, b in spec_streams(ctx, ctx.scale(150, 800), maxops=8, prefixes=SMALL, salt=100)]
    jobs = []

    def batch(op, impl, n, istride, ostride, items):
        jobs.append("B b%d %d %s %d %d %d %d %s" % (len(jobs), rng.randrange(1 << 30), op, impl, istride, ostride, n, " ".join(items)))

    for k in range(ctx.scale(160, 2000)):
        op, impl = rng.choice("CD"), rng.choice([1, 2])
        n = rng.choice([0, 1, 2, 3, 5, 8, 16, 17, 33])
        items, imax, omax = [], 8, 8
        for _ in range(n):
            if rng.random() < .2:
                items.append("skip")
                continue
            if op == "C":
                d = make_data(rng, rng.choice([0, 8, 16, 64, 256, rng.randrange(200)]))
                cap = rng.choice([len(d) * 2 + 64, len(d) * 2 + 64, len(d) // 2, 8, 0, len(d) + 16])
            else:
                d = rng.choice(ss)
                if rng.random() < .2:
                    d = mutate(rng, d)
                cap = rng.choice([4096, 8192, 520, 64, 8, 0, 3])
            items.append("%d:%s" % (cap, hx(d)))
            imax, omax = max(imax, len(d)), max(omax, cap)
        istride, ostride = imax + rng.choice([0, 8, 1, 5, 64]), omax + rng.choice([0, 8, 3, 64])
        batch(op, impl, n, istride, ostride, items)
    # beyond 4 GiB (sparse)
    G = 1 << 30
    for op in "CD":
        for impl in (1, 2):
            for (n, i, o) in [(3, 3 * G, 3 * G), (9, G + 8, 64), (9, 4096, G), (3, (1 << 31), (1 << 32) + 8), (2, (1 << 32) + 4096, 128)]:
                items = []
                for q in range(n):
                    if op == "C":
                        d = make_data(rng, 48) if i > 64 else make_data(rng, 32)
                        items.append("%d:%s" % (64 if o == 64 else 128, hx(d)))
                    else:
                        d = rng.choice([s for s in ss if len(s) < 40])
                        items.append("%d:%s" % (64, hx(d)))
                batch(op, impl, n, i, o, items)
    recs = ctx.run_jobs(exe, jobs, "batch", timeout=120)
    ctx.count("chunks", sum(r.count('"skip"') for r in recs))
    for r in recs[:3]:
        ctx.sample(json.loads(r))
    ctx.validate(recs, "Chunked", {"N": 0, "Stride": 0}, ["InvNoCrash", "InvEach", "InvSkip", "InvFrame", "InvReturn"], "batch", view=None)


def beside(long, fn):
    def both(ctx):
        with longchecks.Beside(long, ctx):
            fn(ctx)
    return both


CHECKS = {"C01": beside(longchecks.roundtrip, c01), "C02": beside(longchecks.references, c02), "C03": c03, "C04": beside(longchecks.spaces, c04),
          "C05": beside(longchecks.sizes, c05), "C06": c06, "C07": c07, "C16": beside(longchecks.checksums, c16), "C17": beside(longchecks.repeats, c17)}
