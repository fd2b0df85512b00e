"""What is checked, and what each check assumes."""
import os
import codec
import vp

CHECKS = {}
CHECKS.update(codec.CHECKS)
for m in ("streams", "clchecks", "hwchecks", "hlschecks", "numachecks", "ledger"):
    try:
        CHECKS.update(__import__(m).CHECKS)
    except ImportError as e:
        if e.name != m:
            raise

TRACE = "TLA+ model checking of the design with TLC; trace validation of recorded calls of the real code against the TLA+ specification; "
SCHED = ("exhaustive TLA+ model checking (TLC) of the thread-level design with a monitor of what users observe; behaviours of the design replayed into the "
         "real classes under a controlled scheduler, and recorded executions of random, priority-based and replayed schedules validated against the same monitor")
TECH = {
    "C01": TRACE + "inputs built around ring-buffer and repeat boundaries",
    "C02": TRACE + "streams generated by TLC simulation of the TLA+ format specification and replayed into every decoder",
    "C03": TRACE + "malformed streams generated by the specification, mutations and truncations",
    "C04": TRACE + "guard pages, canaries and AddressSanitizer as the observation of memory accesses",
    "C05": TRACE + "every emitted stream decoded by the specification",
    "C06": TRACE + "the same calls repeated in different histories, buffers, alignments and concurrent threads",
    "C07": TRACE + "batch calls compared with single calls, sparse buffers beyond 4 GiB",
    "C08": SCHED, "C09": SCHED, "C10": SCHED, "C11": SCHED, "C12": SCHED + "; liveness of the designs under fairness", "C13": SCHED,
    "C14": TRACE + "batches of chunks through the OpenCL host and device interfaces, every chunk decided by the specification",
    "C15": TRACE + "histories of constructions, cache corruptions and file-system refusals generated by TLC and replayed into the real program cache",
    "C16": TRACE + "corrupted streams; checksum computed by the specification",
    "C18": TRACE + "programs of calls and failures of every step generated by TLC and replayed into the real back ends on stand-in devices",
    "C19": TRACE + "streams of operations generated by TLC and replayed into the real tokenizer, with every word boundary in every operation",
    "C20": TRACE + "machines and refusals generated by TLC on which real streams are constructed",
    "C21": TRACE + "what is held after each of many rounds of the same calls, operations and lives of objects is judged by the monitor of the specification",
    "C17": TRACE + "the specification accounts for every choice of the encoder",
}
NOTE = {}
CODEC_ASSUME = ["inputs are sampled (TLC simulation, boundary-directed generators), not enumerated; the design models are exhaustive within small constants",
                "the OpenCL decoder runs on the CPU through pocl", "the format specification in Format842.tla is the oracle (written from the format description)"]
ASSUME = {p: CODEC_ASSUME for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17")}

CL_ASSUME = ["the OpenCL runtime is pocl on the CPU (no GPU here)", "batches and histories are sampled (TLC simulation, seeded generators); the design model is exhaustive within small constants"]
ASSUME["C14"] = CL_ASSUME
ASSUME["C15"] = CL_ASSUME + ["file-system effects on the cache path are redirected into a scratch directory by interposing libc calls"]

ASSUME["C18"] = ["no such hardware or kernel module here: the sources of the back ends run against stand-ins for the device, its header and the system calls",
                 "programs are sampled (TLC simulation) or systematic around every limit; the design is exhaustive for few threads, calls and small numbers"]

ASSUME["C19"] = ["no synthesis tools here: the source runs against stand-ins for the vendor's headers (integers of any width, streams)",
                 "streams are sampled (TLC simulation) or systematic around the word boundaries; the design is exhaustive for up to 8 words"]

ASSUME["C20"] = ["one NUMA node here: libnuma's view of the machine and the confinement of threads are replaced by stand-ins, all else is real",
                 "machines are sampled (TLC simulation); the design is exhaustive for small ones"]

ASSUME["C21"] = ["what is counted: heap blocks and bytes, file descriptors, threads, OpenCL objects (runtime: pocl); for the calls of OpenCL only the memory taken by the library itself",
                 "rounds are sampled; an accumulation that needs more than 32 repetitions to show is not seen"]

for p in ("C08", "C09", "C10", "C11", "C12", "C13"):
    ASSUME[p] = ["schedules of the real code are sampled (random walk, PCT, replayed behaviours of the design); the design is exhaustive for few threads, blocks and operations",
                 "memory is sequentially consistent under the controlled scheduler; threads are preempted at synchronisation, at atomics and at accesses to the stream object",
                 "users keep to the interface: one operation at a time, finalize once, no pushes after it"]


def level(prop):
    return "model_checking"


def technique(prop):
    return TECH[prop]


def note(prop):
    return NOTE.get(prop) or ("The TLA+ design model is checked exhaustively within small constants; the real code is bound to the "
                              "specification by validating recorded behaviours, so the verdict covers the explored inputs, histories and schedules. "
                              "Assumes: " + "; ".join(assumptions(prop)) + ".")


def missing(prop):
    return "check not built yet"


def assumptions(prop):
    return ASSUME.get(prop, [])


def known_findings():
    out = []
    p = os.path.join(vp.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):].strip()
                out.append({"property": rest.split(" ", 1)[0], "what": rest.split(" ", 1)[1]})
    return out
