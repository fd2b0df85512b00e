"""Check of the placement of stream threads on NUMA nodes: C20 (Numa.tla, NumaTrace.tla)."""
import json, random
from concurrent.futures import ThreadPoolExecutor

WRAPS = ["numa_available", "numa_max_node", "numa_max_possible_node", "numa_num_possible_nodes", "numa_num_configured_nodes", "numa_num_possible_cpus",
         "numa_num_configured_cpus", "get_nprocs", "get_nprocs_conf", "sysconf", "numa_allocate_cpumask", "numa_allocate_nodemask", "numa_get_mems_allowed",
         "numa_node_to_cpus", "numa_node_of_cpu", "pthread_setaffinity_np"]


def machines(ctx, num):
    def one(k):
        return ctx.tlc("Numa", {"MaxNodes": 1, "MaxCpus": 1, "MaxThreads": 16}, spec="GSpec", workers=1, simulate=(num + 3) // 4, depth=10,
                       seed=(ctx.seed * 9001 + k * 17 + 3) % (1 << 31), name="numa%d" % k, heap="1g")
    out = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, range(4)):
            if not r["ok"]:
                raise RuntimeError("Numa generator: " + r["out"][-2000:])
            out += [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"HIST ')]
            ctx.states += r.get("generated", 0)
            ctx.transitions += r.get("generated", 0)
    return out


def job(k, m):
    nodes = " ".join("%d:%s" % (x["mem"], ".".join(map(str, x["cpus"])) or "-") for x in m["nodes"])
    return "N n%d %d %d %d %s" % (k, m["avail"], m["n"], m["fail"], nodes)


def c20(ctx):
    small = {"MaxNodes": 2, "MaxCpus": 3, "MaxThreads": ctx.scale(5, 8)}
    ctx.check_model("Numa", small, invariants=["InvNodes", "InvEvenly", "InvBefore"], what="Numa (every machine of up to 2 nodes and 3 processors)")
    ctx.check_model("Numa", {"MaxNodes": 3, "MaxCpus": ctx.scale(2, 4), "MaxThreads": ctx.scale(4, 7)}, invariants=["InvNodes", "InvEvenly", "InvBefore"], what="Numa (up to 3 nodes)")
    ms = machines(ctx, ctx.scale(1200, 6000))
    rng = random.Random(ctx.seed * 41 + 9)
    rng.shuffle(ms)      # TLC writes the last step of a machine once for every failure it could have
    ms = ms[:ctx.scale(900, 8000)]
    jobs = [job(k, m) for k, m in enumerate(ms)]
    exe = ctx.harness("numa_driver.cpp", "plain", link_extra=["-Wl,--wrap=" + w for w in WRAPS])
    recs = ctx.run_jobs(exe, jobs, "numa", timeout=30)
    for r in recs[:2]:
        ctx.sample(json.loads(r))
    ctx.count("machines", len(recs))
    ctx.count("threads confined", sum(r.count('"k":"pin"') for r in recs))
    ctx.count("refused", sum(1 for r in recs if json.loads(r)["fail"]))
    ctx.validate(recs, "NumaTrace", {}, ["InvNodes", "InvEvenly", "InvAccepted", "InvWorks"], "numa")


CHECKS = {"C20": c20}
