"""C13, C14, C21, C22: memory, progress, and the life of objects, for all maps."""
import art
import cbt
import hasht
import lin
from core import SAN, SEED


def run(c, what, share):
    share = share if not c.thorough else .5
    cbts = dict(cbt.groups(c.thorough, share))
    for p, l in cbt.groups(c.thorough, share / 2, scans=True):
        cbts[p] = cbts[p] + l
    k = 15 if c.thorough else 2
    cbts = dict(cbt.merge(cbts.items(), cbt.smo(c, k, "s1", third=True), cbt.smo(c, k, "s1", scans=True)))
    more = (600 if c.thorough else 60, "s1", .3)
    groups = hasht.groups(c.thorough, share) + hasht.scenarios(*more) + art.groups(c.thorough, share) + art.scenarios(*more) + list(cbts.items())
    c.build_conc(hasht.programs() + art.programs() + cbt.programs())
    lin.judge(c, c.explore(groups), what)


MEM = range(11)


def c13(c):
    # what a long-running map holds
    flags = ["-O2", "-I" + c.harn("stubs")]
    c.build([("m%d" % i, "seq_mem.cpp", flags + ["-DMCFG=%d" % i]) for i in MEM] +
            # nobody asks for reclamation: the maps reclaim by themselves
            [("u%d" % i, "seq_mem.cpp", flags + ["-DMCFG=%d" % i, "-DUNASKED", "-DINDEXES_VERIFY_RECLAMATION_THRESHOLD=4"]) for i in MEM])
    n = 400 if c.thorough else 60
    cmds = [["%s%d" % (m, i), c.path("%s%d.ndjson" % (m, i)), SEED, n if m == "m" else n // 2, 100] for i in MEM for m in "mu"]
    c.run_all(cmds)
    c.reject(c.validate("TraceMemory", [x[1] for x in cmds]), "TraceMemory")
    run(c, "mem", .3)


def c14(c):
    run(c, "live", .3)


def c21(c):
    n = 120 if c.thorough else 16
    cfgs = range(7)
    c.build([("life%d" % i, "life.cpp", ["-O1", "-g", "-I" + c.harn("stubs"), "-DLCFG=%d" % i] + SAN) for i in cfgs])
    walk = art.design(c)
    cmds = [["life%d" % i, c.path("l%d.ndjson" % i), SEED, n, 500] for i in cfgs]
    cmds += [["life%d" % i, c.path("w%d.ndjson" % i), SEED, 0, 0, walk] for i in (0, 1)]
    c.run_all(cmds)
    c.reject(c.validate("TraceLifetime", [x[1] for x in cmds]), "TraceLifetime")
    c.assumptions += ["histories of one thread; what concurrent histories leak or access too late is judged by C13"]


def c22(c):
    art.design(c)
    cfgs = (11, 12, 13, 4, 5, 6)
    c.build([("m%d" % i, "seq_mem.cpp", ["-O2", "-I" + c.harn("stubs"), "-DFRESH", "-DMCFG=%d" % i]) for i in cfgs])
    n = 1500 if c.thorough else 250
    cmds = [["m%d" % i, c.path("m%d.%d.ndjson" % (i, j)), SEED + 1000 * j, n // 2, 100] for i in cfgs for j in (0, 1)]
    c.run_all(cmds)
    c.reject(c.validate("TraceMemory", [x[1] for x in cmds]), "TraceMemory")
