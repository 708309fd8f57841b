"""C01-C06: the sequential B+tree and its keys."""
import os
import graph
from core import SAN, SEED

# CFG number -> (operations per trace, share of the traces)
CFGS = {0: 400, 1: 400, 2: 400, 3: 400, 4: 400, 5: 400, 6: 300, 7: 6000, 8: 2500, 10: 9000}


def design(c, consts):
    """Model checks BTree.tla and returns a walk file covering its transitions."""
    cfg = c.cfg("BTree.cfg", "BTree_a.cfg", consts)
    dot = c.path("btree.dot")
    c.model("BTree", cfg, "BTree %s" % consts, args=["-dump", "dot,actionlabels", dot])
    init, edges, labels = graph.load_dot(dot)
    os.unlink(dot)
    ws, total = graph.walks(init, edges)
    p = c.path("walks.txt")
    with open(p, "w") as f:
        for w in ws:
            ops = []
            for lab in w:
                k = int(lab[lab.index("(") + 1:-1]) + 1
                ops.append(k if lab.startswith("Insert") else -k)
            f.write(" ".join(map(str, ops)) + "\n")
    c.extra["design_transitions_replayed_on_the_code"] = c.extra.get("design_transitions_replayed_on_the_code", 0) + total
    c.log("replaying", total, "transitions of the design in", len(ws), "walks")
    return p


def dictionary(c, mode):
    """Histories of every configuration, and every transition of the design, on
    the real map; every observed result must be one OrderedMap admits."""
    K = 7 if c.thorough else 6
    n = {"quick": 64, "thorough": 500}[c.tier]
    flags = ["-O1", "-g"] + SAN
    jobs = [("seq%d" % i, "btree_seq.cpp", flags + ["-DCFG=%d" % i]) for i in CFGS]
    jobs.append(("walk", "btree_seq.cpp", flags + ["-DCFG=9", "-DWALKN=%d" % K]))
    c.build(jobs)
    walk = design(c, {"K": K})
    cmds, files = [], []
    for i, ops in CFGS.items():
        big = ops > 1000
        per = max(2, n // 20) if big else n
        out = c.path("t%d.ndjson" % i)
        cmds.append(["seq%d" % i, out, SEED, per, ops, mode])
        files.append(out)
    out = c.path("walk.ndjson")
    cmds.append(["walk", out, SEED, 0, 0, mode, walk])
    files.append(out)
    c.run_all(cmds)
    c.reject(c.validate("TraceOrderedMap", files), "TraceOrderedMap")
    c.assumptions += ["keys ordered by their own < (the map never consults a custom Compare)",
                      "histories generated from VERIF_SEED plus every transition of the design model's bounded state graph"]


def c01(c):
    dictionary(c, 1)


def c02(c):
    dictionary(c, 2)


def c03(c):
    dictionary(c, 4)


def c04(c):
    n = 200 if c.thorough else 24
    cfgs = range(5)
    flags = ["-O1", "-g"] + SAN
    c.build([("life%d" % i, "btree_life.cpp", flags + ["-DLCFG=%d" % i]) for i in cfgs])
    walk = design(c, {"K": 6})
    cmds = [["life%d" % i, c.path("l%d.ndjson" % i), SEED, n, 400] for i in cfgs]
    cmds.append(["life0", c.path("walk.ndjson"), SEED, 0, 0, walk])
    c.run_all(cmds)
    c.reject(c.validate("TraceLifetime", [x[1] for x in cmds]), "TraceLifetime")


def c05(c):
    c.build([("ckey", "ckey.cpp", ["-O1"])])
    cfg = c.cfg("CompoundKey.cfg", "CompoundKey.cfg", {"MaxRank": 3} if c.thorough else None)
    c.model("CompoundKey", cfg)
    out = c.path("ck.ndjson")
    c.run(["ckey", out, SEED, 1])
    c.reject(c.validate("TraceCompoundKey", [out]), "TraceCompoundKey")
    c.assumptions += ["field types whose < is a strict order consistent with =="]


def c06(c):
    n = 150 if c.thorough else 16
    K = 7 if c.thorough else 6
    cfgs = {0: 400, 1: 400, 2: 400, 6: 400, 7: 6000, 8: 2500, 11: 0, 12: 1200}
    flags = ["-O1", "-g"]
    c.build([("tree%d" % i, "btree_tree.cpp", flags + ["-DCFG=%d" % i]) for i in cfgs] +
            [("walk", "btree_tree.cpp", flags + ["-DCFG=9", "-DWALKN=%d" % K])])
    walk = design(c, {"K": K})
    cmds = [["tree%d" % i, c.path("t%d.ndjson" % i), SEED, n, ops] for i, ops in cfgs.items()]
    cmds.append(["walk", c.path("walk.ndjson"), SEED, 0, 0, walk])
    cmds.append(["walk", c.path("t9.ndjson"), SEED, n, 400])
    c.run_all(cmds)
    c.reject(c.validate("TraceTree", [x[1] for x in cmds]), "TraceTree")
    c.assumptions += ["the bound on nodes is judged for merge thresholds above zero (zero turns merging off)"]
