"""C10, C11, C12: the concurrent B+tree."""
import random
import lin
from core import SAN, SEED


def c11(c):
    n = 1600 if c.thorough else 160
    cfgs = range(8)
    c.build([("b%d" % i, "seq_cbt.cpp", ["-O1", "-g", "-I" + c.harn("stubs"), "-DBCFG=%d" % i] + SAN) for i in cfgs])
    cmds = [["b%d" % i, c.path("b%d.%d.ndjson" % (i, j)), SEED + 1000 * j, n // (4 if i < 6 else 16), 600 if i < 7 else 9000]
            for i in cfgs for j in range(2)]
    c.run_all(cmds)
    c.reject(c.validate("TraceOrderedMap", [x[1] for x in cmds]), "TraceOrderedMap")


# at rest: the shape of the tree, after histories of one thread and of several
SHAPES = {0: 400, 1: 400, 2: 400, 6: 400, 7: 6000, 8: 2500, 11: 0, 12: 1200}


def c23(c):
    n = 150 if c.thorough else 16
    c.build([("tree%d" % i, "btree_tree.cpp", ["-O1", "-g", "-DCONC", "-I" + c.harn("stubs"), "-DCFG=%d" % i]) for i in SHAPES])
    cmds = [["tree%d" % i, c.path("t%d.ndjson" % i), SEED, n, ops] for i, ops in SHAPES.items()]
    c.run_all(cmds)
    c.reject(c.validate("TraceTree", [x[1] for x in cmds]), "TraceTree")
    c.build_conc([(p, s, f + ["-DCONC_SHAPE"]) for p, s, f in programs()])
    c.reject(c.validate("TraceTree", c.explore(merge(groups(c.thorough, .6), smo(c, 40 if c.thorough else 6, "s1", third=True)))), "TraceTree, concurrent")
    c.assumptions += ["the bound on nodes is judged for merge thresholds above zero (zero turns merging off), the statistics after histories of one thread"]


UP = "i0 i1 i2 i3 i4 i5 i6 i7"
# program -> (flags, initial contents)
PROGS = {
    # nodes of four entries: everything splits, trims and merges at once
    "b0": (["-DNSIZE=208"], ["", "i0", "i1 i3 i5", "i0 i2 i4 i6", UP, "i7 i6 i5 i4 i3 i2 i1 i0", "i0 i1 i2 i3 i4 d1 d2 d3", UP + " d2 d3 d4", "i1 i3 i5 i7 d3 d5 i3", "i0 d0"]),
    "b1v": (["-DNSIZE=208", "-DVALBIG"], ["i1 i3 i5", "i0 i2 i4 i6", UP, "i0 i1 i2 i3 i4 d1 d2 d3", "i1 u1 u1 i2"]),
    # inner nodes overflow and underflow, too
    "b2": (["-DNSIZE=208", "-DFILL=10", "-DGAP=0"], ["i0 i1 i2 i3", "i1 i3 i5 i7", UP + " d0 d1 d2 d3", "i4 d4 i5 d5"]),
    "b3": (["-DNSIZE=208", "-DFILL=24", "-DGAP=2", "-DMERGE=100", "-DNK=4"], ["i0 i1 i2 i3", "i1 i3", ""]),
    "b4v": (["-DNSIZE=240", "-DVALBIG", "-DFILL=6", "-DGAP=1", "-DMERGE=80"], ["i0 i1 i2 i3", "i1 i3 i5 i7 d5", UP]),
}


# programs of which only restructuring scenarios (smo_cbt.cpp) are run
MORE = {
    "b5": ["-DNSIZE=208", "-DFILL=14", "-DGAP=2"],
    "b6v": ["-DNSIZE=208", "-DVALBIG", "-DFILL=20", "-DGAP=2", "-DMERGE=70"],
    "b7": ["-DNSIZE=208", "-DFILL=40", "-DGAP=2", "-DMERGE=100"],
}


def scan_op(r, nk, near):
    """A scan of some kind, whose bounds are close to the given keys."""
    k = lambda: min(nk - 1, max(0, r.choice(near) + r.choice([-1, 0, 0, 0, 1])))
    a, b = sorted([k(), min(nk - 1, max(0, k() + r.choice([0, 1, 2, -2, 4])))])
    return r.choice(["F", "B", "L%d" % k(), "U%d" % k(), "Y%d" % k(), "Z", "R%d" % (100 * a + 10 * b + r.randrange(8)),
                     "R%d" % (10 * r.randrange(nk) + 3), "R%d" % (10 * (nk - 1) + 7)])


def smo(c, per, strat, scans=False, third=False):
    """Scenarios in which operations that split, trim and merge nodes meet (each
    other, a lookup, a scan), for every pair of such classes there is."""
    flags = {**{p: f for p, (f, _) in PROGS.items()}, **MORE}
    c.build([("smo_" + p, "smo_cbt.cpp", ["-O1", "-I" + c.harn("stubs")] + f) for p, f in flags.items()])
    c.run_all([["smo_" + p, c.path(p + ".smo"), SEED, per, 6000, strat] for p in flags])
    g = []
    for p in flags:
        r = random.Random(SEED + len(g))
        lines = []
        for l in open(c.path(p + ".smo")):
            name, st, init, a, b = [x.strip() for x in l.split("|")]
            name = "%s.%s%s" % (strat, name, "" if not scans else ".scan")
            if scans:
                d = scan_op(r, 4 if p == "b3" else 8, [int(a[1:]), int(b[1:])])
                if "0-0" not in name:
                    lines += ["%s.%s%s | %s | %s | %s | %s" % (name, d, x, st, init, d, x + r.choice(["", " g"])) for x in (a, b)]
                lines.append("%s.%s3 | %s | %s | %s | %s | %s" % (name, d, "x%d" % (150 if not c.thorough else 1500), init, d, a, b))
            else:
                lines.append(" | ".join([name, st, init, a, b]))
                if third: # a third thread looks up, or changes, something close by
                    k = int(r.choice([a, b])[1:]) + r.choice([-1, 0, 0, 1])
                    if 0 <= k < (4 if p == "b3" else 8):
                        lines.append("%s+ | %s | %s | %s | %s | %s%d" % (name, "x%d" % (150 if not c.thorough else 1500), init, a, b, r.choice("ssiudp"), k))
        g.append((p, lines))
    return g


def merge(*gs):
    m = {}
    for g in gs:
        for p, l in g:
            m[p] = m.get(p, []) + l
    return list(m.items())


def programs():
    return [(p, "conc_cbt.cpp", f) for p, f in MORE.items()] + [(p, "conc_cbt.cpp", f) for p, (f, _) in PROGS.items()]


def groups(thorough, share=1.0, scans=False):
    g = {}
    n = max(1, int((1500 if thorough else 60) * share))
    for k, (p, (_, inits)) in enumerate(PROGS.items()):
        two = ["x800", "c400", "r400"] if not thorough else ["x3000", "c1500", "r1500", "x800t"]
        keys = list(range(4 if p == "b3" else 8))
        if scans:
            l = ["s%d.%s%s | s2 | %s | %s | %s" % (a, d, o, init, d, o) for a, init in enumerate(inits)
                 for d in "FB" for o in ["i1", "d1", "d3", "u3", "i2", "d2"]]
            if not thorough:
                slow = p in ("b2", "b3", "b4v")
                l = random.Random(SEED + k).sample(l, min(len(l), int((8 if slow else 40) * share)))
                if slow:
                    two = ["x250", "c150", "r150"]
            r = random.Random(SEED + 40 + k)
            some = lambda m: [scan_op(r, len(keys), keys) for _ in range(m)]
            l += ["q%d | %s | %s | %s | %s" % (a, "s1", r.choice(inits), some(1)[0], r.choice("iuddd") + str(r.choice(keys)) + r.choice(["", " g"]))
                  for a in range(int((400 if thorough else 60) * share))]
            l += lin.rnd("f2-", n, 400 + k, keys, inits, two, (2,), (2, 5), ops="iiudd", extra=some(40) + ["F", "B"] * 8, often=.4)
            l += lin.rnd("f3-", n, 450 + k, keys, inits, two, (3,), (1, 4), ops="iiudd", extra=some(20) + ["F", "B", "g"] * 4, often=.4)
        else:
            l = lin.pairs("p", inits, [1, 2] if p == "b0" else [2], [1, 2, 3] if p != "b3" else [2, 3], "s2")
            if not thorough or share < 1:
                l = random.Random(SEED + k).sample(l, max(1, int(min(len(l), 45) * share)))
            l += lin.rnd("r2-", n, 500 + k, keys, inits, two, (2,), (1, 4), extra=["g"])
            l += lin.rnd("r3-", n, 550 + k, keys, inits, two, (3,), (1, 3), extra=["g"])
            l += lin.rnd("one-", max(1, n // 2), 600 + k, keys[:2], inits, two, (3,), (1, 3), extra=["g"])
        g[p] = l
    return list(g.items())


DEEP = {"NKeys": 6, "Cap": 2, "ICap": 2, "TrimAt": 1, "Which": '{"deep"}'}


def design(c, scans=False):
    """The protocol as OptTree.tla has it, and that each of its checks is needed."""
    mc = lambda name, consts, label, **kw: c.model("MCOptTree", c.cfg(name, "OptTree.cfg", consts), label, **kw)
    no = lambda name, consts, label: c.refuted("MCOptTree", c.cfg(name, "OptTree.cfg", consts), label)
    w = lambda *trees: {"Which": "{%s}" % ", ".join('"%s"' % x for x in trees)}
    kinds = lambda *k: {"Kinds": "{%s}" % ", ".join('"%s"' % x for x in k)}
    if scans:
        mc("O1.cfg", kinds("ins", "del", "scan"), "OptTree, a scan or call each")
        if c.thorough:
            mc("O2.cfg", {**DEEP, **kinds("ins", "del", "scan")}, "OptTree, scans, three levels")
            mc("O3.cfg", {**kinds("ins", "del", "scan"), **w("three", "tight"), "OpsPer": 2, "Pess": "FALSE"}, "OptTree, scans, two calls each", timeout=3000)
        no("O4.cfg", {"SearchCheck": "FALSE", **kinds("ins", "del", "scan")}, "OptTree, scans not checking the leaf")
        return
    mc("O1.cfg", kinds("ins", "del", "sea"), "OptTree, 2 threads, one call each")
    mc("O2.cfg", {**DEEP, **kinds("ins", "del")}, "OptTree, three levels")
    if c.thorough:
        mc("O3.cfg", {}, "OptTree, every kind of call")
        mc("O4.cfg", DEEP, "OptTree, three levels, every kind of call")
        mc("O5.cfg", {**kinds("ins", "del"), **w("full", "merge"), "OpsPer": 2}, "OptTree, two calls each", timeout=3000)
        mc("O6.cfg", {**kinds("ins", "del"), **w("tight"), "Threads": 3, "Pess": "FALSE"}, "OptTree, 3 threads", timeout=3000)
    no("O7.cfg", {"LeafCheck": "FALSE", **kinds("ins", "del"), **w("merge")}, "OptTree, writers not checking the leaf")
    no("O8.cfg", {"SplitCheck": "FALSE", **kinds("ins", "del"), **w("full", "dead")}, "OptTree, splits not checking the node again")
    no("O9.cfg", {"MarkDeleted": "FALSE", **kinds("ins", "del"), **w("merge")}, "OptTree, replaced nodes not marked")
    no("Oa.cfg", {"SearchCheck": "FALSE", **kinds("ins", "sea"), **w("full")}, "OptTree, lookups not checking the leaf")
    no("Ob.cfg", {"ParentCheck": "FALSE", **DEEP, **kinds("ins", "del")}, "OptTree, not checking the parent again")


def c10(c):
    design(c)
    c.build_conc(programs())
    more = smo(c, 40, "s1", third=True) + smo(c, 2, "s2") if c.thorough else smo(c, 5, "s1", third=True)
    lin.judge(c, c.explore(merge(groups(c.thorough), more)), "lin")


def c12(c):
    design(c, scans=True)
    c.build_conc(programs())
    more = smo(c, 20, "s1", scans=True) + smo(c, 2, "s2", scans=True) if c.thorough else smo(c, 3, "s1", scans=True)
    lin.judge(c, c.explore(merge(groups(c.thorough, scans=True), more)), "scan")
