"""C07, C15, C16: the radix trees."""
import os
import random
import re
import graph
import lin
from core import SAN, SEED, SPEC


# key set of MCRadix, keys present throughout
SETS = [(1, 0), (2, 0), (3, 0), (4, 13), (4, 46), (5, 0)]


def design(c):
    """Model checks Radix.tla; returns walks that cover its transitions."""
    p, total = c.path("walks.txt"), 0
    with open(p, "w") as f:
        for u, nb in SETS:
            dot = c.path("radix.dot")
            cfg = c.cfg("R%d-%d.cfg" % (u, nb), "MCRadix.cfg", {"U": u, "Wide": "TRUE" if c.thorough else "FALSE", "NB": nb})
            out = c.model("MCRadix", cfg, "Radix, key set %d, %d keys throughout" % (u, nb), args=["-dump", "dot,actionlabels", dot])
            keys = {int(j): [int(x) for x in k.split(",")] for j, k in re.findall(r'<<"KEY", (\d+), <<([\d, ]+)>>\s*>>', out)}
            keys = [keys[j] for j in sorted(keys)]
            num = [sum(b << (8 * i) for i, b in enumerate(k)) for k in keys]
            assert all(len(k) == 8 for k in keys) and len(keys) == (10 if c.thorough else 8) + nb, keys
            f.write("K %d %d %s\n" % (len(num), len(num) - nb, " ".join(map(str, num))))
            init, edges, _ = graph.load_dot(dot)
            os.unlink(dot)
            ws, n = graph.walks(init, edges)
            total += n
            for w in ws:
                f.write(" ".join(("" if l.startswith("Insert") else "-") + l[l.index("(") + 1:-1] for l in w) + "\n")
    c.extra["design_transitions_replayed_on_the_code"] = total
    c.log("replaying", total, "transitions of the design")
    return p


def seq(c, flag):
    c.build([("a%d" % i, "seq_art.cpp", ["-O1", "-g", "-I" + c.harn("stubs"), "-DACFG=%d" % i] + flag + SAN) for i in (0, 1)])
    n = 1600 if c.thorough else 200
    cmds = [["a%d" % i, c.path("a%d.%d.ndjson" % (i, j)), SEED + 1000 * j, n // 4, 900] for i in (0, 1) for j in range(4)]
    walk = design(c)
    cmds += [["a%d" % i, c.path("w%d.ndjson" % i), SEED, 0, 0, walk] for i in (0, 1)]
    c.run_all(cmds)
    return [x[1] for x in cmds]


def c07(c):
    c.reject(c.validate("TraceOrderedMap", seq(c, [])), "TraceOrderedMap")


def c16(c):
    c.reject(c.validate("TraceOrderedMap", seq(c, ["-DCONC"])), "TraceOrderedMap")


# program -> (flags, initial contents)
PROGS = {
    "a0": (["-DACFG=0"], ["", "i0", "i0 i1", "i0 i1 i2 i3", "i0 i1 i2 i3 d1", "i0 i1 i2 i3 d0 d1 d2", "i0 i1 i2 i3 i4 d4"]),
    "a1v": (["-DACFG=1", "-DVALBIG"], ["", "i0", "i0 i2", "i0 i1", "i0 i2 i1", "i0 i2 i4 i1 d4", "i0 i2 i4 d2"]),
    "a2v": (["-DACFG=2", "-DVALBIG"], ["", "i0", "i0 i2", "i0 i2 i3", "i0 i1 i2 i3 i4 i5", "i0 i3 i5", "i2 i4 i0"]),
    "a3": (["-DACFG=3"], ["", "i0", "i0 i1 i2", "i0 i1 i2 i3", "i0 i1 i2 i3 d3", "i0 i1 d1"]),
    "a16": (["-DACFG=3", "-DFILL=14"], ["i0", "i0 i1", "i0 i1 d1", "i0 i1 i2", "i0 i1 i2 d1"]),
    "a48": (["-DACFG=0", "-DFILL=46", "-DVALBIG"], ["i0", "i0 i1", "i0 i1 i2"]),
    "a5": (["-DACFG=3", "-DFILL=3", "-DVALBIG"], ["i0 i1", "i0 i1 i2", "i0 i1 d0"]),
}


def key_sets():
    """The key sets of MCRadix, as the design has them."""
    t = open(os.path.join(SPEC, "MCRadix.tla")).read()
    base = [9, 0, 255, 128, 7, 1, 2, 3]
    out = {}
    for u, body in re.findall(r"(?:U = (\d)|OTHER) ->[^\n]*\n\s*<<(.*)>>", t):
        ks = []
        for at in re.findall(r"\bP\b|At2?\([\d, ]+\)", body):
            k, a = list(base), [int(x) for x in re.findall(r"\d+", at[3:] if at != "P" else "")]
            for l, v in zip(a[::2], a[1::2]):
                k[l - 1] = v
            ks.append(sum(b << (8 * i) for i, b in enumerate(k)))
        out[int(u or 5)] = ks[:8]
    assert len(out) == 5 and all(len(k) == 8 for k in out.values()), out
    return out, sum(b << (8 * i) for i, b in enumerate(base) if i != 2)


def scenario_programs():
    ks, base = key_sets()
    return [("k%d_%d" % (u, nb), "conc_art.cpp", ["-DACFG=10", "-DFILL=%d" % nb, "-DFILLER_BASE=0x%xULL" % base,
             "-DSCENARIO_KEYS=" + ",".join("0x%xULL" % k for k in ks[u])] + (["-DVALBIG"] if i % 2 else []))
            for i, (u, nb) in enumerate(SETS)]


def scenarios(per, strat, third=0):
    """On the key sets of the design: contents, and two operations that meet, of
    which most insert what is missing or delete what is there."""
    g = []
    for i, (u, nb) in enumerate(SETS):
        r = random.Random(SEED + 700 + i)
        lines = []
        for n in range(per):
            order = r.sample(range(8), 8)
            inn = order[:r.choice([1, 2, 3, 4, 5, 6, 7, 8])]
            gone = order[len(inn):len(inn) + r.choice([0, 0, 1, 2])]
            init = ["i%d" % k for k in r.sample(inn + gone, len(inn + gone))] + ["d%d" % k for k in gone]
            def op(k):
                return (r.choice("ddddups") if k in inn else r.choice("iiiuups")) + str(k)
            a, b = (r.sample(range(8), 2) if r.random() < .85 else [r.randrange(8)] * 2)
            ths = [op(a), op(b) + r.choice(["", "", "", "", " g"])]
            st = strat
            if third and r.random() < third:
                ths.append(r.choice([op(r.randrange(8)), op(r.randrange(8)), op(a) + " " + op(b), "g"]))
                st = "x%d" % (150 if per <= 1000 else 1500)
            lines.append(" | ".join(["k%d" % n, st, " ".join(init)] + ths))
        g.append(("k%d_%d" % (u, nb), lines))
    return g


def programs():
    return [(p, "conc_art.cpp", f) for p, (f, _) in PROGS.items()] + scenario_programs()


def groups(thorough, share=1.0):
    g = {}
    n = max(1, int((1200 if thorough else 50) * share))
    for k, (p, (_, inits)) in enumerate(PROGS.items()):
        l = lin.pairs("p", inits, [0], [0, 1] if p in ("a0", "a3") else [0, 2] if p != "a2v" else [0, 2, 3, 5], "s2")
        if not thorough or share < 1:
            l = random.Random(SEED + k).sample(l, max(1, int(min(len(l), 45) * share)))
        two = ["x800", "c400", "r400"] if not thorough else ["x3000", "c1500", "r1500", "x800t"]
        l += lin.rnd("r2-", n, 200 + k, list(range(6)), inits, two, (2,), (1, 4), extra=["g"])
        l += lin.rnd("r3-", n, 250 + k, list(range(6)), inits, two, (3,), (1, 3), extra=["g"])
        l += lin.rnd("one-", max(1, n // 2), 300 + k, [0, 1], inits, two, (3,), (1, 3), extra=["g"])
        g[p] = l
    return list(g.items())


def protocol(c):
    """How the concurrent tree is shared, as RadixLock.tla has it."""
    def cfg(name, kinds=None, **kw):
        if kinds:
            kw["Kinds"] = "{%s}" % ", ".join('"%s"' % k for k in kinds.split())
        return c.cfg(name, "RadixLock.cfg", kw)
    c.model("MCRadixLock", cfg("L1.cfg"), "RadixLock, 2 threads, one call each")
    c.model("MCRadixLock", cfg("L2.cfg", "ins del sea", Which='"three"'), "RadixLock, three levels")
    if c.thorough:
        c.model("MCRadixLock", cfg("L3.cfg", Which='"three"'), "RadixLock, three levels, every kind of call")
        c.model("MCRadixLock", cfg("L4.cfg", "ins del", Which='"one"', OpsPer=2), "RadixLock, two calls each", timeout=3000)
        c.model("MCRadixLock", cfg("L5.cfg", "ins del", Which='"one"', Threads=3), "RadixLock, 3 threads", timeout=3000)
    for i, (k, what) in enumerate([("CheckVersion", "not comparing versions"), ("CheckDead", "accepting versions of dead nodes"),
                                   ("MarkDead", "not marking dead nodes"), ("CheckRoot", "not comparing the root"),
                                   ("BumpVersion", "not moving versions")]):
        c.refuted("MCRadixLock", cfg("M%d.cfg" % i, "ins del", **{k: "FALSE"}), "RadixLock " + what)


def c15(c):
    protocol(c)
    c.build_conc(programs())
    more = scenarios(*((6000, "s2") if c.thorough else (350, "s1")), third=.3)
    lin.judge(c, c.explore(groups(c.thorough) + more), "lin")
