"""C17, C18: the concurrent hash table."""
import random
import lin
from core import SAN, SEED

SEQ = {0: 900, 1: 3000, 2: 900, 3: 900, 4: 3000, 5: 600, 6: 900, 7: 2500, 8: 2500, 9: 900}


def c17(c):
    c.build([("ht%d" % i, "seq_ht.cpp", ["-O1", "-g", "-I" + c.harn("stubs"), "-DHCFG=%d" % i] + SAN) for i in SEQ])
    n = 400 if c.thorough else 40
    cmds = [["ht%d" % i, c.path("h%d.ndjson" % i), SEED, n if ops < 1000 else max(4, n // 4), ops] for i, ops in SEQ.items()]
    c.run_all(cmds)
    c.model("MCHashTable", c.cfg("H1.cfg", "HashTable.cfg", {"Threads": 1, "OpsPer": 4 if c.thorough else 3,
            "Kinds": '{"ins", "ups", "upd", "del", "sea"}'}), "HashTable, one thread")
    c.reject(c.validate("TraceOrderedMap", [x[1] for x in cmds]), "TraceOrderedMap")


INITS = ["", "i0", "i0 i4", "i0 i1 i2 i3", "i0 i1 i2 i3 d1", "i4 d4 i0", "i0 i1 i2", "i0 i1 i2 i3 d0 d1 d2"]
PROGS = [("h0", ["-DHCFG=0"]), ("h0v", ["-DHCFG=0", "-DVALBIG"]), ("h1", ["-DHCFG=1"]), ("h1v", ["-DHCFG=1", "-DVALBIG"]),
         ("h2v", ["-DHCFG=2", "-DVALBIG"]), ("h3", ["-DHCFG=3"])]


def groups(thorough, share=1.0):
    """share: part of the quick scenarios a check spanning several maps runs."""
    s2 = "s2"
    g = {}
    n = int((1500 if thorough else 60) * share)
    def pick(l, seed):
        if share >= 1:
            return l
        return random.Random(SEED + seed).sample(l, max(1, int(len(l) * share)))
    g["h0"] = pick(lin.pairs("p", INITS[:6], [0], [0, 4], s2), 1)
    g["h0v"] = pick(lin.pairs("p", INITS[2:6] + INITS[7:], [0, 4], [0, 5], "s1"), 2)
    g["h1v"] = pick(lin.pairs("p", ["", "i0", "i1 i0", "i0 i1 i2 i3", "i0 d0"], [0], [0, 1], s2), 3)
    g["h1"], g["h2v"], g["h3"] = [], [], []
    for k, (p, _) in enumerate(PROGS):
        two = ["x800", "c400", "r400"] if not thorough else ["x3000", "c1500", "r1500", "x800t"]
        g[p] += lin.rnd("r2-", n, k, list(range(6)), INITS, two, (2,), (1, 4), extra=["g", "r8", "r0"])
        g[p] += lin.rnd("r3-", n, 50 + k, list(range(6)), INITS, two, (3,), (1, 3), extra=["g", "r8"])
        g[p] += lin.rnd("one-", n // 3, 100 + k, [0, 1], INITS, two, (3,), (1, 2))
    if thorough:
        g["h0"] += lin.rnd("s2-", 150, 7, list(range(6)), INITS, ["s2"], (2,), (1, 2), extra=["g", "r8"])
        g["h1"] += lin.rnd("s2-", 100, 8, list(range(3)), INITS, ["s2"], (2,), (1, 2), extra=["g", "r8"])
    return list(g.items())


# program -> flags, of the scenarios with more keys
MORE = {"k0": ["-DHCFG=0", "-DNK=8"], "k1": ["-DHCFG=1", "-DNK=8", "-DVALBIG"], "k2": ["-DHCFG=2", "-DNK=8"],
        "k3v": ["-DHCFG=3", "-DNK=8", "-DVALBIG"], "k4": ["-DHCFG=0", "-DNK=8", "-DCAP=8"], "k5v": ["-DHCFG=2", "-DNK=8", "-DCAP=8", "-DVALBIG"]}


def scenarios(per, strat, third=0):
    """Contents and tomb stones drawn at random, and operations that meet: most
    insert what is missing or delete what is there, some migrate."""
    g = []
    for i, p in enumerate(MORE):
        r = random.Random(SEED + 800 + i)
        lines = []
        for n in range(per):
            setup, inn = [], set()
            for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 10, 14])):
                k = r.randrange(8)
                if r.random() < .04:
                    setup.append(r.choice(["r8", "r16", "g"]))
                else:
                    setup.append(("d" if k in inn else "i") + str(k))
                    inn ^= {k}
            def op(k=None):
                k = r.randrange(8) if k is None else k
                return (r.choice("ddddups") if k in inn else r.choice("iiiuups")) + str(k)
            a = r.randrange(8)
            b = a if r.random() < .2 else r.randrange(8)
            ths = [op(a), op(b)]
            x = r.random()
            if x < .15:
                ths[1] = r.choice(["r8", "r16", "r0"])
            elif x < .3:
                ths[1] += " " + r.choice(["r8", "r16", "g", op(), op(a)])
            st = strat
            if third and r.random() < third:
                ths.append(r.choice([op(), op(), op(a), "r8", "g"]))
                st = "x%d" % (150 if per <= 1000 else 1500)
            lines.append(" | ".join(["k%d" % n, st, " ".join(setup)] + ths))
        g.append((p, lines))
    return g


def programs():
    return [(o, "conc_ht.cpp", f) for o, f in PROGS + list(MORE.items())]


def design(c):
    mc = lambda name, consts, label, **kw: c.model("MCHashTable", c.cfg(name, "HashTable.cfg", consts), label, **kw)
    mc("H1.cfg", {}, "HashTable, 2 threads, one call each")
    if c.thorough:
        mc("H2.cfg", {"OpsPer": 2, "Kinds": '{"ins", "del", "sea"}'}, "HashTable, 2 threads, two calls each")
        mc("H3.cfg", {"Threads": 3, "Kinds": '{"ins", "del"}'}, "HashTable, 3 threads", timeout=850)
    c.refuted("MCHashTable", c.cfg("H4.cfg", "HashTable.cfg", {"ChainLock": "FALSE"}), "HashTable without chain locks")
    c.refuted("MCHashTable", c.cfg("H5.cfg", "HashTable.cfg", {"StaleCheck": "FALSE"}), "HashTable updating migrated tables")


def c18(c):
    c.build_conc(programs())
    design(c)
    more = scenarios(*((6000, "s2") if c.thorough else (500, "s1")), third=.3)
    lin.judge(c, c.explore(groups(c.thorough) + more), "lin")
