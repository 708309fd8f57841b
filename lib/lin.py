"""Scenarios for the concurrent maps, and validation of what they did."""
import itertools
import random
from core import SEED


def pairs(tag, inits, keys1, keys2, strat, ops="iupsd"):
    """Every pair of operations, on the given keys, from every initial content."""
    s = []
    for n, init in enumerate(inits):
        done = set()
        for a, b in itertools.product([o + str(k) for o in ops for k in keys1], [o + str(k) for o in ops for k in keys2]):
            if (b, a) in done or (a[0] == "s" and b[0] == "s"):
                continue
            done.add((a, b))
            s.append("%s%d.%s-%s | %s | %s | %s | %s" % (tag, n, a, b, strat, init, a, b))
    return s


def rnd(tag, n, seed, keys, inits, strats, threads=(2, 2, 3), nops=(1, 3), ops="iiuupssddd", extra=(), often=.12):
    r = random.Random(SEED * 1009 + seed)
    s = []
    for k in range(n):
        th = r.choice(threads)
        hot = r.sample(keys, min(len(keys), r.choice([1, 2, 2, 3, 4, 6])))
        def thread():
            return " ".join((r.choice(extra) if extra and r.random() < often else r.choice(ops) + str(r.choice(hot)))
                            for _ in range(r.randint(*nops)))
        s.append("%s%d | %s | %s | %s" % (tag, k, r.choice(strats), r.choice(inits), " | ".join(thread() for _ in range(th))))
    return s


def strat(lines, strat):
    return [" | ".join([p[0], strat] + p[2:]) for p in ([x.strip() for x in l.split(" | ")] for l in lines)]


# Terminal events and the property that judges them
ACCESS = '{"uaf", "oob", "leak", "memory", "doublefree"}'
PROGRESS = '{"deadlock", "hang"}'
RESULT = '{"crash", "uaf", "oob"}'


def judge(c, files, what):
    """what: 'lin' (C10, C15, C18), 'scan' (C12), 'mem' (C13), 'live' (C14)."""
    faults = {"lin": RESULT, "scan": RESULT, "mem": ACCESS, "live": PROGRESS}[what]
    cfg = c.cfg("TL-%s.cfg" % what, "TraceLin.cfg", {"Faults": faults,
                "Lin": "TRUE" if what == "lin" else "FALSE", "Scans": "TRUE" if what == "scan" else "FALSE"})
    c.reject(c.validate("TraceLin", files, cfg=cfg), "TraceLin")
    c.assumptions += ["interleavings are explored at atomics, mutexes and accesses to shared heap memory, under sequential consistency (and x86 store buffering where a scenario says so), up to 3 threads",
                      "thread registry and mutex submodule replaced by stand-ins (not in the checkout)"]
