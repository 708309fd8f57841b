"""C08, C09: the epoch manager."""
import random
from core import SEED


def random_thread(r, slots):
    ops, nest, held = [], 0, False
    for _ in range(r.randint(3, 7)):
        x = r.random()
        if nest and x < .3:
            ops.append("a%d" % r.randrange(slots)); held = True
        elif nest and x < .45 and held:
            ops.append("t")
        elif nest and x < .65:
            if held and r.random() < .6:
                ops.append("t")
            ops.append("x"); nest -= 1
            if not nest:
                held = False
        elif x < .72 and nest < 3:
            ops.append("e"); nest += 1
        elif x < .84:
            ops.append("w%d" % r.randrange(slots))
        elif x < .9:
            ops.append("c%d" % r.randrange(slots))
        elif x < .94:
            ops.append(r.choice(["b2", "v2", "b3"]))
        elif x < .97:
            ops.append("g")
        else:
            ops.append("G")
    ops += (["t"] if held else []) + ["x"] * nest
    return " ".join(ops)


def scenarios(thorough):
    s = ["rw | s2 | h1 | e a0 t x e a0 t x | w0 w0",
         "rwt | s2t | h1 | e a0 t x | w0 w0",
         "cur | s2t | h1 | e a0 t x | c0 c0 w1",
         "nest | s2 | h2 | e e a0 x t x | w0 b2 w0 g",
         "inside | s2t | h1 | e a0 t w0 x | e a0 t w0 x",
         "batch | s2 | h3 | e a0 t x e a0 t x | b2 w0 b3 v2 w0 g",
         "rall | s2 | h5 | e a0 t x | w0 c1 w0 | G G",
         "rallt | x4000t | h5 | e a0 t x e a0 t x | w0 c1 w0 w1 | G G",
         "both | s2 | h2 | e w0 x e w1 x e w0 x g | e w1 x e a0 t w2 x g",
         "three | c6000t | h1 | e a0 t x e a1 t x | w0 w1 g | e w0 x G",
         "three2 | r4000t | h2 | e a0 t w1 t x | e a1 t w0 t x | e w0 c1 x g",
         "late | s1 | h2 w0 c0 | e a0 t x | g w0 g | w1 w1",
         "default | s0 |  | b400 b400 b150 w0 b100 | e a0 t x",
         "default-held | s1 |  | b600 b600 w0 | e a0 t x"]
    r = random.Random(SEED * 31 + 5)
    n = 400 if thorough else 40
    for k in range(n):
        th = r.choice([2, 2, 3])
        strat = r.choice(["x600", "c600t", "r600t", "x600t"])
        if th == 2 and thorough and k % 4 == 0:
            strat = r.choice(["s2", "s2t"])
        s.append("rnd%d | %s | h%d | %s" % (k, strat, r.choice([1, 1, 2, 3]),
                                            " | ".join(random_thread(r, 2) for _ in range(th))))
    return s


def run(c, protect, account):
    c.build_conc([("epoch", "conc_epoch.cpp", [])])
    c.model("Epoch", c.cfg("E1.cfg", "Epoch.cfg", {"O": 4 if c.thorough else 3}), "Epoch, 2 threads, new epochs")
    c.model("Epoch", c.cfg("E2.cfg", "Epoch.cfg", {"InNew": "FALSE"}), "Epoch, 2 threads, current epoch")
    if c.thorough:
        c.model("Epoch", c.cfg("E3.cfg", "Epoch.cfg", {"T": 3, "Visits": 1}), "Epoch, 3 threads", timeout=800)
    if protect:
        c.refuted("Epoch", c.cfg("E4.cfg", "Epoch.cfg", {"Fenced": "FALSE"}), "Epoch without the fence of enter_epoch")
        c.refuted("Epoch", c.cfg("E5.cfg", "Epoch.cfg", {"ReadOnce": "FALSE"}), "Epoch re-reading the minimum")
    else:
        cfg = c.cfg("E6.cfg", "", text=open(__import__("core").SPEC + "/Epoch.cfg").read()
                    .replace("SPECIFICATION Spec", "SPECIFICATION LSpec").replace("O = 3", "O = 2") + "PROPERTIES Drained\n")
        c.model("Epoch", cfg, "Epoch, everything retired is eventually reclaimed")
    files = c.explore([("epoch", scenarios(c.thorough))])
    cfg = c.cfg("TE.cfg", "TraceEpoch.cfg", {"Protect": "TRUE" if protect else "FALSE",
                                             "Account": "TRUE" if account else "FALSE",
                                             "Faults": '{"uaf", "crash", "hang", "deadlock"}' if protect else
                                             '{"crash", "hang", "deadlock"}'})
    c.reject(c.validate("TraceEpoch", files, cfg=cfg), "TraceEpoch")
    c.assumptions += ["the 64-bit epoch counter does not wrap",
                      "sequentially consistent interleavings and x86 store buffering; up to 3 threads",
                      "thread registry replaced by a stand-in (its submodule is not in the checkout)"]


def c08(c):
    run(c, True, False)


def c09(c):
    run(c, False, True)
