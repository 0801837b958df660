"""Plans of simulated runs: workload, schedule policy and faults, from a seed."""
import random
import re

NETS = ["in:{i} fc:4 fc:{o}", "in:{i} fc:{o}", "in:{i} fc:5:tanh fc:{o}", "in:{i} fc:4:relu fc:{o}:identity", "in:{i} fc:4:drop0.3 fc:{o}",
        "in:{i} fc:4:l2_0.001 fc:{o} mom:0.9", "in:{i} fc:6:gelu fc:3:l1_0.001 fc:{o}:tanh", "in:{i} fc:4:isigmoid fc:{o}:gaussian mom:0.5",
        "in:{i} fc:4 fc:{o}:softmax", "in:{i} fc:3:em0.5 fc:{o}"]
CONVS = ["in:{i} lc:2:2 fc:{o}", "in:{i} conv:2:2 fc:{o}", "in:{i} conv:2:2:relu fc:3 fc:{o}", "in:{i} pool:2 fc:4 fc:{o}", "in:{i} lc:1:2:tanh fc:{o}",
         "in:{i} conv:2:2 pool:2 fc:{o}"]
RECS = ["in:{i} rec:3 fc:{o}", "in:{i} gru:3 fc:{o}", "in:{i} gru:2 rec:3 fc:{o}", "in:{i} rec:4 fc:{o}:tanh mom:0.5", "in:{i} gru:{o}", "in:{i} rec:{o}",
        "in:{i} fc:3 gru:2 fc:{o}", "in:{i} rec:2 rec:2 fc:{o}", "in:{i} rec:3:drop0.3 gru:2:em0.5 fc:{o} mom:0.9", "in:{i} gru:3:l2_0.01 rec:{o}:l1_0.01 mom:0.5"]
# inputs with channels (C:X or C:X:Y)
SHAPED = {"2:4": ["conv:2:2 fc:{o}", "lc:2:3 fc:{o}", "pool:2 fc:{o}", "conv:2:2:tanh pool:2 fc:{o}", "lc:1:2 conv:1:2 fc:{o} mom:0.5"],
          "1:3:3": ["conv:2:2 fc:{o}", "lc:2:2 fc:{o}", "pool:2 fc:{o}", "conv:1:2 lc:1:2 fc:{o}", "conv:2:3:relu:drop0.3 fc:{o} mom:0.9"],
          "2:2:3": ["conv:2:2:tanh fc:{o}", "lc:1:2 fc:{o}", "pool:2 fc:3 fc:{o}", "conv:3:2:l2_0.01 fc:{o} mom:0.5", "lc:2:2:gelu:em0.5 fc:{o}:softmax"],
          "1:4:4": ["conv:2:2 pool:2 fc:{o}", "conv:1:3 lc:1:2 fc:{o}", "lc:1:2:drop0.2 pool:2 fc:{o}", "pool:2 conv:2:2 fc:{o}", "conv:2:2 conv:1:2 fc:{o} mom:0.9", "conv:1:2 rec:2 fc:{o}"],
          "1:4:2": ["pool:2 fc:{o}", "lc:2:2 fc:{o}", "conv:2:2 fc:{o}", "conv:1:1 pool:2 fc:{o}", "lc:1:2:tanh fc:{o} mom:0.5"],
          "2:5:2": ["pool:2 fc:{o}", "lc:1:2 fc:{o}", "conv:2:2:relu fc:{o}", "pool:2 lc:1:1 fc:{o}"],
          "1:2:5": ["pool:2 fc:{o}", "lc:2:2 fc:{o}", "conv:1:2 fc:{o}", "lc:1:2 conv:1:1 fc:{o}"],
          "3:2:2": ["conv:1:1 fc:{o}", "lc:1:1 fc:{o}", "pool:1 lc:1:2 fc:{o}", "pool:2 fc:{o}", "conv:2:2:l1_0.01 gru:2 fc:{o}"]}


class P(list):
    def __init__(self, prop, scenario, r, seed):
        super().__init__(["property " + prop, "scenario " + scenario, "seed %d" % seed])
        self.r = r
        self.shape = None
        self.large = True

    def __call__(self, *a):
        self.append(" ".join(str(x) for x in a))


def schedule(p, steps=6000, light=False):
    r = p.r
    k = r.random()
    if k < 0.12:
        pass  # no preemption but the forced ones
    elif k < 0.55:
        p("sched rand", r.choice([2, 5, 10, 20, 50, 200, 1000]))
    elif k < 0.75:
        p("sched pct", r.randint(1, 6), r.choice([300, 1000, steps, steps * 3]))
    else:
        p("sched rr", r.choice([1, 2, 3, 7, 20, 100]))
    if r.random() < 0.3:
        p("coarse", r.choice([1, 4, 16, 64]))
    if r.random() < 0.25:
        p("tick", r.choice([100, 500, 2000]))
    if r.random() < 0.35 and not light:
        for _ in range(r.randint(1, 3)):
            p("stall", r.choice([0, 1, 1, 1, 2]), int(10 ** r.uniform(0, 3.5)), int(10 ** r.uniform(5, 8.3)))
    if r.random() < 0.25:
        p("oversleep", r.randint(1, 20), int(10 ** r.uniform(5, 8)))


def clock(p, often=0.5):
    r = p.r
    if r.random() < often:
        for _ in range(r.randint(1, 3)):
            p("jump", int(10 ** r.uniform(0.5, 4)), r.choice([-1, 1]) * int(10 ** r.uniform(6, 14)))


BOUNDED = ["sigmoid", "tanh", "isigmoid", "gaussian"]


def random_net(r, i, o, kinds):
    """any architecture: depth, sizes, activations, layer optimizers in any order"""
    large = r.random() < 0.15
    free = 1 if r.random() < 0.4 else 0  # layers whose outputs are not bounded
    bounded = free == 0
    layers = ["in:%d" % i]
    depth = r.choice([0, 1, 1, 2, 2, 3, 4]) if not large else r.choice([1, 2])

    def activation():
        nonlocal free
        if free and r.random() < 0.3:
            free -= 1
            return r.choice(["relu", "gelu", "identity"])
        return r.choice(BOUNDED)

    def optimizers(last=False):
        res = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            k = r.choice(["drop%s" % r.choice([0.1, 0.3, 0.5]), "l1_%s" % r.choice([0.001, 0.02]), "l2_%s" % r.choice([0.001, 0.02]),
                          "em%s" % r.choice([0.5, 2, -1 if bounded else 0.25])])
            if k.split("_")[0][:2] not in [x.split("_")[0][:2] for x in res]:
                res.append(k)
        if r.random() < (0.25 if last else 0.05):
            res.insert(r.randint(0, len(res)), "softmax")
        return "".join(":" + x for x in res)

    if "conv" in kinds and i >= 2 and r.random() < 0.35:
        k = r.randint(1, min(3, i))
        layers.append(r.choice(["conv:%d:%d" % (r.randint(1, 3), k), "lc:%d:%d" % (r.randint(1, 3), k), "pool:2"]))
        if not layers[-1].startswith("pool"):
            layers[-1] += ":" + activation() + optimizers()
        if r.random() < 0.3:
            layers.append(r.choice(["conv:2:1:tanh", "lc:1:1:tanh", "pool:1"]))
    for _ in range(depth):
        n = r.randint(1, 6) if not large else r.choice([1, 7, 8, 9, 12, 17])
        k = r.random()
        if "rec" in kinds and k < 0.2:
            layers.append("rec:%d:%s" % (n, r.choice(["tanh", "tanh", "gaussian", "isigmoid"])) + optimizers())
        elif "rec" in kinds and k < 0.4:
            layers.append("gru:%d" % n + optimizers())
        else:
            layers.append("fc:%d:%s" % (n, activation()) + optimizers())
    k = r.random()
    if "rec" in kinds and k < 0.1:
        layers.append("rec:%d:tanh" % o)
    elif "rec" in kinds and k < 0.2:
        layers.append("gru:%d" % o)
    else:
        layers.append("fc:%d:%s" % (o, activation()) + optimizers(True))
    if r.random() < 0.5:
        layers.append("lr:%s" % r.choice([0.001, 0.01, 0.05] + ([0.3] if bounded else [])))
    if r.random() < 0.4:
        layers.append("mom:%s" % r.choice([0.3, 0.5, 0.9 if bounded else 0.1]))
    return " ".join(layers)


def network(p, i, o, kinds=("nt",), nets=None):
    r = p.r
    if not (p.shape and not nets) and r.random() < 0.15:
        p("net", random_net(r, i, o, kinds if not nets else ("nt", "rec")))
        return
    if p.shape and not nets:
        n = "in:%s " % p.shape + r.choice([x for x in SHAPED[p.shape] if "rec" in kinds or not ("rec:" in x or "gru:" in x)]).format(o=o)
        if r.random() < 0.3:
            n += " lr:%s" % r.choice([0.001, 0.1])
        p("net", n)
        return
    pool = list(nets or NETS)
    if "conv" in kinds and r.random() < 0.3:
        pool = CONVS
    if "rec" in kinds and r.random() < 0.3:
        pool = RECS
    n = r.choice(pool).format(i=i, o=o)
    if r.random() < 0.3:
        n += " lr:%s" % r.choice([0.001, 0.1, 0.1 if "identity" in n or "relu" in n else 0.5])  # no divergence
    p("net", n)


def small_data(p, problem=None, n=None, T=None, i=None, kinds=True, extra="", shaped=0):
    """non temporal data, sometimes temporal; returns n, T, inputs, outputs"""
    r = p.r
    problem = problem or r.choice(["cls", "multi", "reg"])
    p.shape = None
    if shaped and not i and r.random() < shaped:
        p.shape = r.choice(sorted(SHAPED))
        i = 1
        for x in p.shape.split(":"):
            i *= int(x)
    i = i or r.randint(3, 5)
    o = r.randint(2, 3)
    n = n or r.randint(3, 12)
    T = T or (r.choice([17, 20, 33]) if p.large and r.random() < 0.03 else r.choice([1, 2, 4, 5]))
    k = r.random() if kinds else 0
    if k < 0.75:
        if p.large and r.random() < 0.03:
            n = r.choice([17, 20, 32, 33, 40, 64])
        p("data nt", problem, i, o, n, T, r.randint(0, 999), extra)
    elif k < 0.88:
        lens = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
        tl = [r.randint(1, 3) for _ in range(r.randint(1, 2))]
        n, T = sum(lens), sum(tl)
        p("data seq", problem, i, o, n, T, r.randint(0, 999), "lens=" + ",".join(map(str, lens)), "tlens=" + ",".join(map(str, tl)), extra)
    else:
        R = r.randint(1, 3)
        n = R + 1 + r.randint(0, 6)
        p("data ts", problem, i, o, n, T, r.randint(0, 999), "R=%d" % R, extra)
    return n, T, i, o, k < 0.75


def costs(p, heavy=0.6, least=3):
    r = p.r
    tc = ec = 0
    if r.random() < heavy or least > 3:
        tc = int(10 ** r.uniform(least, 6.5))
        ec = int(10 ** r.uniform(least, 6))
        p("traincost", tc)
        p("evalcost", ec)
    return tc, ec


def batch(r, n, nt):
    if not nt or r.random() < 0.5:
        return 1
    return r.choice([1, 2, 3, n, max(1, n // 2)]) if n >= 3 else r.randint(1, n)


def pause_op(p):
    r = p.r
    k = r.random()
    if k < 0.35:
        p("op spin", int(10 ** r.uniform(0, 2.6)))
    elif k < 0.6:
        p("op until", r.randint(1, 30), r.randint(0, 1))
    elif k < 0.75:
        p("op sleep", int(10 ** r.uniform(1, 4.5)))


def passes(p, T, regression=False, last_good=True):
    """scripted evaluations; the last one repeats for ever"""
    r = p.r
    res = []
    for _ in range(r.randint(1, 6)):
        good = r.choice([0, 0, 0.0625, 0.03125])
        bad = r.choice([0.25, 0.5, -0.375])
        bad = abs(bad)
        res.append((r.randint(0, T), good, bad))
    if last_good:
        res.append((T, 0, 0.25))
    for x in res:
        p("pass", *x)
    return res


def control_base(prop, r, seed, scripted=False, problem=None, T=None, light=False, kinds=True, least=3):
    p = P(prop, "control", r, seed)
    schedule(p, light=light)
    n, T, i, o, nt = small_data(p, problem=problem, T=T, kinds=kinds, shaped=0.1)
    network(p, i, o, kinds=("nt", "conv"))
    costs(p, least=least)
    return p, n, T, nt


def via(p, often=0.4):
    if p.r.random() < often:
        p("pre", p.r.randint(1, 4))
        p("via", p.r.choice(["same", "copy", "load"]))
        return True
    return False


def gen_C01(r, seed):
    x = r.random()
    if x < 0.1:  # trainings that end by a NaN or a failure
        return gen_C18(r, seed, "C01") if x < 0.06 else gen_C13(r, seed, "C01")
    p, n, T, nt = control_base("C01", r, seed)
    via(p, 0.2)
    if r.random() < 0.3:
        p("autosave 1")
    if r.random() < 0.3:
        p("op fork")
        for _ in range(r.randint(1, 4)):
            p("op2", r.choice(["status", "spin"]), r.randint(1, 40))
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < 0.45:
            p("op start", batch(r, n, nt), r.randint(0, 3))
        elif k < 0.8:
            p("op stop")
        elif k < 0.9:
            p("op train", "%dep" % r.randint(1, 3), batch(r, n, nt), r.randint(0, 2))
        else:
            p("op guard evaluate")
        if r.random() < 0.6:
            pause_op(p)
    p("op start", batch(r, n, nt), r.randint(0, 3))
    if r.random() < 0.5:
        pause_op(p)
    p("op", r.choice(["stop", "stop", "destroy", "start 1 1"]))
    if r.random() < 0.3:
        p("op sleep", r.randint(1, 3000))
        p("op stop")
    return p


GUARDS = ["saveas", "copy", "evaluate", "train", "bitmap", "filters"]


def guard(p):
    return p.r.choice(GUARDS)


BADS = ["inputs", "outputs", "zero", "negative", "large", "temporal", "inputs!", "zero!", "large!", "outputs!", "negative!", "temporal!"]


def gen_C02(r, seed):
    x = r.random()
    if x < 0.2:  # trainings that end by a NaN or a failure
        return gen_C18(r, seed, "C02") if x < 0.12 else gen_C13(r, seed, "C02")
    p, n, T, nt = control_base("C02", r, seed, light=True)
    via(p, 0.2)
    forked = False
    if r.random() < 0.4:
        forked = True
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if k < 0.6:
                p("op2 status", r.randint(1, 30))
            elif k < 0.8:
                p("op2 guard", guard(p))
            else:
                p("op2 spin", r.randint(1, 100))
        p("op fork")
    for _ in range(r.randint(2, 7)):
        k = r.random()
        if k < 0.25:
            p("op start", batch(r, n, nt), r.randint(0, 2))
            if r.random() < 0.5:
                p("op", r.choice(["status", "guard " + guard(p), "bad " + r.choice(BADS)]))
        elif k < 0.35:
            p("op stop")
            if r.random() < 0.5:
                p("op status")
        elif k < 0.6:
            p("op guard", guard(p))
        elif k < 0.8:
            p("op bad", r.choice(BADS))
        elif k < 0.88:
            p("op train", "%dep" % r.randint(1, 2), batch(r, n, nt), r.randint(0, 2))
        else:
            p("op status", r.randint(1, 10))
        if r.random() < 0.5:
            pause_op(p)
    return p


def condition(r, T, res, waits, time=False):
    """an expression that comes true sooner or later"""
    def ep():
        return "%dep" % r.randint(1, 6)

    def acc():
        return "%gacc" % (r.randint(1, T) / T)

    def mae(sure):
        return "%gmae" % (r.choice([0, 0.03125, 0.0625, 0.125, 0.25, 0.5]))

    kinds = [ep, acc, lambda: mae(1)]
    if time:
        kinds.append(lambda: r.choice(["%dms" % int(10 ** r.uniform(0, 2.5)), "%dms" % r.randint(1, 60)] + ["1s"] * (r.random() < 0.1)))
    k = r.random()
    if k < 0.4:
        return r.choice(kinds)()
    op = r.choice(["||", "&&"])
    return combine(r, [r.choice(kinds)() for _ in range(r.randint(2, 4))], op)


def combine(r, parts, *ops):
    """written in any of the ways C++ allows"""
    while len(parts) > 1:
        i = r.randrange(len(parts) - 1) if r.random() < 0.3 else 0
        e = parts[i] + r.choice(ops) + parts[i + 1]
        parts[i:i + 2] = ["(%s)" % e if len(parts) > 2 and (i or r.random() < 0.2) else e]
    return parts[0]


def mixture(r):
    """an expression of both operators"""
    while True:
        e = combine(r, [r.choice(["%dep" % r.randint(1, 9), "%gacc" % r.random(), "%gmae" % r.random(), "%dms" % r.randint(1, 99), "1s"]) for _ in range(r.randint(3, 5))], "||", "&&")
        if "||" in e and "&&" in e:
            return e


def gen_C03(r, seed):
    x = r.random()
    if x < 0.2:  # trainings that end by a NaN or a failure
        return gen_C18(r, seed, "C03") if x < 0.12 else gen_C13(r, seed, "C03")
    T = r.choice([1, 2, 4, 8])
    time = r.random() < 0.2
    p, n, T, nt = control_base("C03", r, seed, T=T, kinds=False, least=5.6 if time else 3)
    v = via(p, 0.45)
    res = passes(p, T)
    if r.random() < 0.35:
        p("op2 spin", r.randint(1, 400))
        for _ in range(r.randint(1, 2)):
            p("op2 wait", condition(r, T, res, True, time))
        p("op2 status 2")
        p("op fork")
    for _ in range(r.randint(1, 3)):
        p("op start", batch(r, n, nt), r.choice([1, 1, 1, 2, 3]))
        if r.random() < 0.4:
            pause_op(p)
        for _ in range(r.randint(1, 3)):
            p("op wait", condition(r, T, res, True, time))
            if r.random() < 0.3:
                pause_op(p)
        if r.random() < 0.7:
            p("op stop")
        if r.random() < 0.2:
            p("op stop")
            p("op guard evaluate")
        if r.random() < 0.2:
            p("op stop")
            p("op train", "%dep" % r.randint(1, 5), 1, 1)
    return p


def time_limit(r):
    if r.random() < 0.06:
        return "%dmin" % int(10 ** r.uniform(2, 5)) # up to two months
    k = r.random()
    if k < 0.5:
        return "%dms" % int(10 ** r.uniform(0, 3.3))
    if k < 0.75:
        return "%ds" % r.randint(1, 5)
    if k < 0.9:
        return "%dms" % r.randint(1, 20)
    return "%dmin" % r.randint(1, 2)


def ns(t):
    for u, m in (("ms", 1e6), ("min", 6e10), ("s", 1e9)):
        if t.endswith(u):
            return float(t[:-len(u)]) * m


def gen_C04(r, seed):
    T = r.choice([1, 2, 4])
    p = P("C04", "control", r, seed)
    schedule(p)
    clock(p, 0.7)
    n, T, i, o, nt = small_data(p, T=T, n=r.choice([17, 20, 33, 40]) if r.random() < 0.15 else r.randint(2, 8), kinds=False)
    network(p, i, o, kinds=("nt",))
    limit = time_limit(r)
    L = ns(limit)
    # at most some hundreds of steps
    unit = L / r.choice([3, 10, 40, 120])
    tc = int(unit * r.uniform(0.2, 1.5)) + 1000
    ec = int(unit * r.uniform(0, 1.0)) + 1000
    p("traincost", tc)
    p("evalcost", ec)
    if r.random() < 0.3:
        p("slow", r.randint(0, 20), int(L * r.uniform(0.2, 3)))
    if r.random() < 0.3:
        via(p, 1)
    passes(p, T)
    polls = L / 1e6
    mode = r.random()
    if mode < 0.5 or polls > 6000:
        e = limit
        k = r.random()
        if k < 0.2:
            e = "%dep||%s" % (r.randint(1, 60), limit)
        elif k < 0.35:
            e = "%dep&&%s" % (r.randint(1, 5), limit)
        elif k < 0.5:
            e = "%s%s%s" % (limit, r.choice(["||", "&&"]), limit if r.random() < 0.2 else "%dms" % max(1, int(L / 1e6 * r.uniform(0.2, 2))))
        elif k < 0.6:
            e = "%gacc||%s" % (r.randint(1, T) / T, limit)
        elif k < 0.7:
            e = "%gmae&&%s" % (0.25, limit)
        p("op train", e, batch(r, n, nt), r.choice([1, 1, 2, 5] + ([] if "acc" in e or "mae" in e else [0, 0])))
        if r.random() < 0.3:
            p("op train", limit, 1, 1)
    else:
        if r.random() < 0.15:
            p("op wait", limit)
        p("op start", batch(r, n, nt), r.choice([0, 1, 1, 2]))
        for _ in range(r.randint(1, 2)):
            p("op wait", limit)
            if r.random() < 0.3:
                pause_op(p)
        if r.random() < 0.5:
            p("op stop")
            p("op wait", "%dms" % r.randint(1, 50))
    return p


def gen_C05(r, seed):
    T = r.choice([1, 2, 4, 8])
    p = P("C05", "control", r, seed)
    schedule(p, light=True)
    timed = r.random() < 0.3
    if timed:
        clock(p, 0.5)
        costs(p, 1, 5)
    prob = r.choice(["cls", "multi", "reg"])
    n, T, i, o, nt = small_data(p, problem=prob, T=T, kinds=False, extra="dyadic")
    network(p, i, o)
    via(p, 0.3)
    if r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            p("op2", r.choice(["status", "spin"]), r.randint(1, 60))
        p("op fork")
    # seldom good enough
    k = r.randint(1, 8)
    cur = []
    for _ in range(k):
        cur.append((r.randint(0, T), r.choice([0, 0.0625, 0.03125]), r.choice([0.25, 0.5, 0.375])))
    cur.append((T, 0, 0.25))
    for x in cur:
        p("pass", *x)
    for _ in range(r.randint(1, 3)):
        F = r.choice([1, 1, 1, 2, 3, 0])
        c = condition(r, T, cur, False, timed)
        if F == 0:
            c = "%dms" % r.randint(1, 200) if timed else "%dep" % r.randint(1, 6) if r.random() < 0.7 else "%dep||%dep" % (r.randint(1, 6), r.randint(1, 6))
        p("op train", c, batch(r, n, nt), F)
        if r.random() < 0.2:
            p("op guard evaluate")
    if r.random() < 0.5:
        p("op mix", mixture(r))
    return p


def io_fault(p, ops=("open", "write", "close", "rename")):
    r = p.r
    op = r.choice(ops)
    k = r.randint(1, 3)
    err = r.choice(["ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EROFS"])
    if op == "write" and r.random() < 0.3:
        p("full", int(10 ** r.uniform(0, 3.7)))
    else:
        p("io", op, str(k) + r.choice(["", "+"]), err)


def gen_C13(r, seed, prop="C13"):
    p = P(prop, "control", r, seed)
    schedule(p, light=r.random() < 0.7)
    prob = r.choice(["cls", "multi", "reg"])
    bad = r.random() < 0.12
    if bad:
        prob = "cls"
    n, T, i, o, nt = small_data(p, problem=prob, kinds=not bad, shaped=0.1)
    network(p, i, o, kinds=("nt", "conv"))
    costs(p, 0.3)
    p("mode", r.choice(["sync", "async", "async"]))
    p("then", r.choice(["stop", "wait", "start", "destroy", "stop"]))
    p("batch", batch(r, n, nt))
    p("freq", r.choice([1, 1, 2, 0]))
    p("epochs", r.randint(1, 4))
    if r.random() < 0.4:
        p("early 1")
        p("pauses", int(10 ** r.uniform(0, 3.3)))
    if r.random() < 0.4:
        p("waitafter 1")
    if bad:
        p("badlabel", r.randrange(T))
    else:
        k = r.random()
        if k < 0.6:
            p("oom", int(10 ** r.uniform(0, 3)), r.choice([1, 1, 2, 5]))
        elif k < 0.9:
            p("autosave 1")
            io_fault(p)
        else:
            p("threadfail 1")
            if r.random() < 0.5:
                p("autosave 1")
    return p


def gen_C18(r, seed, prop="C18"):
    T = r.choice([1, 2, 3, 5])
    p, n, T, nt = control_base(prop, r, seed, T=T, kinds=r.random() < 0.3)
    if r.random() < 0.7:
        p("autosave 1")
    B = batch(r, n, nt)
    F = r.choice([1, 1, 2])
    if r.random() < 0.5:
        p("nantrain", r.randint(0, 3 * n))
    else:
        p("naneval", r.randint(0, 3), r.randrange(T))
    if r.random() < 0.5:
        p("nanvalue", r.choice(["-nan", "inf", "-inf"]))
    if nt and r.random() < 0.6:
        passes(p, T)
    m = r.random()
    if m < 0.3 and prop != "C03":
        p("op train", "%dep" % r.randint(4, 8), B, F)
    else:
        p("op start", B, F)
        k = r.random() if prop != "C03" else 0.6
        if k < 0.5:
            p("op awaitend")
        elif k < 0.8:
            p("op wait", r.choice(["9999ep", "2000ms||9999ep"]) if r.random() < 0.5 else "9999ep")
            p("op awaitend")
        else:
            pause_op(p)
        if r.random() < 0.3:
            p("op fork")
            p("op2 status 20")
        p("op", r.choice(["stop", "stop", "start 1 1", "destroy"]))
    p("op check")
    if r.random() < 0.4:
        p("op start 1 1")
        p("op awaitend")
        p("op stop")
        p("op check")
    return p


def data_ops(p, key, n, nt, ts=False, R=0, timed=False):
    r = p.r
    k = 0
    for _ in range(r.randint(2, 7)):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 2])
        if x < 0.35:
            e = "%dep" % (r.randint(R + 1, 2 * R + 3) if ts else r.randint(1, 5))
            if timed and r.random() < 0.4:
                e = "%dms" % r.randint(1, 60)
            p(key, "train", e, B, F)
        elif x < 0.6:
            p(key, "start", B, F)
            for _ in range(r.randint(0, 3)):
                y = r.random()
                if y < 0.5:
                    p(key, "until", r.randint(1, 4 * n))
                elif y < 0.7:
                    p(key, "spin", int(10 ** r.uniform(0, 3)))
                elif y < 0.85:
                    p(key, "restart")
                else:
                    p(key, "wait", "%dep" % r.randint(1, 3))
            if r.random() < 0.7:
                p(key, "stop")
        elif x < 0.75:
            p(key, "evaluate")
        elif x < 0.87:
            p(key, "shuffle")
        else:
            p(key, "unshuffle")


def data_plan(prop, r, seed):
    p = P(prop, "data", r, seed)
    schedule(p)
    timed = r.random() < 0.2
    if timed:
        clock(p, 0.4)
        costs(p, 1, 5)
    else:
        costs(p, 0.4)
    if prop == "C06" and r.random() < 0.02:
        n = r.randint(2, 6)
        p("data nt", r.choice(["cls", "multi", "reg"]), n, 2, n, r.randint(1, 2), r.randint(0, 999), "onehot")
        p("net in:%d fc:2 lr:0.001" % n)
        p("op train", "%dep" % r.randint(80, 160), 1, r.choice([0, 20]))
        if r.random() < 0.5:
            p("op", r.choice(["shuffle", "unshuffle", "evaluate"]))
        p("op train", "80ep", 1, r.choice([0, 20]))
        return p
    lanes = 2 if r.random() < 0.35 else 1
    if lanes == 2 and r.random() < 0.15:
        p("concurrent 0")
    for k in range(lanes):
        prob = r.choice(["cls", "multi", "reg"])
        o = r.randint(2, 3)
        n, R = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16]), 0
        T = r.randint(1, 6)
        same = "same" if r.random() < 0.2 else ""
        if prop == "C06":
            i = n
            p("data nt", prob, i, o, n, T, r.randint(0, 999), "onehot", same)
            network(p, i, o, kinds=("nt",))
            ts = False
        elif r.random() < 0.5:
            lens = [r.randint(1, 5) for _ in range(r.randint(1, 4))]
            tl = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
            n, i = sum(lens), r.randint(1, 3)
            p("data seq", prob, i, o, n, sum(tl), r.randint(0, 999), "lens=" + ",".join(map(str, lens)), "tlens=" + ",".join(map(str, tl)), same)
            network(p, i, o, nets=RECS + NETS[:3])
            ts = False
        else:
            R, i = r.randint(1, 4), r.randint(1, 3)
            n = R + 1 + r.randint(0, 11)
            if r.random() < 0.05:
                n = r.randint(1, R)
                p("short 1")
            p("data ts", prob, i, o, n, T, r.randint(0, 999), "R=%d" % R, same)
            network(p, i, o, nets=RECS + NETS[:3])
            ts = True
        data_ops(p, "op" if k == 0 else "op2", n, prop == "C06", ts, R, timed)
    if lanes == 1 and r.random() < 0.25:
        p("oomnext", r.randint(0, 6), int(10 ** r.uniform(0, 3)), r.choice([1, 1, 3]))
    if r.random() < 0.5:
        p("unshuffle 1")
    return p


def gen_C06(r, seed):
    return data_plan("C06", r, seed)


def gen_C07(r, seed):
    return data_plan("C07", r, seed)


PLAINREC = ["in:{i} rec:3 fc:{o}", "in:{i} gru:3 fc:{o}", "in:{i} gru:2 rec:3 fc:{o}", "in:{i} rec:4 fc:{o}:tanh", "in:{i} gru:{o}", "in:{i} rec:{o}",
            "in:{i} fc:3 gru:2 fc:{o}", "in:{i} rec:2 rec:2 fc:{o}", "in:{i} rec:3 gru:{o}", "in:{i} fc:3:tanh rec:2:relu fc:{o} lr:0.01"]


def temporal_data(p, extra=""):
    """sequences or a time series; returns training size, test size, recurrences"""
    r = p.r
    prob = r.choice(["cls", "multi", "reg"])
    i, o = r.randint(1, 4), r.randint(2, 3)
    if r.random() < 0.55:
        lens = [r.randint(1, 5) for _ in range(r.randint(1, 4))]
        tl = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
        p("data seq", prob, i, o, sum(lens), sum(tl), r.randint(0, 999), "lens=" + ",".join(map(str, lens)), "tlens=" + ",".join(map(str, tl)), extra)
        return sum(lens), sum(tl), 0, i, o
    R = r.randint(1, 3)
    n, T = R + 1 + r.randint(0, 6), r.randint(1, 6)
    p("data ts", prob, i, o, n, T, r.randint(0, 999), "R=%d" % R, extra)
    return n, T, R, i, o


def life(p, key, n, nt, count, files=(), hold=True, mutate=True, use=True):
    """operations on one network that never fail"""
    r = p.r
    for _ in range(count):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 2])
        if x < 0.25:
            p(key, "train", "%dep" % r.randint(1, 3), B, F)
        elif x < 0.45:
            if hold:
                p(key, "hold", r.randint(1, 3 * n), B, F)
            else:
                p(key, "train", "1ep", B, F)
        elif x < 0.55:
            p(key, "evaluate")
        elif x < 0.65 and use:
            p(key, r.choice(["use", "use", "cluster"]), r.randint(1, 4), r.randint(0, 1))
        elif x < 0.73:
            p(key, r.choice(["save", "reload", "reload", "copy", "copy"]))
        elif x < 0.78 and mutate:
            if r.random() < 0.75:
                p(key, "lr", r.choice([1, 30, 100]), r.choice([0, 0, 500]))
            else:
                p(key, "between", r.choice([r.randint(1, 20), r.randint(1, 20), 10 ** r.randint(3, 6)]))
        elif x < 0.84:
            p(key, "autosave", r.randint(0, 1))
        elif x < 0.9:
            p(key, r.choice(["shuffle", "unshuffle"]))
        elif x < 0.93:
            p(key, "data")
        elif x < 0.945:
            p(key, "summary")
        elif x < 0.955 and mutate:
            p(key, "once", r.randint(1, 5), r.randint(0, 2))
        elif x < 0.97 and use:
            p(key, "bitmaps")
        elif files:
            p(key, "load", r.choice(files))


def gen_C14(r, seed):
    p = P("C14", "twin", r, seed)
    schedule(p)
    costs(p, 0.3)
    lanes = r.choice([2, 2, 3])
    common = r.random() < 0.3
    if r.random() < 0.3:
        p("stem 1")
    if common:
        p("common 1")
    same = r.random() < 0.4  # identical networks or data
    if same:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6))
        net = r.choice(NETS + CONVS + RECS).format(i=i, o=o)
    for k in range(lanes):
        if same:
            p("net", net)
        else:
            n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.2)
            network(p, i, o, kinds=("nt", "conv", "rec"))
        key = "op" if k == 0 else "op%d" % (k + 1)
        life(p, key, n, nt, r.randint(1, 5), ["common.snn"] if common and (k == 0 or same) else [])
        if same and r.random() < 0.5:
            for _ in range(r.randint(1, 3)):
                p(key, "evalshared")
                if r.random() < 0.4:
                    life(p, key, n, nt, 1)
    if same:
        p("shared 1")
    return p


ALLREC = ["in:{i} rec:{o}:tanh", "in:{i} rec:2:tanh rec:{o}:tanh", "in:{i} rec:3:tanh rec:2:tanh rec:{o}:tanh", "in:{i} gru:{o}", "in:{i} gru:3 gru:{o}",
          "in:{i} gru:2 rec:{o}:tanh", "in:{i} rec:3:tanh gru:{o}", "in:{i} rec:2:tanh rec:3:tanh gru:2 rec:{o}:tanh", "in:{i} gru:3:drop0.3 rec:{o}:tanh",
          "in:{i} rec:4:sigmoid rec:{o}:tanh", "in:{i} rec:3:tanh:drop0.4 gru:2 gru:{o}"]


def gen_learnpast(p):
    r = p.r
    p("learnpast 1")
    if r.random() < 0.8:
        n, T, R, i, o = temporal_data(p)
        nt = False
    else:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 8), kinds=False)
    p("net", r.choice(ALLREC).format(i=i, o=o))
    p("rate", r.choice([1, 30, 100, 300]))

    def ops(key, count, learn=True):
        for _ in range(count):
            x = r.random()
            B, F = batch(r, n, nt), r.choice([0, 1, 1, 2])
            if learn and x < 0.3:
                p(key, "train", "%dep" % r.randint(1, 3), B, F)
            elif learn and x < 0.75:
                p(key, "hold", r.randint(1, 2 * n + T), B, F, r.choice(["", "all"]))
            elif x < 0.9:
                p(key, "use", r.randint(1, 6), 1 if key == "op" else r.choice([0, 1]))
            else:
                p(key, "evaluate")

    ops("past", r.randint(1, 4))
    if r.random() < 0.5:
        ops("other", r.randint(1, 2), False)
    p("op", *r.choice([("train", "%dep" % r.randint(1, 3), 1, r.choice([0, 1])), ("hold", r.randint(1, 2 * n), 1, 0)]))
    ops("op", r.randint(0, 2))
    return p


def gen_C15(r, seed):
    p = P("C15", "twin", r, seed)
    schedule(p, light=True)
    if r.random() < 0.35:
        return gen_learnpast(p)
    if r.random() < 0.8:
        n, T, R, i, o = temporal_data(p)
        nt = False
    else:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 8), kinds=False)
    p("net", r.choice(PLAINREC).format(i=i, o=o))
    for _ in range(r.randint(2, 6)):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 2])
        if x < 0.35:
            p("op use", r.randint(1, 6), r.choice([0, 1, 1]))
        elif x < 0.5:
            p("op other", r.randint(1, 4), r.randint(0, 1))
        elif x < 0.6:
            p("op evaluate")
        elif x < 0.7:
            p("op train", "%dep" % r.randint(1, 3), B, F)
        elif x < 0.88:
            p("op hold", r.randint(1, 2 * n + T), B, F, r.choice(["", "all"]))
        else:
            p("op", r.choice(["reload", "copy", "save", "shuffle"]))
    p("op use", r.randint(2, 5), r.choice([0, 1]))
    return p


def gen_C16(r, seed):
    p = P("C16", "twin", r, seed)
    schedule(p)
    n, T, i, o, nt = small_data(p, n=r.randint(2, 8), shaped=0.25)
    network(p, i, o, kinds=("nt", "conv"))

    def extra():
        while r.random() < 0.55:
            x = r.random()
            if x < 0.3:
                p("op x evaluate")
            elif x < 0.6:
                p("op x", r.choice(["use", "cluster"]), r.randint(1, 5), r.randint(0, 1))
            elif x < 0.8:
                p("op x again")
            else:
                p("op x", r.choice(["summary", "save", "copy", "bitmaps"]))

    for _ in range(r.randint(1, 5)):
        extra()
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 1, 2])
        if x < 0.45:
            p("op train", "%dep" % r.randint(1, 4), B, F)
        elif x < 0.75:
            p("op hold", r.randint(1, 3 * n), B, F)
        elif x < 0.83:
            p("op", r.choice(["reload", "copy"]))
        elif x < 0.9:
            p("op lr", r.choice([1, 30, 100]), r.choice([0, 0, 500]))
        elif x < 0.94:
            p("op", r.choice(["shuffle", "unshuffle"]))
        elif x < 0.97:
            p("op once", r.randint(1, 5), r.randint(0, 2))
        else:
            p("op autosave 1")
    extra()
    return p


def gen_C17(r, seed):
    p = P("C17", "twin", r, seed)
    schedule(p)
    T = r.choice([1, 2, 4, 8])
    scripted = r.random() < 0.5
    if scripted:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6), T=T, kinds=False)
        passes(p, T, last_good=False)
    else:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6), T=T, shaped=0.2)
    network(p, i, o, kinds=("nt", "conv", "rec"))
    ops = 0
    if r.random() < 0.3:
        p("op autosave 1")
        ops += 1
    for _ in range(r.randint(2, 7)):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 1, 2])
        if x < 0.3:
            p("op train", "%dep" % r.randint(1, 4), B, F)
        elif x < 0.5:
            p("op hold", r.randint(1, 3 * n + T), B, F, r.choice(["", "all"]))
        elif x < 0.7:
            p("op evaluate")
        elif x < 0.82:
            p("op", r.choice(["reload", "copy", "reload"]))
        elif x < 0.92:
            p("op restart")
        else:
            p("op use 3 1")
        ops += 1
    k = r.random()
    if k < 0.25:
        p("naneval", r.randint(0, 4), r.randrange(T))
    elif k < 0.5:
        p("oomnext", r.randrange(ops), int(10 ** r.uniform(0, 3)), r.choice([1, 1, 3]))
    return p


def gen_C22(r, seed):
    p = P("C22", "stats", r, seed)
    schedule(p)
    costs(p, 0.2)
    shared = r.random() < 0.2
    lanes = r.choice([2, 2, 3]) if shared else r.choice([1, 1, 1, 2])
    i, o = r.randint(2, 4), r.randint(2, 4)
    sets = r.randint(1, 3)
    n = 9
    plain = True
    for _ in range(sets):
        m, T = r.randint(2, 8), r.choice([1, 2, 3, 5, 8, 12])
        n = min(n, m)
        prob = r.choice(["cls", "multi", "reg"])
        k = r.random()
        if k < 0.75:
            p("data nt", prob, i, o, m, T, r.randint(0, 999))
        elif k < 0.9:
            lens = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
            tl = [r.randint(1, 4) for _ in range(r.randint(1, 4))]
            p("data seq", prob, i, o, sum(lens), sum(tl), r.randint(0, 999), "lens=" + ",".join(map(str, lens)), "tlens=" + ",".join(map(str, tl)))
            plain = False
        else:
            R = r.randint(1, 3)
            p("data ts", prob, i, o, R + 1 + r.randint(0, 6), T, r.randint(0, 999), "R=%d" % R)
            plain = False
    if r.random() < 0.15:
        p("outputs", r.choice([1, -1, 10, 1000, 0.1]), r.choice([0, -3, 3, -2000, -0.5]))
    if r.random() < 0.2:
        p("steps 1")
    if shared:
        p("shared 1")
    for _ in range(lanes):
        network(p, i, o, kinds=("nt", "rec"))
    if r.random() < 0.6:
        p("readers", lanes if r.random() < 0.7 else 1)
    ops = 0
    for k in range(lanes):
        key = "op" if k == 0 else "op%d" % (k + 1)
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if sets > 1 and r.random() < 0.4:
                p(key, "with", r.randrange(sets))
            if r.random() < 0.2 and not shared:
                p(key, "limit", round(r.choice([r.uniform(0.02, 0.98), 0.5, 0.25]), 3))
            B, F = batch(r, n, plain), r.choice([0, 1, 1, 2])
            if shared:
                p(key, r.choice(["evaluate", "evaluate", "evaluate", "copy", "reload"]))
            elif x < 0.3:
                p(key, "train", "%dep" % r.randint(1, 3), B, F)
            elif x < 0.45:
                p(key, "hold", r.randint(1, 3 * n), B, F, r.choice(["", "all"]))
            elif x < 0.8:
                p(key, "evaluate")
            elif x < 0.95:
                p(key, r.choice(["reload", "copy", "save"]))
            else:
                p(key, "use 3 1")
            ops += k == 0
    if r.random() < 0.35 and lanes == 1:
        p("oomnext", r.randrange(ops), int(10 ** r.uniform(0, 2.5)), r.choice([1, 1, 3]))
    return p


WRONGDATA = ["noinputs", "noboth", "nolabels", "lessinputs", "lesslabels", "moreinputs", "morelabels", "shortinput", "longinput", "shortlabel", "longlabel",
             "emptyinput", "emptylabel", "emptysequence", "nosequence", "recurrences"]
WRONGNETS = ["in:3 fc:0", "in:0 fc:2", "in:3", "fc:2", "in:3 conv:2:9 fc:2", "in:1:2:2 pool:3 fc:1", "in:4 fc:3 in:2 fc:1", "in:2:3 conv:0:1 fc:2", "in:3 lc:2:0 fc:1"]


FILTERSLAST = [("1:3:3", "conv:1:2", 9, 4), ("2:4", "conv:1:3", 8, 2), ("2:4", "lc:1:2", 8, 2), ("2:4", "pool:2", 8, 4), ("1:4:4", "pool:2", 16, 4),
               ("1:4:4", "conv:1:3", 16, 4), ("1:2:5", "conv:1:2 conv:1:1", 10, 4), ("4", "conv:1:3", 4, 2), ("1:4:2", "lc:2:2", 8, 4), ("2:4", "fc:4 conv:1:3", 8, 2),
               ("1:4:4", "conv:1:2 pool:2", 16, 4), ("2:4", "conv:2:2:tanh conv:1:2", 8, 2)]


def gen_C25(r, seed):
    p = P("C25", "memory", r, seed)
    schedule(p)
    costs(p, 0.15)
    lanes = r.choice([1, 1, 1, 2])
    spied = r.random() < 0.35
    p("spied", int(spied))
    parallel = lanes > 1 and r.random() < 0.7
    if parallel:
        p("parallel 1")
    ops = 0
    for k in range(lanes):
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.35)
        network(p, i, o, kinds=("nt", "conv", "rec"))
        if r.random() < 0.12:  # the last layer has filters
            shape, layers, i, o = r.choice(FILTERSLAST)
            n, T, nt = r.randint(2, 6), r.randint(1, 4), True
            p[-2] = "data nt %s %d %d %d %d %d" % (r.choice(["cls", "multi", "reg"]), i, o, n, T, r.randint(0, 999))
            p[-1] = "net in:%s %s" % (shape, layers)
        key = "op" if k == 0 else "op%d" % (k + 1)
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.65:
                life(p, key, n, nt, 1, hold=spied)
            elif x < 0.8 and not parallel:
                p(key, "badload", r.choice([r.randint(0, 9999), r.randint(9000, 9999)]))
            elif x < 0.84:
                p(key, "badnet", r.choice(WRONGNETS))
            elif x < 0.88:
                p(key, "baddata", r.choice(WRONGDATA), r.randint(0, 7), r.choice(["nt", "nt", "seq", "flat", "ts"]), r.choice(["", "same"]))
            elif x < 0.89:
                p(key, "badindex", r.choice([-1, T, T, T + 7, 10 ** 6]))
            elif x < 0.9:
                p(key, "wrongdata", r.choice([1, 2, 7, i, max(1, i - 1), i + 1]), r.choice([1, 2, 6, o]))
            elif x < 0.93:
                p(key, "wrongarguments", r.choice([1, 1, 2, 17]))
            elif x < 0.96:
                p(key, "once", r.randint(1, 4))
            else:
                p(key, "bitmaps")
            ops += k == 0
        if r.random() < 0.1:
            p(key, "changed", int(10 ** r.uniform(0, 2.5)), r.choice([0, 1]), r.choice([1, 3, n + 1, 1000]))
        if r.random() < 0.4:
            p(key, "destroy")
    if r.random() < 0.4 and not parallel:
        p("oomnext", r.randrange(ops), int(10 ** r.uniform(0, 3)), r.choice([1, 1, 3]))
    return p


def gen_C19(r, seed):
    p = P("C19", "twin", r, seed)
    schedule(p)
    costs(p, 0.2)
    n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.25)
    network(p, i, o, kinds=("nt", "conv", "rec"))
    life(p, "op", n, nt, r.randint(0, 4))
    if r.random() < 0.1:
        p("op train 3ep", batch(r, n, nt), 1)
        p("nantrain", r.randint(0, 3 * n))
    if r.random() < 0.2:  # in the middle of a sequence
        p("op once", r.randint(1, 5), r.randint(0, 2))
        p("op2 once", r.randint(1, 5), 2)
    life(p, "op2", n, nt, r.randint(1, 4))
    if r.random() < 0.35:
        p("chain", r.randint(2, 3))
        if r.random() < 0.5:
            p("dropintermediate 1")
    if r.random() < 0.3:
        p("destroyfirst 1")
    k = r.random()
    if k < 0.35:
        p("parallel 1")
    elif k < 0.7:
        p("parallel2 1")
    if k < 0.7:
        life(p, "op3", n, nt, r.randint(1, 4))
        if r.random() < 0.3:
            p("op3 destroy")
    return p


def persist(prop, r, seed, spied=None, light=True, **k):
    p = P(prop, "persist", r, seed)
    schedule(p, light=light)
    n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.2, **k)
    network(p, i, o, kinds=("nt", "conv", "rec"))
    spied = r.random() < 0.5 if spied is None else spied
    p("spied", int(spied))
    if r.random() < 0.25:  # of each process in turn
        p("locale", *[r.choice(["classic", "comma", "groups", "space"]) for _ in range(4)])
    return p, n, T, nt, spied


def gen_C08(r, seed):
    p, n, T, nt, spied = persist("C08", r, seed)
    life(p, "op", n, nt, r.randint(0, 5), hold=spied)
    if r.random() < 0.3:
        p("op2 lr", r.choice([1, 30, 100]), r.choice([0, 0, 500]))
        p("op2 train 1ep", batch(r, n, nt), 1)
    if r.random() < 0.2:  # in the middle of a sequence
        p("op once", r.randint(1, 5), r.randint(0, 2))
        p("op2 once", r.randint(1, 5), 2)
    life(p, "op2", n, nt, r.randint(1, 4), hold=spied)
    if spied and r.random() < 0.15:
        p("naneval", r.randint(0, 3), r.randrange(T))
    if r.random() < 0.4:
        p("generations", r.randint(1, 3))
    if r.random() < 0.5:
        p("fresh 1")
    if r.random() < 0.2:
        p("file", r.choice(["other name.snn", "a", "x.y.z", "net.snn.tmp"]))
    if r.random() < 0.15:  # the file has another name by then
        p("moved 1")
    if spied and r.random() < 0.3:
        passes(p, T, last_good=False)
    return p


def gen_C09(r, seed):
    p, n, T, nt, spied = persist("C09", r, seed)
    life(p, "op", n, nt, r.randint(0, 3), hold=spied)
    if r.random() < 0.75:
        p("first 1")
    auto = spied and r.random() < 0.25
    if auto:
        p("auto 1")
        p("op2 train %dep" % r.randint(2, 8), batch(r, n, nt), 1)
        passes(p, T)
    else:
        life(p, "op2", n, nt, r.randint(0, 3), hold=spied)
        if r.random() < 0.3:
            p("saves", r.randint(2, 3))
            life(p, "op3", n, nt, 1, hold=spied)
    if r.random() < 0.2:
        p("debris", r.choice([1, 10, 1000, 100000]))
    x = r.random()
    if x < 0.55:
        p("iocrash", r.randint(1, 6 if not auto else 20), *r.choice([["before"], ["after"], ["part", int(10 ** r.uniform(0, 3.7))]]))
    elif x < 0.95:
        p("crashafter", int(10 ** r.uniform(0, 4.3)))
    if r.random() < 0.2:
        p("io write", "%d+" % r.randint(1, 2), "short", r.choice([1, 100, 1000]))
    return p


def gen_C10(r, seed):
    p, n, T, nt, spied = persist("C10", r, seed)
    life(p, "op", n, nt, r.randint(0, 3), hold=spied)
    if r.random() < 0.75:
        p("first 1")
        life(p, "op2", n, nt, r.randint(0, 2), hold=spied)
    if r.random() < 0.4:
        p("tries", r.randint(2, 4))
    if r.random() < 0.5:
        p("between 1")
    x = r.random()
    if x < 0.1:
        p("place", r.choice(["missing", "directory"]))
    elif x < 0.2:
        p("oom", int(10 ** r.uniform(0, 3)), r.choice([1, 1, 3, 50]))
    elif x < 0.3:
        p("full", int(10 ** r.uniform(0, 3.9)))
    elif x < 0.4:
        p("io write", "%d+" % r.randint(1, 2), "short", int(10 ** r.uniform(0, 3)))
        if r.random() < 0.5:
            io_fault(p)
    elif x < 0.47:
        p("io", r.choice(["write", "open", "close"]), r.randint(1, 2), "EINTR")
    else:
        io_fault(p)
        if r.random() < 0.2:
            io_fault(p)
    return p


STRANGE = ["bytes", "zeros", "digits", "words", "header", "headerwords", "reversed", "tail", "twice"]


def gen_C11(r, seed):
    p, n, T, nt, spied = persist("C11", r, seed, spied=r.random() < 0.15)
    life(p, "op", n, nt, r.randint(0, 2), hold=spied)
    if r.random() < 0.3:
        p("restart 1")
    faulty = r.random() < 0.2
    for _ in range(r.randint(3, 12)):
        x = r.random()
        if x < 0.3:
            p("broken cut", r.randint(0, 10000))
        elif x < 0.5:
            p("broken cutend", r.choice([1, 1, 2, 3, r.randint(1, 60), r.randint(1, 400)]))
        elif x < 0.65:
            p("broken cutnumber", r.randint(1, 200), r.randint(0, 2))
        elif x < 0.69:
            p("broken empty")
        elif x < 0.71:
            p("broken missing")
        elif x < 0.725:
            p("broken leftover", r.choice([0, 0, r.randint(1, 9999)]))
        elif x < 0.75:
            p("broken directory")
        elif x < 0.89:
            p("broken", r.choice(STRANGE), r.randint(1, 10 ** 6))
        elif x < 0.92:
            p("broken archive", r.randint(0, 4), r.randint(0, 10 ** r.randint(0, 9)))
        elif x < 0.95:
            p("broken oom", int(10 ** r.uniform(0, 2.8)), r.choice([1, 1, 2, 20]))
        elif faulty and r.random() < 0.7:
            faulty = False
            key = "io2" if "restart 1" in p else "io"
            op = r.choice(["read", "read", "open"])
            p("broken", op)
            p(key, op, "%d%s" % (1 if op == "open" else r.randint(1, 2), r.choice(["", "+"])), r.choice(["EIO", "EACCES", "EMFILE"]))
    if r.random() < 0.2:
        key = "io2" if "restart 1" in p else "io"
        p(key, "read 1+ short", r.choice([1, 7, 100]))
        p("broken read")
    return p


def gen_C12(r, seed):
    T = r.choice([1, 2, 4, 8])
    scripted = r.random() < 0.5
    p, n, T, nt, spied = persist("C12", r, seed, spied=True, light=False, T=T, problem=None if r.random() < 0.5 else "cls", kinds=False if scripted else True)
    if "rec:" in str(p) or "gru:" in str(p):
        p("recurrent 1")
    if scripted:
        passes(p, T)
    if r.random() < 0.3:
        p("first 1")
    for _ in range(r.randint(1, 5)):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([1, 1, 1, 2])
        if x < 0.4:
            p("op train", "%dep" % r.randint(1, 6), B, F)
        elif x < 0.75:
            p("op hold", r.randint(1, 4 * (n + T)), B, F, r.choice(["", "all"]))
        elif x < 0.85:
            p("op evaluate")
        elif x < 0.93:
            p("op", "copy")
        else:
            p("op load auto.snn")
    x = r.random()
    if x < 0.35:
        p("crashafter", int(10 ** r.uniform(1.5, 4.8)))
    elif x < 0.5:
        p("iocrash", r.randint(1, 20), *r.choice([["before"], ["after"], ["part", int(10 ** r.uniform(0, 3.7))]]))
    elif x < 0.65:
        io_fault(p)
    elif x < 0.75:
        p("oomnext", r.randint(0, 4), int(10 ** r.uniform(0, 3.3)), r.choice([1, 1, 3]))
    elif x < 0.8:
        p("naneval", r.randint(0, 4), r.randrange(T))
    return p


def picture_net(r):
    """filter layers in two dimensions (sometimes one), what is before the last layer"""
    C, X, Y = r.choice([1, 1, 2, 3, 4]), r.randint(1, 6), r.randint(1, 6)
    shape = [C, X, Y] if r.random() < 0.93 else [C, X * Y]
    layers, cur = ["in:" + ":".join(map(str, shape))], list(shape)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        k = r.randint(1, min([3] + cur[1:]))
        F = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 10])
        kind = r.choice(["conv", "conv", "lc", "lc", "pool"])
        act = r.choice(["", "", ":sigmoid", ":relu", ":tanh", ":gaussian", ":identity"])
        if act in (":relu", ":identity") and any(x.endswith(act) for x in layers):
            act = ""
        layers.append("pool:%d" % k if kind == "pool" else "%s:%d:%d%s" % (kind, F, k, act))
        if kind == "conv":
            cur = [F] + [x - k + 1 for x in cur[1:]]
        else:
            cur = [F if kind == "lc" else cur[0]] + [-(-x // k) for x in cur[1:]]
        if r.random() < 0.12 and kind != "pool":
            layers[-1] += r.choice([":drop0.3", ":l2_0.01"])
    size = 1
    for x in shape:
        size *= x
    return layers, size


def picture_fault(p):
    r = p.r
    x = r.random()
    if x < 0.25:
        return ["oom", int(10 ** r.uniform(0, 2.5)), r.choice([1, 1, 3, 50])]
    if x < 0.35:
        return ["missing"]
    if x < 0.45:
        return ["directory"]
    if x < 0.6:
        return ["old", r.choice([1, 54, 100, 1000, 9000])]
    y = r.random()
    if y < 0.2:
        p("io write", "%d%s" % (r.randint(1, 3), r.choice(["", "+"])), "short", int(10 ** r.uniform(0, 2.5)))
        if r.random() < 0.5:
            io_fault(p, ("open", "write", "close"))
    elif y < 0.3:
        p("io", r.choice(["write", "open", "close"]), r.randint(1, 3), "EINTR")
    elif y < 0.45:
        p("full", int(10 ** r.uniform(0, 3)))
    else:
        io_fault(p, ("open", "write", "close"))
    return ["io"]


def gen_C26(r, seed):
    p = P("C26", "exports", r, seed)
    schedule(p)
    lanes = r.choice([1, 1, 1, 2])
    faults = 0
    for k in range(lanes):
        layers, i = picture_net(r)
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6), i=i, extra="pixels")
        layers.append("fc:%d" % o)
        if r.random() < 0.3:
            layers.append("mom:0.5")
        p("net", " ".join(layers))
        key = "op" if k == 0 else "op%d" % (k + 1)
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.5:
                life(p, key, n, nt, r.randint(1, 2), hold=False)
            x = r.random()
            what = r.choice(["maps", "maps", "filters", "filters", "inputs"])
            name = r.choice(["picture", "picture", "a.b", "x", "layer_1", "long name with spaces", "sub"])
            if x < 0.08:
                p(key, "busy", what, k, r.randrange(T), int(10 ** r.uniform(0, 2.5)))
            else:
                p(key, what, "%s%d" % (name.replace(" ", "_"), k), r.randrange(T), *(picture_fault(p) if lanes == 1 and r.random() < 0.5 else []))
    return p


def gen_C27(r, seed):
    p = P("C27", "steps", r, seed)
    schedule(p)
    costs(p, 0.2)
    while True:
        keep = list(p)
        n, T, i, o, nt = small_data(p, n=r.randint(2, 8), shaped=0.25)
        network(p, i, o, kinds=("nt", "conv", "rec"))
        tokens = p[-1].split()[1:]
        if not any("drop" in t and "softmax" in t for t in tokens):
            break
        p[:] = keep
    tokens = p[-1].split()[1:]
    if r.random() < 0.3 and not any("drop" in t for t in tokens):  # more dropout
        k = [x for x in range(len(tokens)) if tokens[x].split(":")[0] in ("fc", "rec", "gru") and "softmax" not in tokens[x]]
        if k:
            x = r.choice(k)
            tokens[x] += ":drop%s" % r.choice([0.1, 0.3, 0.5])
            p[-1] = "net " + " ".join(tokens)
    temporal = any(t.startswith(("rec", "gru")) for t in tokens)
    if not temporal and r.random() < 0.6:
        p("skip 1")
    life(p, "op", n, nt, r.randint(1, 5))
    if r.random() < 0.2:
        p("op once", r.randint(1, 5), r.randint(0, 2))
    if r.random() < 0.5:
        p("op hold", r.randint(1, 4 * n), batch(r, n, nt), r.choice([0, 1, 2]), r.choice(["", "all"]))
    else:
        p("op train", "%dep" % r.randint(2, 4), batch(r, n, nt), r.choice([0, 1, 2]))
    life(p, "op", n, nt, r.randint(0, 2))
    p("op use", r.randint(1, 4), 1)
    return p


def gen_C28(r, seed):
    p = P("C28", "chance", r, seed)
    schedule(p, light=True)
    lanes = r.choice([1, 2, 2, 3])
    if lanes > 1:
        x = r.random()
        if x < 0.6:
            p("parallel 1")
        elif x < 0.8:
            p("onethread 1")
    same = r.random() < 0.6
    long = r.random() < 0.4
    for k in range(lanes):
        if k == 0 or not same:
            i, o, n = r.randint(2, 5), r.randint(2, 3), r.choice([2, 3, 4, 5, 6, 8, 9, 13])
            nature = r.choice(["nt"] * 12 + ["seq"] * 2 + ["ts"] * 3)
            if nature == "nt":
                p("data nt", r.choice(["cls", "multi", "reg"]), i, o, n, 1, r.randint(0, 999))
            elif nature == "ts":
                p("data ts", r.choice(["cls", "multi", "reg"]), i, o, n, 1, r.randint(0, 999), "R=%d" % r.randint(1, min(3, n - 1)))
            else:
                lens = [r.randint(1, 3) for _ in range(r.randint(2, 5))]
                n = sum(lens)
                p("data seq", r.choice(["cls", "reg"]), i, o, n, 1, r.randint(0, 999), "lens=" + ",".join(map(str, lens)), "tlens=1")
            layers = ["in:%d" % i]
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                # no output must be 0 unless it is dropped, even where all the inputs are dropped
                layers.append(r.choice(["fc:%d", "fc:%d", "fc:%d:tanh", "rec:%d:tanh", "gru:%d"] if len(layers) == 1 else ["fc:%d"]) % r.choice([2, 3, 5, 8, 9, 17])
                              + r.choice(["", "", "", ":em0.9", ":l2_0.001"])
                              + (":drop%s" % r.choice([0.05, 0.1, 0.25, 0.3, 0.5, 0.7, 0.9]) if r.random() < 0.7 else ""))
            if r.random() < 0.15:  # the neurons that follow have only one input
                layers.append("fc:1")
                if r.random() < 0.5:
                    layers.append("fc:%d" % r.choice([2, 3, 9]))
            layers.append("fc:%d" % o + (":drop%s" % r.choice([0.1, 0.5]) if r.random() < 0.1 else ""))
            layers.append("lr:0.001")
            net, data = "net " + " ".join(layers), p[-1]
            p(net)
        else:
            p(data)
            p(net)
    for _ in range(r.randint(1, 3)):
        k = r.random()
        epochs = min(r.choice([4, 10, 30]) if not long else r.choice([100, 200]), 1500 // (lanes * n) + 1)
        if k < 0.6:
            p("op train", "%dep" % epochs, 1, r.choice([0, 0, 1]))
        elif k < 0.8:
            p("op hold", n * min(epochs, 30) + r.randint(0, n), 1, 0)
        else:
            p("op", r.choice(["copy", "reload", "evaluate", "shuffle", "use 2 1"]))
    if r.random() < 0.3:
        p("op draw", r.choice([300, 3000, 20000]))
    p("op train", "%dep" % min(20 if not long else 150, 2500 // (lanes * n) + 1), 1, 0)
    if long:
        p[:] = [x for x in p if not x.startswith("coarse")]
        p("coarse 64")
    p("stepcap 100000000")
    if r.random() < 0.15:
        p("crowd", r.choice([8, 40, 40]))
    return p


OPTIONS = ["drop0.2", "drop0.3", "l1_0.01", "l1_0.02", "l2_0.01", "l2_0.02", "em2", "em3"]


def variant(r, tokens):
    """the tokens of a network that differs from this one"""
    t = list(tokens)
    layers = [k for k in range(len(t)) if t[k].split(":")[0] in ("fc", "rec", "gru", "lc", "conv", "pool")]
    weighted = [k for k in layers if not t[k].startswith("pool")]
    k = r.choice([weighted[-1], weighted[-1], r.choice(weighted)])
    parts = t[k].split(":")
    options = [x for x in range(1, len(parts)) if re.match(r"drop|l1_|l2_|em|softmax", parts[x])]
    x = r.random()
    if x < 0.1:
        t = [y for y in t if not y.startswith("lr:")] + ["lr:%s" % r.choice([0.004, 0.07])]
    elif x < 0.2:
        t = [y for y in t if not y.startswith("mom:")] + ["mom:%s" % r.choice([0.2, 0.6])]
    elif x < 0.6 or not options and x < 0.75:
        parts.insert(r.choice([len(parts), options[0] if options else len(parts)]), r.choice(OPTIONS))
    elif x < 0.65:
        del parts[r.choice(options)]
    elif x < 0.7:
        parts[r.choice(options)] = r.choice(OPTIONS)
    elif x < 0.75 and len(options) > 1:
        parts[options[0]], parts[options[-1]] = parts[options[-1]], parts[options[0]]
    elif x < 0.9 and parts[0] != "gru":
        acts = [y for y in range(2, len(parts)) if parts[y].isalpha() and parts[y] != "softmax"]
        if acts:
            parts[acts[0]] = "tanh" if parts[acts[0]] != "tanh" else "gelu"
        else:
            parts.insert(2 if parts[0] in ("fc", "rec") else 3, "gaussian")
    elif x < 0.95 and k != weighted[-1]:
        parts[1] = str(int(parts[1]) + 1)
    elif parts[0] == "fc":
        parts[0] = "rec"
    t[k] = ":".join(parts)
    return t


def gen_C29(r, seed):
    p = P("C29", "equal", r, seed)
    schedule(p)
    if r.random() < 0.1:  # the layers after the pooling are the same
        a, b = r.choice([("1:5:6", "1:6:5"), ("6", "6"), ("2:3", "2:4")])
        layers = r.choice(["pool:2 fc:2", "pool:2 fc:3:tanh fc:2"])
        nets = ["in:%s %s" % (a, layers), "in:%s %s" % (b, layers)]
        if r.random() < 0.6:  # pooled by 2 and by 3
            a = b = r.choice(["4", "2:4", "1:4:4", "2:4:4", "1:4:3", "1:3:4"])
            nets = ["in:%s %s" % (a, layers), "in:%s %s" % (a, layers.replace("pool:2", "pool:3"))]
        if r.random() < 0.4:  # as many weights, in layers of other shapes
            a, b = r.choice([("1:4:6", "1:6:4"), ("2:3:4", "2:4:3"), ("1:3:5", "1:5:3"), ("2:2:4", "2:4:2")])
            layers = r.choice(["conv:2:2 fc:2", "lc:1:2 fc:2", "lc:2:2 fc:2:tanh", "conv:1:2 pool:2 fc:2", "conv:1:2 conv:2:1 fc:2"])
            nets = ["in:%s %s" % (a, layers), "in:%s %s" % (b, layers)]
        i = eval(a.replace(":", "*"))
        p("data nt", r.choice(["cls", "reg"]), i, 2, 4, 2, r.randint(0, 99))
        n, nt = 4, True
        if i != eval(b.replace(":", "*")):
            p("net", nets[0])
            p("net", nets[1])
            p("same 1")
            return p
    elif r.random() < 0.06:  # the same weights after other steps
        n, i = 4, r.randint(1, 3)
        p("data nt reg", i, 2, n, 2, r.randint(0, 99))
        p("net", "in:%d %s lr:0.1 mom:%g" % (i, r.choice(["fc:2", "fc:2:tanh", "rec:2", "fc:1:gelu fc:2"]), r.choice([0.5, 0.9])))
        p("net", p[-1][4:])
        p("same 1")
        p("op on 0", r.choice(["once 1 0", "once 2 1", "train 1ep 1 0"]))
        for _ in range(r.randint(0, 1)):
            p("op each once 1 1")
        p("op take 0 1")
        p("op each use", r.randint(1, 2), r.randint(0, 1))
        p("op each once 1 0")
        return p
    else:
        n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.35)
        network(p, i, o, kinds=("nt", "conv", "rec"))
        nets = [p.pop()[4:]]
    while len(nets) < r.choice([2, 3, 3, 4]):
        nets.append(r.choice(nets) if r.random() < 0.4 else " ".join(variant(r, r.choice(nets).split())))
    for x in nets:
        p("net", x)
    if r.random() < 0.8:
        p("same 1")
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        x, k = r.random(), r.randrange(len(nets))
        if x < 0.3:
            p("op clone", k, r.randrange(len(nets)))
        elif x < 0.42:
            j = r.randrange(len(nets))
            if r.random() < 0.3:
                p("op clone", k, j)
            p("op take", k, j, *([r.choice([1, 2, r.randint(1, 40)])] if r.random() < 0.5 else []))
        else:
            y = r.random()
            p("op each" if r.random() < 0.5 else "op on %d" % k,
              "train %dep %d %d" % (r.randint(1, 2), batch(r, n, nt), r.choice([0, 1])) if y < 0.25 else
              "evaluate" if y < 0.35 else
              "once %d %d" % (r.randint(1, 3), r.randint(0, 2)) if y < 0.5 else
              "use %d %d" % (r.randint(1, 3), r.randint(0, 1)) if y < 0.6 else
              "lr %d %d" % (r.choice([1, 30, 100]), r.choice([0, 0, 500])) if y < 0.7 else
              "autosave %d" % r.randint(0, 1) if y < 0.75 else
              "between %d" % r.randint(1, 9) if y < 0.78 else r.choice(["reload", "reload", "copy", "save"]))
    return p


def gen_C30(r, seed):
    p = P("C30", "refusals", r, seed)
    schedule(p)
    n, T, i, o, nt = small_data(p, n=r.randint(2, 6), shaped=0.35)
    memory = r.random() < 0.25  # a call that fails leaves its last outputs in a network with memory: see C15
    network(p, i, o, kinds=("nt", "conv", "rec") if memory else ("nt", "conv"))
    io = r.random() < 0.4
    for _ in range(r.randint(1, 6)):
        x = r.random()
        B, F = batch(r, n, nt), r.choice([0, 1, 1, 2])
        if x < 0.35 or memory and x < 0.65:
            k = r.choice([1, 1, 2, 7, -1])
            what = r.choice(["output", "cluster", "input", "expected", "batch", "data", "load", "index"])
            p("op wrong", what, k if what != "batch" or k > 0 else r.choice([-1, -7]), r.randint(0, 1))
        elif x < 0.65:
            what = r.choice(["output", "cluster", "evaluate", "evaluate", "copy", "save", "reload", "maps", "filters", "unshuffle"])
            if io and r.random() < 0.6:
                what = r.choice(["save", "save", "reload", "maps", "filters"])
            if what == "save" and r.random() < 0.4:
                what = "saveelsewhere"
            if io and what in ("save", "saveelsewhere", "reload", "maps", "filters"):
                p("op failing", what, "io")
            else:
                p("op failing", what, "oom", int(10 ** r.uniform(0, 1.5 if what in ("output", "cluster", "unshuffle") else 2.3)), r.choice([1, 1, 2, 30]))
        elif x < 0.75:
            p("op during %dep" % r.randint(1, 3), B, F, r.randint(1, 2 * n),
              *[r.choice(["evaluate", "train", "copy", "save", "maps", "filters", "output", "once", "expected", "batch", "load"]) for _ in range(r.randint(1, 3))])
        elif x < 0.9:
            p("op", "train %dep %d %d" % (r.randint(1, 2), B, F))
        else:
            p("op", r.choice(["evaluate", "save", "once 2 1", "copy", "reload", "autosave 1", "lr 100 500", "shuffle"]))
    if io:
        io_fault(p, ("open", "write", "close", "rename", "read"))
    return p


GEN = {k[4:]: v for k, v in globals().items() if k.startswith("gen_")}


def plan(prop, seed):
    r = random.Random("%s:%d" % (prop, seed))
    lines = [x.strip() for x in GEN[prop](r, seed & 0x7FFFFFFF)]
    if prop == "C11":  # a dozen loads and more: with a scheduling point at each access, a large network would take all the steps
        lines = ["coarse 16" if x in ("coarse 1", "coarse 4") else x for x in lines]
    # larger networks and data, and executions with more scheduling points, take more steps before they are called endless
    if any(re.match(r"coarse (1|4|16)$", x) or x.startswith("data nt") and int(x.split()[5]) > 16
           or x.startswith("net ") and any(int(y) > 6 for y in re.findall(r":(\d+)", x)) for x in lines) and prop != "C28":
        lines.append("stepcap 12000000")
    return "\n".join(lines) + "\n"


if __name__ == "__main__":
    import sys
    print(plan(sys.argv[1], int(sys.argv[2])), end="")
