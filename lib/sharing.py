"""S01..S16: jester_sharing against spec/Sharing.tla, spec/Mpc.tla and spec/MpcTrace.tla."""
import itertools, json, math
from core import *

NOTES = {}
class Fields(dict):
    def __missing__(self, F):
        return TWINS[F]


# other fields whose types have the names of these, in another module, or whose primes end in the same word
TWINS = dict(P7t=11, P11t=13, P101t=103, P2p64m59t=0x54ffffffffffffffc5)
FIELDS = Fields(P3=3, P5=5, P7=7, P7b=7, P11=11, P11b=11, P13=13, P17=17, P19=19, P23=23, P31=31, P101=101, P257=257,
              P2p64m59=2**64 - 59, P2p255m19=2**255 - 19)
FIELDS.update({f"Mersenne{k}": 2**k - 1 for k in (2, 3, 5, 13, 17, 31, 61, 89, 127)})
LARGE = ["P2p64m59", "P2p255m19", "Mersenne61", "Mersenne89", "Mersenne127"]


def h(n):
    return format(n, "x")


def hexes(v):
    return ",".join(h(x) for x in v) or "-"


def nums(v):
    return ",".join(map(str, v)) or "-"


def elem(c, p):
    how = c.rng.randrange(6)
    if how == 0:
        return c.rng.choice([x for x in (0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1) if 0 <= x < p])
    if how == 1:
        return c.rng.randrange(min(p, 1 << c.rng.randrange(1, p.bit_length() + 1)))
    return c.rng.randrange(p)


def width(N, k):
    """Seven standard deviations of a count of N draws over k cells, and a little more."""
    q = 1 / k
    return int(7 * math.sqrt(N * q * (1 - q))) + 3


def size(c, F, nmax=6, tmax=None):
    """A number of parties and a threshold."""
    n = c.rng.randrange(2, min(nmax, FIELDS[F] - 1) + 1)
    return n, c.rng.randrange(2, min(tmax or n, n) + 1)


def prog(ops):
    return ";".join(o if not a and o not in ("umul", "uinv", "uor") else f"{o}:{nums(a)}" for o, a in ops)


def runline(c, F, n, t, ins, ops, **kw):
    kw.setdefault("send", c.rng.choice(["eager", "eager", "lazy"]))
    kw.setdefault("via", c.rng.choice(["delegate", "delegate", "direct"]))
    kw.setdefault("seed", c.rng.randrange(1 << 40))
    kw.setdefault("sched", c.rng.choice(["waves", f"rand:{c.rng.randrange(1 << 30)}"]))
    kw.setdefault("hold", c.rng.choice([0, 0, 1]))   # futures may wait before they are polled first
    return f"run F={F} n={n} t={t} in={hexes(ins)} ops={prog(ops)} " + " ".join(f"{k}={v}" for k, v in kw.items())


def execute(c, exe, cases, prop=None, weight=len, each=False, timeout=500):
    """cases: lists of lines that belong together (one process each if `each`, otherwise dealt to the cores)."""
    if each:
        loads = cases
    else:
        loads = [[0, []] for _ in range(min(CORES, len(cases)))]
        for ls in sorted(cases, key=lambda x: -weight(x)):
            m = min(loads, key=lambda x: x[0])
            m[0] += weight(ls)
            m[1] += ls
        loads = [l for _, l in loads]

    def one(ls):
        if each and c.hangs > 1:   # enough of them; the rest would only take time
            return None
        sc, tr = c.path("scenario"), c.path("trace")
        write_lines(sc, ls)
        c.harness(exe, [sc], tr, timeout=timeout)
        return tr
    trs = [tr for tr in c.pool([(lambda l=l: one(l)) for l in loads]) if tr]
    if each:  # one trace validates faster than many
        merged = []
        for part in shards(trs):
            m = c.path("trace")
            with open(m, "w") as f:
                for tr in part:
                    f.write(open(tr).read())
            merged.append(m)
        trs = merged
    with open(trs[0]) as f:
        for i, ln in enumerate(f):
            if i in (0, 5) and len(ln) < 6000:
                c.sample(json.loads(ln))
    c.extra["commands"] = c.extra.get("commands", 0) + sum(len(l) for l in loads)
    c.extra["fields"] = sorted(set(c.extra.get("fields", [])) | {w[2:] for l in loads for x in l for w in x.split() if w.startswith("F=")})
    return c.validate("MpcTrace", [(t, {}) for t in trs], env=dict(PROP=prop or c.prop))


def models(c, quick, thorough=(), module="MpcMC", what="design: "):
    for cfg, w in list(quick) + (list(thorough) if c.thorough else []):
        c.model(module, cfg + ".cfg", what=what + w, heap="16g" if c.thorough else "8g", timeout=1800)


COMMON = ["messages between parties are neither lost nor altered, and every party follows the protocol",
          "joint random blinding values are non-zero where the property says so",
          "exhaustive over small fields in the models; small and large fields, sampled, in the replays"]
# ---- Shamir's scheme --------------------------------------------------------------------------


def S01(c):
    exe = c.build("mpc")
    models(c, [("SharingMC", "every sharing of every secret, every selection of shares, every order"), ("SharingMCT2", "threshold two, up to six shares")],
           [("SharingMCT4", "threshold four")], module="SharingMC")
    cases = []

    def recs(n, t):
        if n <= 4 or (n == 5 and c.thorough):
            return [s for k in range(t, n + 1) for s in itertools.permutations(range(n), k)]
        if n > 500:
            return [list(range(n))[-t:], list(range(n))[:t]] + [c.rng.sample(range(n), t + k) for k in (0, 0, 0, 3)] + [[0, n - 1] + c.rng.sample(range(1, n - 1), t)]
        r = [list(range(n)), list(reversed(range(n)))]
        for _ in range(12 if n < 40 else 4):
            k = c.rng.randrange(t, n + 1) if c.rng.randrange(2) else t
            r.append(c.rng.sample(range(n), k))
        return r

    def share(F, n, t, s, own=None):
        r = "/".join(".".join(map(str, x)) for x in recs(n, t))
        o = ""
        if own is not None:
            o = f" poly={hexes([elem(c, FIELDS[F]) for _ in range(t - 1)])} xs={nums(own)}"
        return [f"share F={F} n={n} t={t} secret={h(s)} seed={c.rng.randrange(1 << 40)} recs={r}{o}"]
    for F, p in FIELDS.items():
        for n in range(2, min(p - 1, 5) + 1):
            for t in range(2, n + 1):
                ss = range(p) if p <= 7 else {0, 1, p - 1, c.rng.randrange(p), c.rng.randrange(p)}
                for s in (ss if c.thorough or p <= 7 else list(ss)[:2]):
                    cases.append(share(F, n, t, s))
        for _ in range(80 if c.thorough else 20):
            top = min(p - 1, 60)
            n = c.rng.randrange(2, top + 1)
            t = c.rng.randrange(2, min(n, 60 if p < 2**70 else 20) + 1)
            cases.append(share(F, n, t, elem(c, p)))
            # coordinates from anywhere in the field
            far = [p - 1, p - 2, 1, 2] if p < 2**31 else [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**62, 2**63 - 1]
            xs = set(c.rng.sample(far, 2)) | {c.rng.randrange(1, min(p, 2**63)) for _ in range(n - 2)} if p > 5 else set(range(1, n + 1))
            xs = {x for x in xs if 0 < x < p}
            n = len(xs)
            if n >= 2:
                cases.append(share(F, n, c.rng.randrange(2, min(n, 12) + 1), elem(c, p), c.rng.sample(sorted(xs), n)))
    for F in ("P257", "P101", "Mersenne13", "P2p64m59"):
        n = min(FIELDS[F] - 1, 256 if F == "P257" else 120)
        for t in (2, 9, 40, n if c.thorough else 60):
            cases.append(share(F, n, t, elem(c, FIELDS[F])))
    # numbers of shares that do not fit into a byte, or into two
    for F, n, t in [("Mersenne13", 8190, 2), ("P2p64m59", 1030, 7), ("Mersenne89", c.rng.choice([66000, 70000]), 2)] + ([("Mersenne61", 33000, 5), ("Mersenne127", 140000, 3), ("P2p64m59", 66000, 12)] if c.thorough else []):
        cases.append(share(F, n, t, elem(c, FIELDS[F])))
    execute(c, exe, cases)
    c.assumptions += ["shares given to reconstruction are distinct and belong to one sharing", "the number of shares is below the field size"]


def S02(c):
    exe = c.build("mpc")
    models(c, [("SharingMC", "for every set of fewer shares than the threshold, every secret has equally many sharings that agree with it")],
           [("SharingMCT2", "threshold two"), ("SharingMCT4", "threshold four")], module="SharingMC")
    k = 8 if c.thorough else 1
    cases = []

    def survey(F, n, t, s, who, **kw):
        p = FIELDS[F]
        cells = p ** len(who)
        if kw.get("pairs"):
            cells *= cells
        N = max(6000, 400 * cells) * k
        extra = "".join(f" {a}={b}" for a, b in kw.items())
        return [f"sharings F={F} n={n} t={t} secret={h(s)} who={nums(who)} runs={N} width={width(N, cells)} seed={c.rng.randrange(1 << 40)}{extra}"]
    for F in ("P3", "P5", "P7", "P11", "Mersenne2", "Mersenne3"):
        p = FIELDS[F]
        for t in range(2, min(p, 5)):
            n = min(p - 1, t + 1)
            for s in (range(p) if p <= 5 else [0, 1, c.rng.randrange(2, p)]):
                sets = [w for m in range(1, t) for w in itertools.combinations(range(n), m)]
                sets = [w for w in sets if p ** len(w) <= (1400 if c.thorough else 130)]
                # all shares but one of a threshold, and some of the smaller sets
                big = [w for w in sets if len(w) == t - 1]
                some = big if c.thorough else c.rng.sample(big, min(2, len(big)))
                for w in some + c.rng.sample(sets, min(2, len(sets))):
                    cases.append(survey(F, n, t, s, w))
                    cases.append(survey(F, n, t, s, w, fresh=1))
                if p <= 3 or (p == 5 and t == 2) or (c.thorough and p == 7 and t == 2):
                    for o in (s, (s + 1) % p):
                        cases.append(survey(F, n, t, s, list(range(t - 1)), pairs=1, other=h(o)))
    cases += [survey("P5", 4, 3, 2, (0, 1), pairs=1, other=h(3))] if not c.thorough else [survey("P5", 4, 3, s, w, pairs=1, other=h(o)) for s in (0, 3) for o in (0, 1) for w in ((0, 1), (2, 3))]
    for F in LARGE + ["Mersenne31"]:
        for t in (2, 3, 5):
            N = (2000 if c.thorough else 400)
            if F == "Mersenne31":
                N = 60
            m = N * (t - 1)
            cases.append([f"sharedraws F={F} n={t + 1} t={t} secret={h(elem(c, FIELDS[F]))} runs={N} width={width(m, 16)} distinct=1 seed={c.rng.randrange(1 << 40)}"] if F != "Mersenne31" else
                         [f"share F={F} n={t + 1} t={t} secret={h(elem(c, FIELDS[F]))} seed={c.rng.randrange(1 << 40)} recs="])
    # more parties demanded than there are: even all shares together reveal nothing
    for F, n, t in (("P3", 2, 3), ("P5", 2, 3), ("P5", 2, 4), ("P5", 3, 4), ("P7", 2, 3), ("P7", 1, 2), ("Mersenne2", 1, 3)):
        for s in {0, 1, c.rng.randrange(FIELDS[F])}:
            cases.append(survey(F, n, t, s, range(n)))
    for F in LARGE:
        # the coefficients of polynomials of every degree
        for t in ((2, 3, 4, 5, 7, 9, 12, 16, 17, 24, 33, 40, 65) if c.thorough else c.rng.sample((2, 3, 4, 5, 7, 9, 12, 16), 3) + ([33] if FIELDS[F] < 2**70 else [])):
            N = max(1, -(-480 // (t - 1)))
            ss = [h(elem(c, FIELDS[F])) for _ in range(c.rng.choice([1, 3]))]
            cases.append([f"polynomials F={F} n={t + c.rng.randrange(2)} t={t} secrets={','.join(ss)} runs={N} width={width(N * (t - 1), 16)} distinct=1 fresh={c.rng.randrange(2)} seed={c.rng.randrange(1 << 40)}"])
    for F, p in FIELDS.items():
        for _ in range(60 if c.thorough else 15):
            n = c.rng.randrange(2, min(p - 1, 20) + 1)
            t = c.rng.randrange(2, n + 1)
            cases.append([f"share F={F} n={n} t={t} secret={h(elem(c, p))} seed={c.rng.randrange(1 << 40)} recs="])
        for t in (0, 1):
            cases.append([f"refuse F={F} n={min(p - 1, c.rng.choice([1, 2, 5]))} t={t} secret={h(elem(c, p))} seed={c.rng.randrange(1 << 40)}"])
    cost = lambda ls: sum(int(re.search(r"runs=(\d+)", l).group(1)) if l.startswith("sharings") else 2000 for l in ls)
    execute(c, exe, cases, weight=cost)
    c.assumptions += ["the given random source is uniform (seeded StdRng); surveys allow seven standard deviations",
                      "uniformity in large fields is judged on sixteen classes of high and of low bits"]


def S03(c):
    exe = c.build("mpc")
    models(c, [("SharingMC", "local operations on sharings are the operations on the secrets")], module="SharingMC")
    cases = []
    for F, p in FIELDS.items():
        for r in range(100 if c.thorough else 25):
            n, t = size(c, F, 9)
            m = c.rng.randrange(2, 6)
            ops, regs = [], m
            for _ in range(c.rng.choice([5, 12, 30])):
                o = c.rng.choice(["add", "sub", "sub", "adds", "subs", "muls", "sum", "sum"])
                if o in ("adds", "subs", "muls"):
                    ops.append(f"{o}:{c.rng.randrange(regs)},{h(elem(c, p))}")
                elif o == "sum":
                    k = c.rng.choice([0, 1, 2, 3, 5, 9, 70])
                    ops.append("sum:" + nums([c.rng.randrange(regs) for _ in range(k)]))
                    if k == 0:
                        continue
                else:
                    ops.append(f"{o}:{c.rng.randrange(regs)},{c.rng.randrange(regs)}")
                regs += 1
            for b in c.rng.sample(["badadd", "badsub", "badsum", "badmid", "badfirst"], 3):
                k = 2 if b in ("badadd", "badsub") else c.rng.choice([2, 3, 5])
                if b == "badmid":
                    k = max(k, 3)
                ops.append(f"{b}:" + nums([c.rng.randrange(regs) for _ in range(k)]))
            own = "" if r % 5 == 4 else " own=1"
            cases.append([f"lin F={F} n={n} t={t} seed={c.rng.randrange(1 << 40)} in={hexes([elem(c, p) for _ in range(m)])} ops={';'.join(ops)}{own}"])
    execute(c, exe, cases)
# ---- protocols ---------------------------------------------------------------------------------


def schedules(c, cfg, num, all=False):
    """Delivery orders from the specification."""
    if all:
        b = c.enumerate("MpcSchedule", cfg + ".cfg")
    else:
        k = 4
        b = [x for r in c.pool([(lambda s=s: c.simulate("MpcSchedule", cfg + ".cfg", max(1, num // k), 400, seed=c.seed * 100 + s)) for s in range(k)]) for x in r]
    return ["list:" + ",".join(x) for x in b]


def some_fields(c, k, least=3):
    names = [f for f, p in FIELDS.items() if p >= least]
    return [c.rng.choice(names) for _ in range(k)]


def S04(c):
    exe = c.build("mpc")
    models(c, [("MpcMulAsync", "multiplication under every interleaving and delivery order"), ("MpcMulAll", "all inputs, masks and sharings over F3")],
           [("MpcMul2Lock", "batches of two"), ("MpcMulMulLock", "a product of a product")])
    c.assumptions += COMMON
    cases = []
    # every pair of inputs
    for F in ("P3", "P5", "P7"):
        p = FIELDS[F]
        for x in range(p):
            for y in range(p):
                n, t = size(c, F, 5)
                cases.append([runline(c, F, n, t, [x, y], [("mul", [0, 1])]), runline(c, F, n, t, [x, y], [("umul", [0, 1, 1, 0])])])
    reps = 100 if c.thorough else 24
    for F, p in FIELDS.items():
        for _ in range(reps):
            n, t = size(c, F)
            m = c.rng.randrange(1, 5)
            ops, regs = [], m
            for _ in range(c.rng.randrange(1, 5)):
                k = c.rng.choice([0, 1, 1, 2, 3, 5, 8])
                if c.rng.randrange(3) == 0:
                    ops.append(("mul", [c.rng.randrange(regs) for _ in range(2)]))
                    regs += 1
                else:
                    ops.append(("umul", [c.rng.randrange(regs) for _ in range(2 * k)]))
                    regs += k
            cases.append([runline(c, F, n, t, [elem(c, p) for _ in range(m)], ops)])
    for F, ks in (("P31", (33, 70, 130, 257, 300)), ("P257", (520, 1030)), ("P2p64m59", (33, 70, 260))):
        ks = tuple(k + d for k in ks for d in {0, c.rng.randrange(1, 10)})
        for k in ks + ((2100,) if c.thorough else ()):
            v = [elem(c, FIELDS[F]) for _ in range(12)]
            cases.append([runline(c, F, 2 if k > 300 else 3, 2, v, [("umul", [c.rng.randrange(12) for _ in range(2 * k)])], log=0)])
    for F in ("P31", "P101", "P2p64m59"):
        for n in (9, 17, 33) if c.thorough or F == "P101" else (12,):
            if n < FIELDS[F]:
                v = [elem(c, FIELDS[F]) for _ in range(3)]
                cases.append([runline(c, F, n, c.rng.choice([2, n // 2, n]), v, [("umul", [0, 1, 1, 2]), ("mul", [3, 4])], log=0)])
    for s in schedules(c, "MpcSchedMulAll", 0, all=True)[:: 1 if c.thorough else 97]:
        cases.append([runline(c, "P5", 2, 2, [c.rng.randrange(5), c.rng.randrange(5)], [("mul", [0, 1])], sched=s)])
    for s in schedules(c, "MpcSchedMul2", 400 if c.thorough else 60):
        cases.append([runline(c, "P7", 2, 2, [c.rng.randrange(7), c.rng.randrange(7)], [("umul", [0, 1, 1, 1])], sched=s)])
    execute(c, exe, cases, weight=cost)


def cost(ls):
    return sum(len(l) + 3000 * l.count("uor") for l in ls)


def bagline(F, n, t, ins, ops, group, mode="all", blinds=0, masks=0, seed=1, **kw):
    return f"bag F={F} n={n} t={t} seed={seed} in={hexes(ins)} ops={prog(ops)} mode={mode} blinds={blinds} masks={masks} group={group} " + " ".join(f"{a}={b}" for a, b in kw.items())


def bags(c, F, ops, vectors, blinds, masks, mode="all", n=2, t=2, split=False, **kw):
    """One group: whatever the secrets, the same openings occur equally often."""
    g = f"{F}-{prog(ops).replace(':', '_').replace(';', '_').replace(',', '_')}-{mode}"
    ls = []
    for i, v in enumerate(vectors):
        seed = c.rng.randrange(1 << 30) if mode == "sample" else 7
        ls.append(bagline(F, n, t, v, ops, g, mode, blinds, masks, seed, **kw))
    if not split:
        return [ls]
    # the first of the group is repeated in every part
    return [[ls[0]] + ls[1 + i::split] for i in range(split)]


def pure(c, F, n, t, v, ops, **kw):
    """A run with equal inputs in a large field: all openings must be different."""
    return [runline(c, F, n, t, v, ops, **kw)]


def S05(c):
    exe = c.build("mpc")
    models(c, [("MpcPrivMul3", "the openings of a product over F3 are uniform"), ("MpcPrivMul5", "over F5"), ("MpcPrivMulBatch", "jointly over a batch"), ("MpcPrivMulMul", "jointly over successive products")], module="MpcPrivacy")
    c.assumptions += COMMON
    cases = []
    for F in ("P3", "P5", "P7"):
        p = FIELDS[F]
        vs = list(itertools.product(range(p), repeat=2))
        if F == "P7" and not c.thorough:
            vs = c.rng.sample(vs, 16)
        cases += bags(c, F, [("mul", [0, 1])], vs, 0, 1, split=4)
        cases += bags(c, F, [("umul", [0, 1])], vs, 0, 1, n=3 if p > 3 else 2, t=2, split=4)
    vs = list(itertools.product(range(3), repeat=2))
    cases += bags(c, "P3", [("umul", [0, 1, 1, 0])], vs, 0, 2, split=3)
    cases += bags(c, "P3", [("umul", [0, 0, 0, 0])], [(x,) for x in range(3)], 0, 2)
    cases += bags(c, "P3", [("mul", [0, 1]), ("mul", [0, 1])], vs, 0, 2, split=3)
    cases += bags(c, "P3", [("mul", [0, 1]), ("umul", [2, 0])], vs, 0, 2, split=3)
    for k in (3, 4, 5, 6) if c.thorough else (3, 4, 5):
        vs = [(1, 1), (2, 0), (0, 2), (1, 2)]
        cases += bags(c, "P3", [("umul", [c.rng.randrange(2) for _ in range(2 * k)])], vs[:2] if k > 5 else vs, 0, k, split=3)
    if c.thorough:
        cases += bags(c, "P5", [("umul", [0, 1, 1, 0])], list(itertools.product(range(5), repeat=2)), 0, 2, split=8)
        cases += bags(c, "P3", [("umul", [0, 1, 1, 0, 0, 0])], vs, 0, 3, split=8)
    for F in LARGE:
        for k in ((1, 2, 3, 7, 20, 60, 130, 300, 520) if c.thorough else (1, 2, 3, 20, 70, c.rng.choice([130, 260]))):
            v = [elem(c, FIELDS[F])]
            n, t = size(c, F, 5)
            cases.append(pure(c, F, n, t, v, [("umul", [0] * (2 * k))]))
            cases.append(pure(c, F, n, t, v, [("mul", [0, 0])] * k if k < 8 else [("umul", [0] * k if k % 2 == 0 else [0] * (k + 1))] * 2))
            cases.append(pure(c, F, n, t, v, [("mul", [0, 0]), ("umul", [0] * (2 * k)), ("mul", [0, 0])]))
        cases += fresh(c, F, ["mul", "umul", "add", "sub", "rand", "start"])
    execute(c, exe, cases, weight=cost_bag)


def cost_bag(ls):
    w = 0
    for l in ls:
        if l.startswith("bag"):
            g = lambda k: int(re.search(rf"\b{k}=(\d+)", l).group(1))
            p = FIELDS[re.search(r"F=(\S+)", l).group(1)]
            b = (p - 1) ** g("blinds")
            w += 30 * (b * p ** (2 * g("masks")) if "mode=all" in l else 3 * b if "mode=blind" in l else g("runs")) * (1 + 6 * ("or" in l))
        else:
            w += len(l)
    return w


def fresh(c, F, allowed):
    """Programs of several kinds of operations, whose openings must all be different."""
    res = []
    for _ in range(40 if c.thorough else 6):
        v, ops = composed(c, F, c.rng.choice([4, 9, 16]), allowed=allowed)
        if any(o in ("mul", "umul", "inv", "uinv", "or", "uor", "sel") for o, _ in ops):
            res.append(pure(c, F, *size(c, F, 5), v, ops))
    return res


def S06(c):
    exe = c.build("mpc")
    models(c, [("MpcRandAsync", "generation of random numbers under every interleaving and delivery order"), ("MpcRandLock", "all contributions")])
    c.assumptions += COMMON[:1] + ["the given random source is uniform (seeded StdRng); surveys allow seven standard deviations"]
    cases = []
    for F, p in FIELDS.items():
        for _ in range(60 if c.thorough else 12):
            n, t = size(c, F, 9)
            ops = [c.rng.choice([("rand", []), ("rands", [0] * c.rng.choice([1, 2, 3, 9]))]) for _ in range(c.rng.randrange(1, 4))]
            if c.rng.randrange(2) and len(ops) > 1:
                ops.append(("add", [0, 1]))
            cases.append([runline(c, F, n, t, [], ops, rng="real")])
    for F in ("P101", "P257", "P2p64m59", "Mersenne127"):
        for n in (9, 17, 18, 33, 65, 100) if c.thorough else (17, c.rng.choice([33, 40, 65])):
            cases.append([runline(c, F, n, c.rng.choice([2, 3, n // 2, n]), [], [("rand", []), ("rands", [0] * c.rng.choice([1, 2]))], rng="real")])
    for F in ("P31", "P2p64m59"):
        for k in (33, 70, 130) if c.thorough else (c.rng.choice([33, 47]), 70):
            cases.append([runline(c, F, 3, 2, [], [("rands", [0] * k), ("rand", [])], rng="real")])
    for F in FIELDS:
        for _ in range(20 if c.thorough else 4):
            v, ops = composed(c, F, c.rng.choice([5, 10, 20]), allowed=["rand", "rands", "start", "start", "mul", "add"])
            cases.append([runline(c, F, *size(c, F, 6), v, ops, rng="real")])
    for F in LARGE:   # some are never awaited, and some sessions never end
        for _ in range(20 if c.thorough else 4):
            ops = [("rand", []), ("start", []), ("drop", []), ("rand", [])] if c.rng.randrange(2) else [("start", []), ("start", []), ("drop", []), ("finish", []), ("start", []), ("drop", []), ("rands", [0, 0])]
            cases.append([runline(c, F, 3, 2, [], ops, rng="real", stop=c.rng.choice([2, 3, 5])) for _ in range(c.rng.randrange(3))]
                         + [runline(c, F, *size(c, F, 5), [], ops, rng="real")])
    for s in schedules(c, "MpcSchedRand", 400 if c.thorough else 60):
        cases.append([runline(c, "P5", 3, 2, [], [("rand", []), ("rand", []), ("add", [0, 1])], rng="real", sched=s)])
    for F in ("P3", "P5", "P7", "P11", "P17"):
        p = FIELDS[F]
        n = min(4, p - 1)
        for per in (1, 4):
            runs = (400 * p * p) // (n * max(1, per - 1)) * (8 if c.thorough else 1)
            cases.append([f"contributions F={F} n={n} t=2 seed={c.rng.randrange(1 << 40)} runs={runs} per={per} w1={width(runs * n * per, p)} w2={width(runs * n * (per - 1), p * p) if per > 1 else 10**6} w3={width(runs * (n - 1) * per, p * p)}"])
    for F in LARGE:
        runs = 400 if c.thorough else 60
        cases.append([f"contribdraws F={F} n=4 t=2 seed={c.rng.randrange(1 << 40)} runs={runs} per=3 width={width(runs * 12, 16)}"])
    execute(c, exe, cases)


def nonzero(c, p):
    while True:
        v = elem(c, p)
        if v:
            return v


def S07(c):
    exe = c.build("mpc")
    models(c, [("MpcInvAsync", "inversion under every interleaving and delivery order"), ("MpcInv2Lock", "batches of two")], [("MpcInvLock", "all inputs, blinding values and masks over F5")])
    c.assumptions += COMMON
    cases = []
    for F in ("P3", "P5", "P7", "P11"):
        p = FIELDS[F]
        for x in range(1, p):
            for b in (range(1, p) if p < 11 else [c.rng.randrange(1, p)]):
                n, t = size(c, F, 5)
                cases.append([runline(c, F, n, t, [x], [("inv", [0])], blind=h(b)), runline(c, F, n, t, [x, p - x, 1], [("uinv", [0, 1, 2])], blind=h(b))])
    for F, p in FIELDS.items():
        for _ in range(80 if c.thorough else 20):
            n, t = size(c, F, 8)
            m = c.rng.randrange(1, 5)
            ops, regs = [], m
            for _ in range(c.rng.randrange(1, 4)):
                k = c.rng.choice([0, 1, 1, 2, 3, 5, 9])
                if c.rng.randrange(3) == 0:
                    ops.append(("inv", [c.rng.randrange(regs)]))
                    regs += 1
                else:
                    ops.append(("uinv", [c.rng.randrange(regs) for _ in range(k)]))
                    regs += k
            real = p > 2**40 and c.rng.randrange(2)
            cases.append([runline(c, F, n, t, [nonzero(c, p) for _ in range(m)], ops, rng="real" if real else "ideal")])
    for F, ks in (("P101", (40, 130, 260)), ("P257", (520, 1030)), ("P2p64m59", (40, 130))):
        ks = tuple(k + d for k in ks for d in ({0, 1, c.rng.randrange(2, 10)} if k < 200 else {c.rng.randrange(10)}))
        for k in ks + ((2100, 2101) if c.thorough else ()):
            v = [nonzero(c, FIELDS[F]) for _ in range(k)]
            cases.append([runline(c, F, 2 if k > 130 else 3, 2, v, [("uinv", list(range(k)))], log=0)])
    for F in ("P31", "P101", "P2p64m59"):
        for n in (9, 17, 33) if c.thorough or F == "P101" else (12,):
            if n < FIELDS[F]:
                v = [nonzero(c, FIELDS[F]) for _ in range(3)]
                cases.append([runline(c, F, n, c.rng.choice([2, n // 2, n]), v, [("uinv", [0, 1, 2]), ("inv", [3])], log=0)])
    for s in schedules(c, "MpcSchedInv2", 400 if c.thorough else 60):
        cases.append([runline(c, "P5", 3, 2, [c.rng.randrange(1, 5), c.rng.randrange(1, 5)], [("uinv", [0, 1])], sched=s)])
    # a zero in a batch leaves the others alone
    for F in ("P3", "P5", "P11", "P101", "P2p64m59", "Mersenne89"):
        p = FIELDS[F]
        for k in (2, 3, 5, 9, 20) + ((40, 90) if c.thorough else ()):
            v = [nonzero(c, p) for _ in range(k)]
            for i in c.rng.sample(range(k), c.rng.choice([1, 1, 2, k - 1]) if k > 2 else 1):
                v[i] = 0
            cases.append([runline(c, F, *size(c, F, 4), v, [("uinv", list(range(k))), ("uinv", [k - 1 - i for i in range(k)])], log=0)])
    execute(c, exe, cases)


def S08(c):
    exe = c.build("mpc")
    models(c, [("MpcPrivInv5", "the openings of an inversion over F5 do not depend on the secret"), ("MpcPrivInvBatch", "jointly over a batch"), ("MpcPrivInvBlind", "what is not masked, over F7")], module="MpcPrivacy")
    c.assumptions += COMMON
    cases = []
    for F in ("P3", "P5"):
        p = FIELDS[F]
        cases += bags(c, F, [("inv", [0])], [(x,) for x in range(1, p)], 1, 1)
        cases += bags(c, F, [("uinv", [0])], [(x,) for x in range(1, p)], 1, 1, n=min(3, p - 1))
    cases += bags(c, "P7", [("inv", [0])], [(x,) for x in (1, 3, 6)], 1, 1)
    cases += bags(c, "P3", [("uinv", [0, 1])], list(itertools.product((1, 2), repeat=2)), 2, 2)
    cases += bags(c, "P3", [("inv", [0]), ("inv", [0])], [(1,), (2,)], 2, 2)
    cases += bags(c, "P5", [("uinv", [0, 1])], list(itertools.product(range(1, 5), repeat=2)), 2, 2, mode="blind")
    cases += bags(c, "P5", [("uinv", [0, 1, 2])], list(itertools.product(range(1, 5), repeat=3))[:: 1 if c.thorough else 7], 3, 3, mode="blind")
    cases += bags(c, "P5", [("inv", [0]), ("uinv", [1, 0])], list(itertools.product(range(1, 5), repeat=2)), 3, 3, mode="blind")
    for k in (4, 5, 6, 7, 8, 9, 10) if c.thorough else (4, 5, 6, 7, 8):
        vs = [[1] * k, [2] * k, [c.rng.randrange(1, 3) for _ in range(k)]] + [[1] * i + [2] + [1] * (k - 1 - i) for i in c.rng.sample(range(k), 2)]
        cases += bags(c, "P3", [("uinv", list(range(k)))], vs, k, k, mode="blind")
    N = 20000 if c.thorough else 3000
    cases += bags(c, "P5", [("uinv", [0, 1])], [(1, 1), (2, 4), (3, 3)], 2, 2, mode="sample", runs=N, width=wide(N, 5))
    if c.thorough:
        cases += bags(c, "P5", [("uinv", [0, 1])], list(itertools.product(range(1, 5), repeat=2)), 2, 2, split=8)
    for F in LARGE:
        for k in ((1, 2, 3, 7, 20, 60, 130, 300, 520) if c.thorough else (1, 2, 3, 20, 70, c.rng.choice([130, 260]))):
            n, t = size(c, F, 5)
            v = [nonzero(c, FIELDS[F])]
            for rng in ("ideal", "ideal", "real"):
                ops = c.rng.choice([[("uinv", [0] * k)], [("inv", [0]), ("uinv", [0] * k)], [("inv", [0])] * min(k, 4)])
                if rng == "ideal":
                    cases.append(pure(c, F, n, t, v, ops))
        cases += fresh(c, F, ["inv", "uinv", "add", "sub", "mul", "umul"])
    execute(c, exe, cases, weight=cost_bag)


def wide(N, p):
    """Difference of two counts of N draws each, of a cell with probability at most 1/(p-1)."""
    q = 1 / (p - 1)
    return int(7 * math.sqrt(2 * N * q * (1 - q))) + 3


def bits(l):
    return list(itertools.product((0, 1), repeat=l))


def S09(c):
    exe = c.build("mpc")
    models(c, [("MpcOr2Async", "OR of two bits under every interleaving and delivery order"), ("MpcOr1Lock", "one bit"), ("MpcOr3Lock", "three bits")], [("MpcOrAsync3", "three parties"), ("MpcOr2Lock", "two bits")])
    c.assumptions += COMMON
    cases = []
    for F in ("P3", "P5", "P7", "P11"):
        for l in range(1, min(FIELDS[F] - 1, 6 if c.thorough else 4) + 1):
            for v in bits(l):
                n, t = size(c, F, 5)
                cases.append([runline(c, F, n, t, v, [("uor", list(range(l)))])])
        for b in (0, 1):
            for _ in range(3):
                n, t = size(c, F, 5)
                cases.append([runline(c, F, n, t, [b], [("or", [0])])])
    for F, p in FIELDS.items():
        top = min(p - 1, 40 if c.thorough else 14)
        for l in sorted({top, top - 1, c.rng.randrange(1, top + 1), c.rng.randrange(1, top + 1)} - {0}):
            one = [0] * l
            one[c.rng.randrange(l)] = 1
            for v in ([0] * l, [1] * l, one, [c.rng.randrange(2) for _ in range(l)]):
                n, t = size(c, F, 4)
                cases.append([runline(c, F, n, t, v, [("uor", list(range(l)))], rng="real" if p > 2**40 and c.rng.randrange(2) else "ideal", log=0 if p <= 2**40 else 1)])
        # longer lists
        for l in (33, 65, 100, 130, 200) if c.thorough else {"P101": (100,), "P257": (70, 130), "Mersenne61": (33, 65), "P2p255m19": (33,)}.get(F, ()):
            if l < min(p, 2**60 if l < 70 else 300):
                first, last, any, late = [[int(i == k) for i in range(l)] for k in (0, l - 1, c.rng.randrange(l), c.rng.randrange(l // 2, l))]
                for v in [[0] * l, last, c.rng.choice([first, any, late, [1] * l])] + ([first, any, late] if c.thorough else []):
                    cases.append([runline(c, F, 2, 2, v, [("uor", list(range(l)))], log=0)])
        n, t = size(c, F, 4)
        b = [c.rng.randrange(2) for _ in range(3)]
        if p > 4:
            # an OR of ORs, and of a bit with itself
            cases.append([runline(c, F, n, t, b, [("uor", [0, 1]), ("uor", [3, 2, 2]), ("or", [4]), ("uor", [0, 0])])])
    for s in schedules(c, "MpcSchedOr2", 300 if c.thorough else 40):
        cases.append([runline(c, "P5", 3, 2, [c.rng.randrange(2), c.rng.randrange(2)], [("uor", [0, 1])], sched=s)])
    execute(c, exe, cases, weight=cost)


def S10(c):
    exe = c.build("mpc")
    models(c, [("MpcOr2Async", "the OR is a function of the bits alone, under every interleaving")])
    c.assumptions += COMMON + ["histories: orders and lengths of earlier ORs are sampled; threads are scheduled by the operating system"]
    cases = []
    names = list(FIELDS)

    def oneor(F, l=None, sched=None):
        top = min(FIELDS[F] - 1, 12)
        l = min(l, top) if l else c.rng.randrange(1, top + 1)
        v = [0] * l
        for _ in range(c.rng.randrange(3)):
            v[c.rng.randrange(l)] = 1
        n, t = size(c, F, 3)
        return runline(c, F, n, t, v, [("uor", list(range(l)))], log=0, **(dict(sched=sched) if sched else {}))

    def given_up(F, l=None):
        """An OR that the parties abandon midway."""
        return oneor(F, l, sched=c.rng.choice(["waves", f"rand:{c.rng.randrange(1 << 30)}"])) + f" stop={c.rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34])}"
    # within one field: all orders of lengths
    for F in ("P7", "P13", "P2p64m59", "Mersenne61"):
        for o in c.rng.sample(list(itertools.permutations([1, 2, 3, 5])), 24 if c.thorough else 5):
            cases.append([oneor(F, l) for l in o for _ in range(2)])
    # fields in turn
    alike = [["P7", "P7b", "Mersenne3"], ["P11", "P11b"], ["Mersenne61", "Mersenne89"], ["Mersenne89", "Mersenne127"], ["P5", "P7", "P11"], ["P3", "Mersenne2"], ["Mersenne5", "P31"],
             ["P7", "P7t", "P11", "P11t", "P13"], ["P101", "P101t"], ["P2p64m59", "P2p64m59t"]]
    for fs in alike * (12 if c.thorough else 1) + [c.rng.sample(names, c.rng.choice([2, 2, 3, 5])) for _ in range(90 if c.thorough else 16)]:
        l = c.rng.choice([None, 2, 4])
        more = c.rng.sample(fs, len(fs))
        cases.append([oneor(F, 3) for F in more] + [oneor(c.rng.choice(fs), l) for _ in range(c.rng.choice([4, 8, 14]))])
    # after ORs that were given up
    for _ in range(120 if c.thorough else 24):
        fs = c.rng.sample(names, c.rng.choice([1, 1, 2, 3]))
        l = c.rng.choice([None, None, 3])
        cases.append([(given_up if c.rng.randrange(2) else oneor)(c.rng.choice(fs), l) for _ in range(c.rng.choice([3, 6, 10]))] + [oneor(f, l) for f in fs])
    # many in one process, most of them given up
    for k in (30, 70, 200, 600) if c.thorough else (30, 70, 150):
        fs = c.rng.sample(names, c.rng.choice([1, 3]))
        for keep in (0, 4):
            ls = [oneor(c.rng.choice(fs), c.rng.choice([1, 2, 3])) if keep and i % keep == 0 else given_up(c.rng.choice(fs), c.rng.choice([1, 2, 3])) for i in range(k)]
            cases.append(ls + [oneor(f, l) for f in fs for l in (1, 3)])
        cases.append([oneor(c.rng.choice(fs), c.rng.choice([1, 2, 3, 4])) for _ in range(k)])
    # programs with several ORs, of several lengths
    for _ in range(60 if c.thorough else 12):
        F = c.rng.choice([f for f in names if FIELDS[f] > 6])
        n, t = size(c, F, 3)
        ops = [("uor", [c.rng.randrange(5) for _ in range(c.rng.randrange(1, min(FIELDS[F] - 1, 9)))]) for _ in range(c.rng.randrange(2, 5))]
        cases.append([runline(c, F, n, t, [0, 0, 0, c.rng.randrange(2), c.rng.randrange(2)], ops, log=0)])
    # alongside one another
    for _ in range(150 if c.thorough else 30):
        k = c.rng.choice([2, 4, 8])
        fs = c.rng.sample(names, 3) if c.rng.randrange(2) else [c.rng.choice(names)]
        l = c.rng.choice([None, 10])
        ls = ["par"] + [f"{t} " + (given_up if c.rng.randrange(6) == 0 else oneor)(c.rng.choice(fs), l) for t in range(k) for _ in range(c.rng.choice([1, 3, 6]))] + ["endpar"]
        cases.append(ls + [oneor(c.rng.choice(fs), l)])
    execute(c, exe, cases, each=True, timeout=150)


def S11(c):
    exe = c.build("mpc")
    models(c, [("MpcPrivOr3", "the openings of the OR of one bit over F3 do not depend on it"), ("MpcPrivOrL2", "what is not masked, two bits over F5")], [("MpcPrivOrL3", "three bits")], module="MpcPrivacy")
    c.assumptions += COMMON + ["exact for one bit; of longer lists, the openings that no mask changes exactly, and pairs of openings by survey (seven standard deviations)"]
    cases = []
    cases += bags(c, "P3", [("uor", [0])], [(0,), (1,)], 2, 2)
    cases += bags(c, "P3", [("or", [0])], [(0,), (1,)], 2, 2)
    cases += bags(c, "P5", [("uor", [0, 1])], bits(2), 4, 5, mode="blind")
    cases += bags(c, "P5", [("uor", [0])], bits(1), 2, 2, mode="blind")
    cases += bags(c, "P7", [("uor", [0, 1])], [(0, 0), (1, 1), (0, 1)], 4, 5, mode="blind")
    N = 20000 if c.thorough else 2000
    cases += bags(c, "P5", [("uor", [0, 1])], bits(2), 4, 5, mode="sample", runs=N, width=wide(N, 5))
    cases += bags(c, "P5", [("uor", [0, 1, 2])], [(0, 0, 0), (1, 1, 1), (0, 1, 0), (1, 1, 0)], 6, 8, mode="sample", runs=N, width=wide(N, 5))
    cases += bags(c, "P7", [("uor", [0, 1, 2, 3])], [(0, 0, 0, 0), (1, 1, 1, 1), (0, 1, 0, 1)], 8, 11, mode="sample", runs=N, width=wide(N, 7))
    if c.thorough:
        cases += bags(c, "P5", [("uor", [0])], bits(1), 2, 2)
        cases += bags(c, "P5", [("uor", [0, 1, 2])], bits(3), 6, 8, mode="blind", split=4)
        cases += bags(c, "P5", [("uor", [0, 1]), ("or", [0])], bits(2), 6, 7, mode="sample", runs=N, width=wide(N, 5))
    for F in LARGE:
        for l in (1, 2, 3, 6, 12):
            n, t = size(c, F, 4)
            for v in ([0], [1]):
                cases.append(pure(c, F, n, t, v, [("uor", [0] * l)]))
            cases.append(pure(c, F, n, t, [0, 1], [("uor", [0] * l), ("uor", [1] * l)]))
        cases += fresh(c, F, ALL_OPS)
    execute(c, exe, cases, weight=cost_bag)


def S12(c):
    exe = c.build("mpc")
    models(c, [("MpcSelLock", "selection over all inputs")])
    c.model("MpcPrivacy", "MpcPrivSel.cfg", what="design: what selection opens does not depend on condition and operands")
    c.assumptions += COMMON
    cases = []
    for F in ("P3", "P5"):
        p = FIELDS[F]
        for b in (0, 1):
            for x in range(p):
                for y in range(p):
                    n, t = size(c, F, 4)
                    cases.append([runline(c, F, n, t, [b, x, y], [("sel", [0, 1, 2])])])
        vs = [(b, x, y) for b in (0, 1) for x in range(p) for y in range(p)]
        cases += bags(c, F, [("sel", [0, 1, 2])], vs if p == 3 or c.thorough else c.rng.sample(vs, 14), 0, 1, split=3)
    cases += bags(c, "P3", [("sel", [0, 1, 2]), ("sel", [0, 2, 1])], [(b, x, y) for b in (0, 1) for x in range(3) for y in (0, 2)], 0, 2, split=3)
    for F, p in FIELDS.items():
        for _ in range(100 if c.thorough else 24):
            n, t = size(c, F, 9)
            ops = [("sel", c.rng.choice([[0, 1, 2]] * 3 + [[0, 2, 2], [0, 0, 1], [0, 1, 0], [0, 0, 0]]))]
            for k in range(c.rng.randrange(3)):
                ops.append(("sel", [0, c.rng.randrange(1, 4 + k), c.rng.randrange(1, 4 + k)]))
            cases.append([runline(c, F, n, t, [c.rng.randrange(2), elem(c, p), elem(c, p)], ops)])
    for s in schedules(c, "MpcSchedSel", 300 if c.thorough else 40):
        cases.append([runline(c, "P5", 3, 2, [c.rng.randrange(2), c.rng.randrange(5), c.rng.randrange(5)], [("sel", [0, 1, 2])], sched=s)])
    execute(c, exe, cases, weight=cost_bag)


PROGRAMS = [  # inputs, operations
    (2, [("mul", [0, 1])]), (2, [("umul", [0, 1, 1, 1])]), (3, [("umul", [0, 1, 1, 2, 2, 2])]), (2, [("mul", [0, 1]), ("umul", [2, 0, 1, 1]), ("mul", [3, 4])]),
    (1, [("inv", [0])]), (3, [("uinv", [0, 1, 2])]), (2, [("inv", [0]), ("mul", [2, 1]), ("inv", [3])]), (1, [("or", [0])]), (2, [("uor", [0, 1])]),
    (3, [("uor", [0, 1, 2])]), (2, [("uor", [0, 1]), ("mul", [2, 0]), ("or", [3])]), (3, [("sel", [0, 1, 2])]), (3, [("sel", [0, 1, 2]), ("inv", [1]), ("sel", [0, 2, 4])]),
    (0, [("rand", []), ("rand", []), ("add", [0, 1])]), (1, [("rands", [0, 0, 0]), ("mul", [0, 1]), ("inv", [0])]), (2, [("umul", [0, 1]), ("rand", []), ("uinv", [0, 1])])]


def world(c, m, ops):
    """A field, inputs and a source of random numbers that suit a program."""
    names = {o for o, _ in ops}
    inverts = names & {"inv", "uinv", "or", "uor"}
    real = bool(names & {"rand", "rands"})
    F = c.rng.choice(LARGE if real and inverts else [f for f, p in FIELDS.items() if p >= 7])
    p = FIELDS[F]
    real = real or p > 2**40 and c.rng.randrange(2)
    v = [c.rng.randrange(2) if names & {"or", "uor"} or ("sel" in names and i == 0) else nonzero(c, p) for i in range(m)]
    if names & {"inv", "uinv"}:
        v = [x or 1 for x in v]
    return F, v, "real" if real else "ideal"


def S13(c):
    exe = c.build("mpc")
    models(c, [("MpcMulAsync", "multiplication: every interleaving and delivery order, termination included"), ("MpcInvAsync", "inversion"), ("MpcMixedAsync", "a mixed program"), ("MpcRandAsync", "random numbers")],
           [("MpcOr2Async", "OR"), ("MpcOrAsync3", "OR, three parties")])
    c.assumptions += COMMON
    cases, g = [], 0

    def group(F, n, t, v, ops, scheds, **kw):
        nonlocal g
        g += 1
        seed = c.rng.randrange(1 << 40)
        kw.setdefault("send", c.rng.choice(["eager", "lazy"]))
        kw.setdefault("via", c.rng.choice(["delegate", "direct"]))
        return [runline(c, F, n, t, v, ops, group=f"g{g}", seed=seed, sched=s, **kw) for s in scheds]
    all2 = schedules(c, "MpcSchedMulAll", 0, all=True)
    for i, part in enumerate(shards(all2[:: 1 if c.thorough else 12], 8)):
        for send in (("eager", "lazy") if c.thorough else (("eager", "lazy")[i % 2],)):
            cases.append(group("P5", 2, 2, [3, 4], [("mul", [0, 1])], ["waves"] + part, send=send, via="delegate"))
    num = 800 if c.thorough else 48
    for cfg, n, ops, m in (("Mul", 3, [("mul", [0, 1])], 2), ("Mul2", 2, [("umul", [0, 1, 1, 1])], 2), ("Inv2", 3, [("uinv", [0, 1])], 2), ("Or2", 3, [("uor", [0, 1])], 2),
                           ("Sel", 3, [("sel", [0, 1, 2])], 3), ("Rand", 3, [("rand", []), ("rand", []), ("add", [0, 1])], 0)):
        ss = schedules(c, "MpcSched" + cfg, num)
        for send in ("eager", "lazy"):
            for part in shards(ss, 4 if c.thorough else 1):
                v = [c.rng.randrange(1, 5) if cfg not in ("Or2", "Sel") else c.rng.randrange(2) for _ in range(m)]
                cases.append(group("P5", n, 2, v, ops, ["waves"] + part, send=send, via="delegate", rng="real" if cfg == "Rand" else "ideal"))
    for ss in [schedules(c, "MpcSchedMixed", num)]:
        cases.append(group("P5", 3, 2, [2, 3, 1], [("mul", [0, 1]), ("inv", [2]), ("rand", []), ("umul", [3, 4, 0, 0])], ["waves"] + ss, via="direct"))
    for rep in range(24 if c.thorough else 5):
        for m, ops in PROGRAMS:
            F, v, rng = world(c, m, ops)
            n, t = size(c, F, 5 if rep % 3 else 10)
            cases.append(group(F, n, t, v, ops, ["waves"] + [f"rand:{c.rng.randrange(1 << 30)}" for _ in range(8)], rng=rng))
    for F in LARGE + (list(FIELDS) if c.thorough else []):
        for _ in range(20 if c.thorough else 4):
            v, ops = composed(c, F, c.rng.choice([4, 8, 14]))
            rng = "real" if F in LARGE and c.rng.randrange(2) else "ideal"
            cases.append(group(F, *size(c, F, 5), v, ops, ["waves"] + [f"rand:{c.rng.randrange(1 << 30)}" for _ in range(5)], rng=rng))
    # long batches, and many steps one after the other
    for F in ("P101", "P257", "P2p64m59"):
        p = FIELDS[F]
        for op, ks in (("umul", (6, 9, 12, 17, 33, 70)), ("uinv", (6, 9, 12, 17, 33, 70)), ("uor", (6, 9, 11)), ("rand", (9, 20, 40)), ("mul", (12, 30)), ("inv", (12,))):
            for k in ks + ((2 * ks[-1] + c.rng.randrange(20),) if c.thorough and op != "uor" else ()):
                k += c.rng.randrange(3) if op != "uor" else 0
                v = [c.rng.randrange(2) if op == "uor" else nonzero(c, p) for _ in range(min(k, 12))]
                m = len(v)
                ops = ([("umul", [c.rng.randrange(m) for _ in range(2 * k)])] if op == "umul" else [("uinv", [i % m for i in range(k)])] if op == "uinv" else
                       [("uor", list(range(m)))] if op == "uor" else [("rand", []) for _ in range(k)] + [("mul", [m, m + 1])] if op == "rand" else
                       [("mul", [c.rng.randrange(m + i) for _ in range(2)]) for i in range(k)] if op == "mul" else [("inv", [c.rng.randrange(m + i)]) for i in range(k)])
                cases.append(group(F, *size(c, F, 4), v, ops, ["waves"] + [f"rand:{c.rng.randrange(1 << 30)}" for _ in range(6 if c.thorough else 3)]))
    execute(c, exe, cases, weight=cost)


def S14(c):
    exe = c.build("mpc")
    models(c, [("MpcMulAsync", "all messages of a phase are sent before any is awaited")], [("MpcOr3Lock", "OR of three bits"), ("MpcInv2Lock", "inversion of two")])
    c.assumptions += COMMON + ["rounds are counted in lock-step execution, where all parties run until they wait and then all messages arrive"]
    cases, g = [], 0
    for F in some_fields(c, 24 if c.thorough else 8, 13) + ["P13", "P2p255m19"]:
        p = FIELDS[F]
        top = min(p - 2, 40 if c.thorough else 16)
        for send in ("eager", "lazy"):
            for op, first in (("umul", 1), ("uinv", 1), ("uor", 2)):
                g += 1
                n, t = size(c, F, 4)
                ls = sorted({first, first + 1, c.rng.randrange(first, top + 1), top})
                if op == "uor":
                    ls = [l for l in ls if l <= 12]
                for l in ls:
                    v = [c.rng.randrange(2) if op == "uor" else nonzero(c, p) for _ in range(l)]
                    args = list(range(l)) if op != "umul" else [c.rng.randrange(l) for _ in range(2 * l)]
                    line = runline(c, F, n, t, v, [(op, args)], sched="waves", group=f"g{g}", send=send)
                    cases.append((g, line))
    for F in ("P31", "P101", "Mersenne61"):
        for op in ("umul", "uinv", "uor"):
            g += 1
            send, via = c.rng.choice(["eager", "lazy"]), c.rng.choice(["delegate", "direct"])
            for l in (3, 33, 65, 130, 257, 1030) if op != "uor" else (3, 29) if F == "P31" else (3, 34) if F != "P101" or not c.thorough else (3, 70):
                v = [1] * 7
                args = [c.rng.randrange(7) for _ in range(2 * l if op == "umul" else l)]
                if l < 300 or F == "P101":
                    cases.append((g, runline(c, F, 2, 2, v, [(op, args)], sched="waves", group=f"g{g}", send=send, via=via)))
    groups = [[l for k, l in cases if k == i] for i in range(1, g + 1)]
    execute(c, exe, groups, weight=cost)


def S15(c):
    exe = c.build("mpc")
    models(c, [("MpcMixedAsync", "a delegated program is the program it delegates to")])
    c.assumptions += COMMON + ["the random source is the same for both, so that randomness drawn and sent can be compared"]
    cases, g = [[f"delegation seed={c.rng.randrange(1 << 40)}" for _ in range(40 if c.thorough else 8)]], 0
    for rep in range(60 if c.thorough else 15):
        for m, ops in PROGRAMS:
            g += 1
            F, v, rng = world(c, m, ops)
            n, t = size(c, F, 5)
            kw = dict(seed=c.rng.randrange(1 << 40), sched="waves", send=c.rng.choice(["eager", "lazy"]), rng=rng, group=f"g{g}")
            cases.append([runline(c, F, n, t, v, ops, via=via, **kw) for via in ("direct", "delegate")])
    for F in LARGE + (list(FIELDS) if c.thorough else ["P7", "P101"]):
        for _ in range(30 if c.thorough else 8):
            g += 1
            # random numbers called directly are real ones
            v, ops = composed(c, F, c.rng.choice([3, 8, 14]), allowed=ALL_OPS if F in LARGE else [o for o in ALL_OPS if o not in ("rand", "rands", "start")])
            kw = dict(seed=c.rng.randrange(1 << 40), sched=c.rng.choice(["waves", f"rand:{c.rng.randrange(1 << 30)}"]), send=c.rng.choice(["eager", "lazy"]), rng="real" if F in LARGE else "ideal", group=f"g{g}")
            n, t = size(c, F, 5)
            cases.append([runline(c, F, n, t, v, ops, via=via, **kw) for via in ("direct", "delegate")])
    execute(c, exe, cases, weight=cost)


ALL_OPS = ["mul", "umul", "inv", "uinv", "or", "uor", "sel", "rand", "rands", "start", "add", "sub"]


LOST = ["lost_mul", "lost_umul", "lost_inv", "lost_uinv", "lost_or", "lost_uor", "lost_sel"]


def composed(c, F, length, small=False, allowed=ALL_OPS):
    """A random program with data flow, and inputs for it; what it computes is followed as far as legal operands need it."""
    p = FIELDS[F]
    m = c.rng.randrange(2, 5)
    vals = [c.rng.choice([0, 1]), nonzero(c, p)] + [c.rng.choice([0, 1, elem(c, p), elem(c, p)]) for _ in range(m - 2)]
    ins, ops, open_ = list(vals), [], 0
    known = [True] * m     # of a value that depends on the parties' randomness, an instance is followed, so that e.g. its difference with itself counts as zero
    some = c.rng.sample(allowed, min(len(allowed), c.rng.choice([3, 5, 12])))

    def pick(k, ok=lambda i: True):
        r = [i for i in range(len(vals)) if ok(i)]
        recent = r[-3:]
        return [c.rng.choice(recent if c.rng.randrange(2) else r) for _ in range(k)] if r else None
    bit = lambda i: known[i] and vals[i] in (0, 1)
    inv = lambda i: vals[i] != 0 and (known[i] or p > 2**40)
    some_element = lambda: c.rng.randrange(p)
    k = c.rng.choice([1, 1, 2, 3, 5])
    while len(ops) < length:
        o = c.rng.choice(some)
        if o == "start" or (open_ and c.rng.randrange(3) == 0):
            if open_ and c.rng.randrange(2):
                o = c.rng.choice(["finish", "finish", "finish", "finishlast", "drop"])
                open_ -= 1
                ops.append((o, []))
                vals += [some_element()] if o != "drop" else []
                known += [False] if o != "drop" else []
            elif open_ < 4:
                ops.append(("start", []))
                open_ += 1
            continue
        if o.startswith("lost_"):   # begun, and dropped before anything is awaited
            a = pick({"mul": 2, "umul": 2 * c.rng.choice([1, 3]), "sel": 3, "inv": 1, "or": 1}.get(o[5:]) or c.rng.choice([1, 3]))
            ops.append((o, a))
            continue
        k = c.rng.choice([0, 1, 2, 3, 4]) if not small else c.rng.choice([1, 2])
        if o in ("mul", "add", "sub"):
            a = pick(2)
            x, y = vals[a[0]], vals[a[1]]
            new = [dict(mul=x * y, add=x + y, sub=x - y)[o] % p]
        elif o == "umul":
            a = pick(2 * k)
            new = [vals[a[2 * i]] * vals[a[2 * i + 1]] % p for i in range(k)]
        elif o in ("inv", "uinv"):
            a = pick(1 if o == "inv" else k, inv)
            if a is None:
                continue
            new = [pow(vals[i], -1, p) for i in a]
        elif o in ("or", "uor"):
            a = pick(1 if o == "or" else min(max(k, 1), p - 1), bit)
            if a is None:
                continue
            new = [int(any(vals[i] for i in a))]
        elif o == "sel":
            b = pick(1, bit)
            if b is None:
                continue
            a = b + pick(2)
            new = [vals[a[1]] if vals[a[0]] else vals[a[2]]]
        else:
            a = [] if o == "rand" else [0] * max(k, 1)
            new = [some_element() for _ in (a or [0])]
        ops.append((o, a))
        vals += new
        known += [o not in ("rand", "rands") and all(known[i] for i in a)] * len(new)
    for _ in range(open_):
        if c.rng.randrange(4):
            ops.append(("finish", []))
    return ins, ops


def S16(c):
    exe = c.build("mpc")
    models(c, [("MpcMixedAsync", "a product, its inverse, a random number and more products"), ("MpcOverlapAsync", "a random number under way during a product, three parties"),
               ("MpcOverlap2Async", "two under way, awaited in the other order"), ("MpcLostAsync", "operations that are begun and dropped between others"), ("MpcAllAsync", "an OR, a selection by it, an inversion, and a number under way")])
    c.assumptions += COMMON + ["programs and their inputs are sampled; sessions take turns in random order, or have threads that the operating system schedules"]
    cases = []

    def one(F=None, length=None, small=False, **kw):
        F = F or c.rng.choice(list(FIELDS))
        v, ops = composed(c, F, length or c.rng.choice([2, 4, 8, 16]), small, ALL_OPS + LOST)
        inverts = {o.replace("lost_", "") for o, _ in ops} & {"inv", "uinv", "or", "uor"}
        n, t = size(c, F, 5)
        kw.setdefault("rng", "real" if (not inverts or FIELDS[F] > 2**40) and c.rng.randrange(2) else "ideal")
        return runline(c, F, n, t, v, ops, **kw)
    for F in FIELDS:
        for _ in range(100 if c.thorough else 14):
            cases.append([one(F)])
        for _ in range(10 if c.thorough else 1):
            cases.append([one(F, c.rng.choice([40, 60]), small=True)])
    alone = cases
    cases = []
    for cfg, ops in (("Overlap", [("start", []), ("mul", [0, 0]), ("finish", []), ("mul", [1, 2])]),
                     ("Overlap2", [("start", []), ("start", []), ("mul", [0, 0]), ("rand", []), ("finishlast", []), ("finish", []), ("add", [3, 4])])):
        for s in schedules(c, "MpcSched" + cfg, 400 if c.thorough else 60):
            alone.append([runline(c, "P5", 3, 2, [c.rng.randrange(5)], ops, sched=s, rng="real")])
    # sessions that take turns, of one field or of several
    for i in range(400 if c.thorough else 70):
        k = c.rng.choice([2, 2, 3, 5])
        fs = [c.rng.choice(list(FIELDS))] if i % 3 == 0 else c.rng.sample(list(FIELDS), 3)
        length = c.rng.choice([2, 5, 10])
        ls = [one(c.rng.choice(fs), length, small=c.rng.randrange(2) == 0) for _ in range(k)]
        if i % 5 == 4:
            ls.append(one(c.rng.choice(fs), length) + f" stop={c.rng.choice([1, 3, 8, 20])}")
        if i % 4 == 3:
            ls = [ls[0]] * k
        cases.append([f"weave {c.rng.randrange(1 << 30)}"] + ls + ["endweave", one(c.rng.choice(fs), 4)])
    # sessions that are abandoned before others begin
    for i in range(200 if c.thorough else 40):
        F = c.rng.choice(list(FIELDS))
        ls = [one(F, 3, small=True, sched="waves") + f" stop={c.rng.randrange(1, 14)}" for _ in range(c.rng.choice([1, 3, 6]))]
        cases.append(ls + [one(F, 6) for _ in range(2)])
    # and that have a thread each
    for i in range(100 if c.thorough else 16):
        k = c.rng.choice([2, 4, 8])
        fs = c.rng.sample(list(FIELDS), c.rng.choice([1, 3]))
        cases.append(["par"] + [f"{t} " + one(c.rng.choice(fs), c.rng.choice([2, 5, 10]), small=True) for t in range(k) for _ in range(c.rng.choice([1, 3]))] + ["endpar", one(c.rng.choice(fs), 4)])
    execute(c, exe, alone, weight=cost)
    execute(c, exe, cases, each=True, timeout=150)


CHECKS = {f"S{i:02d}": globals()[f"S{i:02d}"] for i in range(1, 17)}
