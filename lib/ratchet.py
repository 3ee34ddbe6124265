"""R01..R07: jester_double_ratchet against spec/Ratchet.tla."""
import json
from core import *

NOTES = {}


def line(o):
    if o["op"] == "send":
        return f"send {o['p']}"
    if o["op"] == "forge":
        return f"forge {o['p']} {o['ref']} {o['pk']} {o['n']} {o['pn']}"
    if o["op"] == "burst":
        return f"burst {o['p']} {o['k']}"
    return f"{o['op']} {o['p']} {o['i']}"


def case(c, ops, mode="sym", flush=True):
    return [f"run {mode} {c.rng.randrange(1 << 40)}"] + [line(o) for o in ops] + (["flush"] if flush else []) + ["end"]


def run(c, exe, cases, prop, modes=("sym",)):
    def one(sh, tag):
        sc, tr = c.path("scenario-" + tag), c.path("trace-" + tag)
        write_lines(sc, [l for x in sh for l in x])
        c.harness(exe, [sc], tr, timeout=500)
        return tr, dict(mode=tag)
    trs = []
    for m in modes:
        mine = [x for x in cases if x[0].startswith("run " + m)]
        sh = shards(mine, max(CORES, len(mine) // 3000) if m == "sym" else 2) if mine else []
        trs += c.pool([(lambda s=s, m=m: one(s, m)) for s in sh])
    for tr, _ in trs[:1]:
        with open(tr) as f:
            for i, ln in enumerate(f):
                if i in (3, 9):
                    c.sample(json.loads(ln))
    c.extra["histories_replayed"] = c.extra.get("histories_replayed", 0) + len(cases)
    return c.validate("RatchetTrace", trs, env=dict(PROP=prop))


def design(c):
    c.assumptions += ["cryptography is symbolic in the model and in the harness: keys are equal iff they are derived alike",
                      "headers are not authenticated by the protocol; forged headers are those that cannot belong to the session",
                      "the number of messages skipped at once is not limited by the protocol"]
    if c.thorough:
        c.model("RatchetMC", "RatchetMCDeep.cfg", what="design: all properties, all histories of up to six messages per party", heap="16g", timeout=5000)
    c.model("RatchetMC", what="design: all properties, all histories with replays and forgeries, four messages per party")


def late_first(ops):
    """The initiator's first delivery is not the only message under way."""
    sends = 0
    for o in ops:
        if o["op"] == "send" and o["p"] == "B":
            sends += 1
        if o["op"] == "deliver" and o["p"] == "A":
            return sends > 1
    return False


def schedules(c, prop):
    """Histories from the specification: all short ones, and long random ones."""
    bad = {"R02": "Dup", "R03": "Forge"}.get(prop)
    name = "RatchetSchedule" + (bad or "All")
    if c.thorough and os.path.exists(os.path.join(SPEC, name + "Deep.cfg")):
        name += "Deep"
    short = c.enumerate("RatchetSchedule", name + ".cfg", heap="8g")
    if bad:
        short = [s for s in short if any(o["op"] in ("dup", "forge") for o in s)]
    if prop == "R07":
        short = [s for s in short if late_first(s)]
    num = (2000 if c.thorough else 60) * (1 if prop != "R03" else 2)
    seeds = [c.seed * 1000 + i for i in range(8 if c.thorough else 4)]
    jobs = [(lambda s=s: c.simulate("RatchetSchedule", f"RatchetScheduleLong{bad or ''}.cfg", num // len(seeds), 160, seed=s)) for s in seeds]
    long = [b for r in c.pool(jobs) for b in r]
    return short, long


def lopsided(c, n):
    """Long chains, bursts, and orders that random histories rarely have."""
    res = []
    for _ in range(n):
        ops, sent, pend, est = [], dict(A=0, B=0), dict(A=[], B=[]), dict(A=False, B=True)
        for _ in range(c.rng.randrange(2, 9)):
            p = c.rng.choice("AB")
            q = "B" if p == "A" else "A"
            if est[p]:
                for _ in range(c.rng.choice([1, 2, 5, 30])):
                    ops.append(dict(op="send", p=p))
                    sent[p] += 1
                    pend[q].append(sent[p])
            x = pend[q]
            how = c.rng.randrange(5)
            if how % 3 == 0:
                x.reverse()
            elif how % 3 == 1:
                c.rng.shuffle(x)
            elif how == 2 and x:
                x.insert(0, x.pop())           # the newest first
            k = c.rng.choice([len(x), len(x) // 2, 1, 0])
            for i in x[:k]:
                ops.append(dict(op="deliver", p=q, i=i))
                est[q] = True
            pend[q] = x[k:]
        res.append(ops)
    return res


class Story:
    """A history under construction; parties are established as the first message reaches A."""

    def __init__(self, c, prop):
        self.c, self.prop, self.ops, self.n = c, prop, [], dict(A=0, B=0)
        self.len = {}                    # of the chain of a key
        self.open = dict(A=[], B=[])     # under way to A, to B
        self.done = dict(A=[], B=[])     # decrypted by A, by B
        self.made, self.keys = dict(A=1, B=1), dict(A=[None], B=[None])   # key of each message

    def send(self, p, k=1):
        for _ in range(k):
            self.n[p] += 1
            self.keys[p].append(f"{p}{self.made[p]}")
            self.burst(p, 1, False)
            self.ops.append(dict(op="send", p=p))
            self.open["B" if p == "A" else "A"].append(self.n[p])

    def burst(self, p, k, op=True):
        """Messages that are lost, all of them in one chain that has begun."""
        key = f"{p}{self.made[p]}"
        self.len[key] = self.len.get(key, 0) + k
        if op:
            self.ops.append(dict(op="burst", p=p, k=k))

    def deliver(self, p, i):
        self.open[p].remove(i)
        if self.key(p, i) not in {self.key(p, j) for j in self.done[p]}:
            self.made[p] += 1
        self.done[p].append(i)
        self.ops.append(dict(op="deliver", p=p, i=i))

    def newest(self, p):
        self.deliver(p, max(self.open[p]))

    def late(self, p, k=None, how="shuffle"):
        x = list(self.open[p])
        if how == "shuffle":
            self.c.rng.shuffle(x)
        elif how == "reverse":
            x.reverse()
        for i in x[:k]:
            self.deliver(p, i)

    def dup(self, p, i):
        self.ops.append(dict(op="dup", p=p, i=i))

    def key(self, p, i):
        """The key of the i-th message to p."""
        return self.keys["B" if p == "A" else "A"][i]

    def forge(self, p, i, n, pn):
        """A header with the key of message i, of a chain that is over; no message has number n."""
        assert self.key(p, i) != self.key(p, max(self.done[p]))
        self.ops.append(dict(op="forge", p=p, ref=i, pk=self.key(p, i), n=n, pn=pn))

    def bad(self, p, k):
        """Duplicates, or forgeries with old keys and impossible numbers; the oldest among them."""
        if self.prop == "R02" and self.done[p]:
            for i in self.done[p][:1] + self.c.rng.sample(self.done[p], min(k, len(self.done[p]))):
                self.dup(p, i)
        if self.prop == "R03" and self.done[p]:
            old = [i for i in self.done[p] if self.key(p, i) != self.key(p, max(self.done[p]))]
            for i in old[:1] + self.c.rng.sample(old, min(k, len(old))):
                top = self.len[self.key(p, i)]
                few = self.c.rng.randrange(4)
                ns = [n for n in (top + few, 256 + few, 65536 + few, 2147480000) if n >= top]
                self.forge(p, i, self.c.rng.choice(ns), self.c.rng.choice([0, 3, 70000, 2147480000]))


def extremes(c, prop):
    """Histories of a size that no enumeration reaches."""
    res = []
    rng = c.rng
    big = 12 if c.thorough else 3
    # many messages missed in one chain, each needed later
    for _ in range(big):
        s = Story(c, prop)
        q = rng.choice("AB") if prop != "R07" else "A"
        p = "B" if q == "A" else "A"
        if prop != "R07" and (q == "B" or rng.randrange(2)):
            s.send("B")
            s.newest("A")
        if q == "B":
            s.send("A", rng.randrange(1, 3))
            s.newest("B")
        s.send(p, rng.choice([140, 270, 300]))
        s.newest(q)
        s.late(q, rng.randrange(20, 100))
        s.send(q, 2)
        s.newest(p)
        s.send(p, 2)
        s.newest(q)
        s.bad(q, 12)
        s.late(q, how=rng.choice(["shuffle", "reverse", "in order"]))
        s.bad(q, 12)
        res.append(s.ops)
    # a first chain of which very much is overtaken, or lost, before anything arrives; and later chains like that
    for k in (260, 700, 1030, 2050, 4100, 20000, 66000) if c.thorough else (rng.choice([260, 520]), 1030, rng.choice([2050, 4100])):
        s = Story(c, prop)
        s.send("B", rng.choice([2, 4]))
        s.burst("B", k)
        s.send("B", rng.choice([1, 3]))
        s.newest("A")
        s.bad("A", 2)
        s.late("A", rng.randrange(3))
        s.send("A", 2)
        s.burst("A", k // rng.choice([1, 3]))
        s.send("A")
        s.newest("B")
        s.send("B", 2)
        s.newest("A")
        s.bad("A", 3)
        s.late("A", how=rng.choice(["shuffle", "reverse", "in order"]))
        s.late("B")
        s.send("A")
        s.newest("B")
        s.bad("A", 3)
        s.bad("B", 3)
        res.append(s.ops)
    # many changes of direction, with messages of all chains under way
    for r in range(big):
        s = Story(c, prop)
        s.send("B", 2)
        s.newest("A")
        for turn in range(rng.choice([530, 560]) if r == 0 else rng.choice([70, 140, 140])):
            p, q = ("A", "B") if turn % 2 == 0 else ("B", "A")
            s.send(p, rng.choice([1, 1, 2, 3]))
            if rng.randrange(2):
                s.newest(q)
            else:
                fresh = [i for i in s.open[q] if i > max(s.done[q] + [0])]
                s.deliver(q, rng.choice(fresh))
            if rng.randrange(10) == 0:
                s.bad(q, 1)
        for q in "AB":
            s.late(q, how=rng.choice(["shuffle", "reverse", "in order"]))
            s.bad(q, 12)
        res.append(s.ops)
    # very long chains, most of whose messages are lost
    for how, k in enumerate((270, 1100, 2100, 66000, 5000, 66000, 140000) if c.thorough else (2100, 300, 66000)):
        s = Story(c, prop)
        s.send("B")
        s.newest("A")
        q = rng.choice("AB")
        p = "B" if q == "A" else "A"
        s.send("A")
        s.newest("B")
        s.send(p, 4)
        s.deliver(q, s.open[q][rng.choice([0, 1, 1])])
        for part in rng.choice([[k], [k // 2, k - k // 2], [k - 40, 40], [40, k - 40]]):
            s.burst(p, part)
            s.send(p, rng.randrange(1, 3))
        if how % 3 == 0:
            s.newest(q)
            s.late(q)
        if how % 3 == 1:
            s.newest(q)
        # the other way round, so that the chain ends
        s.send(q)
        s.newest(p)
        s.send(p, 2)
        s.newest(q)
        s.send(q)
        s.newest(p)
        s.bad(q, 3)
        s.late(q)
        s.bad(q, 5)
        s.bad(p, 3)
        res.append(s.ops)
    return res


def check(prop):
    def go(c):
        exe = c.build("ratchet")
        design(c)
        short, long = schedules(c, prop)
        if not c.thorough:
            cap = {"R01": 22000, "R02": 5000, "R03": 5000, "R07": 12000}.get(prop, 10000)
            if len(short) > cap:
                c.rng.shuffle(short)
                short = short[:cap]
        c.extra["schedules_enumerated_by_spec"] = len(short)
        c.extra["schedules_simulated_by_spec"] = len(long)
        cases = [case(c, s) for s in short] + [case(c, s) for s in long]
        if prop not in ("R02", "R03"):
            cases += [case(c, s) for s in lopsided(c, 600 if c.thorough else 40)]
        big = [case(c, s) for s in extremes(c, prop)]
        c.extra["large_histories"] = len(big)
        modes = ["sym"]
        if prop in ("R01", "R02", "R03", "R07"):
            modes.append("real")
            some = c.rng.sample(short, min(len(short), 2000 if c.thorough else 120)) + long[:200 if c.thorough else 20]
            cases += [case(c, s, "real") for s in some]
        c.rng.shuffle(cases)
        for i, x in enumerate(big):
            cases.insert(i * len(cases) // len(big), x)   # not in the same part
        run(c, exe, cases, prop, modes)
    return go


def R08(c):
    exe = c.build("ratchet")
    design(c)
    c.assumptions.append("the product of independent sessions: a history of several is right iff each projection is what the session does alone")
    histories = []
    for kind in ("", "Dup", "Forge"):
        n = (800 if c.thorough else 60)
        jobs = [(lambda s=s: c.simulate("RatchetSchedule", f"RatchetScheduleLong{kind}.cfg", n // 2, 160, seed=s)) for s in (c.seed * 77 + 1, c.seed * 77 + 2)]
        histories += [b for r in c.pool(jobs) for b in r]
    histories += lopsided(c, 200 if c.thorough else 30)
    small = c.enumerate("RatchetSchedule", "RatchetScheduleAll.cfg", heap="8g")
    c.extra["schedules_simulated_by_spec"] = len(histories)
    cases = []
    for i in range(3000 if c.thorough else 500):
        mode = "real" if i % 4 == 3 else "sym"
        k = c.rng.choice([2, 2, 3, 5])
        hs = [c.rng.choice(histories) if c.rng.randrange(3) else c.rng.choice(small) for _ in range(k)]
        if c.rng.randrange(4) == 0:
            hs = [hs[0]] * k                    # the same history, at nearly the same time
        lines = ["together"]
        for x in hs:
            lines += case(c, x, mode, flush=c.rng.randrange(2) == 0)
        cases.append(lines + [f"apart {'threads' if i % 5 == 4 else 'turns'} {c.rng.randrange(1 << 30)}"])
    # many sessions at once
    for i, k in enumerate(((9, 17, 33, 34, 65, 70, 130, 140) * 4 + (260, 520) if c.thorough else (9, 17, 33, 34, 65, 70, 130, 140))):
        lines = ["together"]
        for _ in range(k):
            lines += case(c, c.rng.choice(small), "real" if c.rng.randrange(4) == 0 else "sym", flush=c.rng.randrange(2) == 0)
        cases.append(lines + [f"apart {'threads' if i % 2 else 'turns'} {c.rng.randrange(1 << 30)}"])
    c.extra["groups_of_sessions"] = len(cases)

    def one(sh):
        sc, tr = c.path("scenario"), c.path("trace")
        write_lines(sc, [l for x in sh for l in x])
        c.harness(exe, [sc], tr, timeout=500)
        return tr, {}
    trs = c.pool([(lambda s=s: one(s)) for s in shards(cases)])
    with open(trs[0][0]) as f:
        for i, ln in enumerate(f):
            if i in (3, 9):
                c.sample(json.loads(ln))
    c.validate("RatchetTrace", trs, env=dict(PROP="R08"))


CHECKS = {p: check(p) for p in ("R01", "R02", "R03", "R04", "R05", "R06", "R07")}
CHECKS["R08"] = R08
