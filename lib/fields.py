"""F01..F06 and E01..E04: jester_maths and jester_encryption against spec/Fields.tla."""
import json, math
from core import *

SHIPPED = {f"Mersenne{k}": 2**k - 1 for k in (2, 3, 5, 13, 17, 19, 31, 61, 89, 107, 127)}
# the primes of RFC 5114 as the specification has them (only used to choose arguments; TLC recomputes everything)
def _rfc():
    txt = open(os.path.join(SPEC, "Rfc5114.tla")).read()
    m = re.findall(r"^P(\d) == <<([\d, \n]+)>>", txt, re.M)
    return {f"IetfGroup{i}": sum(int(x) << (10 * k) for k, x in enumerate(v.split(","))) for i, v in m}
SHIPPED.update(_rfc())
CUSTOM = dict(P2=2, P5=5, P11=11, P13=13, P17=17, P19=19, P23=23, P29=29, P101=101, P257=257, P65537=65537, P2p32m5=2**32 - 5,
              P2p64m59=2**64 - 59, P2p64p13=2**64 + 13, P2p255m19=2**255 - 19, P36=int("zzt", 36))
ALL = {**SHIPPED, **CUSTOM}
TINY = [n for n, p in ALL.items() if p <= 31]
BIG = [n for n, p in ALL.items() if p.bit_length() > 1000]


def h(n):
    return format(n, "x")


def edges(p):
    """Values at which carries, wraps and word boundaries lie."""
    e = {0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1, p // 3}
    for k in (8, 10, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 1023, 1024):
        e |= {2**k - 1, 2**k, 2**k + 1, p - 2**k}
    e |= {(1 << (p.bit_length() - 1)) - 1, 1 << (p.bit_length() - 1), math.isqrt(p), math.isqrt(p) + 1}
    return sorted(x for x in e if 0 <= x < p)


def elem(c, p):
    how = c.rng.randrange(8)
    if how == 6:                             # a few bits among zeros, or a few zeros among ones
        v, b = 0, p.bit_length()
        for _ in range(c.rng.choice([1, 1, 2, 3, 5])):
            v |= 1 << c.rng.randrange(b)
        return (v if c.rng.randrange(2) else ((1 << b) - 1) ^ v) % p
    if how == 7:                             # runs of equal bits
        v, b = 0, p.bit_length()
        while b > 0:
            k = min(b, c.rng.choice([1, 2, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 200]))
            v = (v << k) | (((1 << k) - 1) * c.rng.randrange(2))
            b -= k
        return v % p
    if how == 0:
        return c.rng.choice(edges(p))
    if how == 1:
        return c.rng.randrange(min(p, 1 << c.rng.randrange(1, p.bit_length() + 1)))
    if how == 2:
        return p - 1 - c.rng.randrange(min(p, 1 << c.rng.randrange(1, p.bit_length() + 1)))
    return c.rng.randrange(p)


def run(c, exe, blocks, weight=None, shard=CORES, timeout=500):
    """blocks: (field, [lines]); long ones are cut, then dealt to the cores by weight."""
    pieces = []
    for name, lines in blocks:
        w = weight(name) if weight else 1
        keep = any(l.startswith("step") for l in lines)
        size = len(lines) if keep else max(1, int(2000 / w))
        for i in range(0, len(lines), size):
            pieces.append((len(lines[i:i + size]) * w, ["field " + name] + lines[i:i + size]))
    pieces.sort(key=lambda x: -x[0])
    loads = [[0, []] for _ in range(min(shard, len(pieces)))]
    for w, ls in pieces:
        m = min(loads, key=lambda x: x[0])
        m[0] += w
        m[1] += ls

    def one(ls):
        sc, tr = c.path("scenario"), c.path("trace")
        write_lines(sc, ls)
        c.harness(exe, [sc], tr, timeout=timeout)
        return tr, {}
    trs = c.pool([(lambda l=l: one(l[1])) for l in loads])
    with open(trs[0][0]) as f:
        for i, ln in enumerate(f):
            if i in (1, 7) and len(ln) < 3000:
                c.sample(json.loads(ln))
    c.extra["fields"] = sorted({n for n, _ in blocks})
    c.extra["calls"] = sum(len(l) for _, l in blocks)
    return c.validate("FieldTrace", trs)


def heavy(name):
    return 1 + (ALL[name].bit_length() / 64) ** 1.2


def design(c):
    c.model("FieldsMC", "FieldsMCDeep.cfg" if c.thorough else "FieldsMC.cfg",
            what="the specification: field axioms, uniqueness of inverses, exponent laws, equal DH secrets, RSA round trips, over all elements of small fields", timeout=2000)
    c.assumptions += ["exhaustive over the elements of small fields; edge values and random elements in the large ones"]


def programs(c, name, n, steps):
    """Random programs of the register machine."""
    p, out = ALL[name], []
    for _ in range(n):
        for d in range(8):
            out.append(load(c, p, d))
        for _ in range(steps):
            f = c.rng.choice(["add", "sub", "mul"] * 4 + ["sum", "prod", "sub", "prime", "load", "loadint", "one", "zero"] + (["inv", "pow"] if p.bit_length() < 300 else []))
            d, a, b = (c.rng.randrange(8) for _ in range(3))
            if f == "load":
                out.append(load(c, p, d))
            elif f == "loadint":
                out.append(f"step loadint {d} {a} {b} {c.rng.choice([0, 1, -1, -p if p < 2**63 else -2, 2**63 - 1, -2**63, c.rng.randrange(-2**63, 2**63)])}")
            else:
                out.append(f"step {f} {d} {a} {b}")
    return out


def load(c, p, d):
    how = c.rng.choice(["big", "str10", "str36", "le", "be"])
    v = elem(c, p)
    if how in ("big", "str10", "str36") and c.rng.randrange(3) == 0:
        v = c.rng.choice([p, p + 1, 2 * p, 2 * p - 1, p * p, p * p - 1, v + p * c.rng.randrange(1 << 20)])
    return f"step load {d} 0 0 {how} {h(v)}"


def F01(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for n, p in ALL.items():
        ls = ["consts", "sum", "prod", f"sum {h(p - 1)}", f"prod {h(p - 1)}"]
        if p <= (131 if c.thorough else 31):
            E = range(p)
            ls += [f"{op} {h(a)} {h(b)}" for op in ("add", "sub", "mul", "eq") for a in E for b in E]
        else:
            E = edges(p)
            pairs = [(a, b) for a in E for b in E]
            if p.bit_length() > 300 and not c.thorough:
                pairs = c.rng.sample(pairs, 200)
            pairs += [(elem(c, p), elem(c, p)) for _ in range((4000 if c.thorough else 300) if p.bit_length() < 300 else (600 if c.thorough else 60))]
            # sums and differences that meet the prime exactly or just miss it
            for _ in range(300 if c.thorough else 40):
                a = elem(c, p)
                pairs += [(a, (p - a) % p), (a, (p - 1 - a) % p), (a, (p + 1 - a) % p), (a, a), (a, (a + 1) % p)]
            ls += [f"{op} {h(a)} {h(b)}" for a, b in pairs for op in ("add", "sub", "mul")]
            ls += [f"eq {h(a)} {h(b)}" for a, b in c.rng.sample(pairs, 60)]
        for _ in range(60 if c.thorough else 12):
            k = c.rng.choice([2, 3, 4, 7, 20, 64, 65, 200])
            xs = [h(elem(c, p)) if c.rng.randrange(3) else h(p - 1) for _ in range(k)]
            ls += ["sum " + " ".join(xs), "prod " + " ".join(x for x in xs if x != "0")]
        # long ones, of round lengths and others
        ks = [255, 256, 257, 511, 512, 513, 1000, 1024, 1025, c.rng.randrange(200, 3000)]
        for k in c.rng.sample(ks, 5) if p.bit_length() > 300 and not c.thorough else ks:
            xs = [elem(c, p) if c.rng.randrange(3) else p - 1 for _ in range(k)]
            ls += ["sum " + " ".join(map(h, xs)), "prod " + " ".join(h(x or 1) for x in xs)]
        k = c.rng.choice([300, 600])
        ls += ["sum " + " ".join([h(p - 1)] * k), "sum " + " ".join([h(elem(c, p))] * k), "sum " + " ".join(["0"] * k),
               "prod " + " ".join([h(p - 1)] * k), "prod " + " ".join(["1"] * k + ["0"]), "prod " + " ".join([h(elem(c, p) or 1)] * k)]
        blocks.append((n, ls))
        big = p.bit_length() > 300
        k = (60 if c.thorough else 4) if not big else (8 if c.thorough else 1)
        for i in range(k):
            blocks.append((n, programs(c, n, 1, 60 if not big else 30)))
    run(c, exe, blocks, heavy)


def F02(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for n, p in ALL.items():
        ls = []
        if p < 9000 or (c.thorough and p <= 140000):
            ls += [f"inv {h(a)}" for a in range(1, p)]
        else:
            k = 60 if p.bit_length() > 300 else 300
            E = [a for a in edges(p) if a] + [elem(c, p) or 1 for _ in range(k * (10 if c.thorough else 1))]
            # long and lopsided quotient sequences: neighbours of golden-ratio and small fractions of p
            phi = int(p * 0.6180339887) if p < 2**50 else (p * 6180339887498948482045868343656 // 10**31)
            E += [max(1, (p // d + s) % p) for d in range(2, 40) for s in (0, 1)] + [phi + i for i in range(-10, 10) if 0 < phi + i < p]
            ls += [f"inv {h(a)}" for a in E]
        if p <= 31:
            ls += [f"egcd {a} {b}" for a in [*map(h, range(p)), "P"] for b in map(h, range(p))]
        else:
            E = edges(p)
            pairs = [(c.rng.choice(E), c.rng.choice(E)) for _ in range(60)] + [(elem(c, p), elem(c, p)) for _ in range(1500 if c.thorough else 60)]
            pairs += [(a * g % p, b * g % p) for a, b, g in ((elem(c, min(p, 1000)), elem(c, min(p, 1000)), c.rng.randrange(1, max(2, min(p, 2**60) // 1000 + 2))) for _ in range(60))]
            a, b = 1, 1                      # neighbouring Fibonacci numbers: the longest division sequences
            while b < p:
                pairs.append((b, a))
                a, b = b, a + b
            if p.bit_length() > 300 and not c.thorough:
                pairs = c.rng.sample(pairs, 60)
            ls += [f"egcd {h(a)} {h(b)}" for a, b in pairs] + [f"egcd P {h(elem(c, p))}" for _ in range(20)]
        blocks.append((n, ls))
    run(c, exe, blocks, heavy)


def F03(c):
    exe = c.build("field")
    design(c)
    INT = {t: (0 if t[0] == "u" else -(1 << (b - 1)), (1 << b) - 1 if t[0] == "u" else (1 << (b - 1)) - 1)
           for t, b in dict(i8=8, i16=16, i32=32, i64=64, isize=64, u8=8, u16=16, u32=32, u64=64, usize=64, i128=128, u128=128).items()}
    D = "0123456789abcdefghijklmnopqrstuvwxyz"

    def text(v, r):
        s = ""
        while True:
            v, d = divmod(v, r)
            s = D[d] + s
            if v == 0:
                return s
    blocks = []
    for n, p in ALL.items():
        ls = []
        small = p.bit_length() < 300
        for t, (lo, hi) in INT.items():
            if t == "u128" : hi = 2**126
            vs = {lo, lo + 1, lo + 2, -1, 0, 1, hi, hi - 1}
            for m in (1, 2, 3, 5):
                vs |= {s * m * p + d for s in (1, -1) for d in (-1, 0, 1)}
            if hi >= 0 and p < hi:            # the largest multiples of the prime
                vs |= {(hi // p) * p + d for d in (-1, 0, 1)} | {-((-lo) // p) * p + d for d in (-1, 0, 1)}
            for k in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 127):
                vs |= {s * 2**k + d for s in (1, -1) for d in (-1, 0, 1)}
            for _ in range(60 if c.thorough else 8):
                vs.add(c.rng.randrange(lo, hi + 1) >> c.rng.randrange(0, 60))
            vs = sorted(v for v in vs if lo <= v <= hi)
            if t in ("i8", "u8") and (p <= 8191 or c.thorough):
                vs = range(lo, hi + 1)
            ls += [f"int {t} {v}" for v in vs]
        for v in [0, 1, p - 1, p, p + 1, 2 * p - 1, 2 * p, p * p, p * p - 1, 2**64, 2**128 - 1] + [elem(c, p) + p * c.rng.randrange(1 << c.rng.randrange(1, 90)) for _ in range(300 if c.thorough else 30)]:
            ls.append(f"big {h(v)}")
        for r in range(2, 37):
            vs = {0, p - 1, p, p + 1, r, r - 1} | {elem(c, p) + p * c.rng.randrange(0, 3) for _ in range(12 if c.thorough else 3)}
            if not small:
                vs = c.rng.sample(sorted(vs), 6 if c.thorough else 2)
            for v in vs:
                s = text(v, r)
                z = c.rng.randrange(3)
                ls.append(f"str {r} " + (s.upper() if z == 0 else "0" * c.rng.randrange(3) + s))
        # very long numerals: far beyond the prime, or mostly zeros in front
        for r in c.rng.sample(range(2, 37), 10 if c.thorough else 3) + [c.rng.choice([2, 10, 16])]:
            k = c.rng.choice([200, 400, 700, 1300, 2000])
            ls.append(f"str {r} " + "".join(D[c.rng.randrange(1, r)] for _ in range(k)))
            ls.append(f"str {r} " + "0" * k + text(elem(c, p), r))
            ls.append(f"str {r} " + text(elem(c, p), r) + "0" * c.rng.choice([64, 200, 400]))
        # texts that are no numerals: refused, whatever is wrong with them
        for r in (2, 10, 16, 36) if not c.thorough else range(2, 37):
            good = text(elem(c, p), r)
            k = c.rng.randrange(len(good) + 1)
            bad = ["", " ", " " + good, good + " ", "\t" + good, good + "\n", good + ".0", good + "\0", good[:k] + "," + good[k:],
                   good[:k] + " " + good[k:], good[:k] + "é" + good[k:], "１２", "٣", good + "/", ":" + good, "@" + good, good + "`", good + "[", good + "{"]
            if r < 36:
                bad += [D[r], good + D[r], D[r].upper() + good, good[:k] + D[c.rng.randrange(r, 36)] + good[k:], good + "z"]
            if r <= 16:
                bad += ["0x1f", "0X" + good]
            ls += [f"text {r} " + (t.encode().hex() or "-") for t in bad]
        for e in (256, 1024, 4096):
            ls += [f"big {h((1 << e) + d)}" for d in (-1, 0, 1)] + [f"big {h(c.rng.getrandbits(e))}", f"big {h(p << e)}"]
        nb = (p.bit_length() + 7) // 8
        for o in ("le", "be"):
            if p <= 300:
                ls += [f"frombytes {o} {v:02x}" for v in range(256)]
            vs = {0, 1, p - 1, p, p + 1, 2 * p - 1, 256**nb - 1, 256**(nb + 1) - 1, 256**nb, 256**nb + 1, 255, 256, 257} | {elem(c, p) for _ in range(150 if c.thorough else 20)} | {p + elem(c, p) for _ in range(5)}
            vs |= {p ^ (1 << c.rng.randrange(p.bit_length())) for _ in range(8)}
            for v in vs:
                w = max(1, (v.bit_length() + 7) // 8) + c.rng.choice([0, 0, 0, 1, 3])
                ls.append(f"frombytes {o} " + v.to_bytes(w, "little" if o == "le" else "big").hex())
            ls += [f"frombytes {o} -", f"frombytes {o} 00", f"frombytes {o} 0000"]
            # much longer than the prime: padded with zeros, or large
            for _ in range(30 if c.thorough else 6):
                for v in (elem(c, p), c.rng.choice([0, 1, p - 1]), c.rng.choice([p, p + 1, p << 8, p << 64])):
                    w = (v.bit_length() + 7) // 8 + c.rng.choice([4, 8, 16, 17, 32, 33, 64, 100, 200, 300])
                    ls.append(f"frombytes {o} " + v.to_bytes(w, "little" if o == "le" else "big").hex())
                ls.append(f"frombytes {o} " + bytes(c.rng.randrange(256) for _ in range(nb + c.rng.randrange(2, 200))).hex())
        E = range(p) if p <= 8191 and (c.thorough or p < 300) else edges(p) + [elem(c, p) for _ in range(300 if c.thorough else 30)]
        ls += [f"tobytes {h(a)}" for a in E] + ["consts"]
        blocks.append((n, ls))
    run(c, exe, blocks, heavy)


def F04(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for n, p in ALL.items():
        ls = []
        bits = p.bit_length()
        if p <= (31 if not c.thorough else 101):
            ls += [f"pow {h(a)} {h(b)}" for a in range(p) for b in range(p)]
        if p <= (13 if not c.thorough else 31):
            ls += [f"powmod {h(a)} {h(b)} {m}" for a in range(p) for b in range(p) for m in [*map(h, range(1, p)), "P"]]
        if p > 13:
            k = 8 if bits > 1500 else 16 if bits > 300 else 120
            k *= 20 if c.thorough else 1
            E = edges(p)
            for b in (0, 1, 2, p - 1, p - 2, (p - 1) // 2) if bits < 300 or c.thorough else (0, 1, 2, c.rng.choice([p - 1, p - 2])):
                for a in (0, 1, p - 1, elem(c, p)):
                    ls.append(f"pow {h(a)} {h(b)}")
            ls += [f"pow {h(c.rng.choice(E))} {h(c.rng.choice(E))}" for _ in range(k)] + [f"pow {h(elem(c, p))} {h(elem(c, p))}" for _ in range(k)]
            for _ in range(2 * k):
                m = c.rng.choice([1, 2, 3, p - 1, p - 2, 1 << c.rng.randrange(bits - 1), elem(c, p) or 1, elem(c, p) | 1, c.rng.randrange(1, min(p, 1000))]) % p or 1
                ls.append(f"powmod {h(elem(c, p))} {h(elem(c, p))} {h(m)}")
            # exponents with long runs of zeros, for bases that do not hide anything
            for _ in range(max(3, k // 8)):
                e = (1 << c.rng.randrange(bits - 1)) + c.rng.choice([0, 1, 1, 3])
                ls.append(f"pow {h(elem(c, p) | 2)} {h(e % p)}")
                ls.append(f"powmod {h(elem(c, p) | 2)} {h(e % p)} {h((elem(c, p) | 1) % p or 1)}")
            for a, b in ((0, 0), (0, 1), (1, 0), (p - 1, 0), (p - 1, 1)):
                ls += [f"powmod {h(a)} {h(b)} {m}" for m in ("1", "2", h(p - 1), "P")]
            ls += [f"powmod {h(elem(c, p))} {h(elem(c, p))} P" for _ in range(max(2, k // 4))]
        blocks.append((n, ls))
    run(c, exe, blocks, lambda n: 1 + (ALL[n].bit_length() / 40) ** 2)


def width(n, k):
    """Beyond seven standard deviations of a count of n draws over k equally likely classes."""
    q = 1 / k
    return math.ceil(7 * math.sqrt(n * q * (1 - q))) + 10


def surveys(c, sources, scale):
    blocks = []
    for n in TINY + ["P101", "P257", "Mersenne13"]:
        p = ALL[n]
        for s in sources:
            N = int(scale * (2000000 if p <= 31 else 1000000))
            if "first" in s:
                N //= 4
            if p > 300:
                N = max(N, p * 120)
            blocks.append((n, [f"survey {s} {c.rng.randrange(1 << 40)} {N} {width(N, p)}"]))
            if p <= 31 and "first" not in s:
                N = max(int(scale * 400000), p * p * 120)
                blocks.append((n, [f"pairs {s} {c.rng.randrange(1 << 40)} {N} {width(N, p * p)}"]))
    for n in ALL:
        p = ALL[n]
        if p < 60000:
            continue
        for s in sources:
            N = 3000 if p.bit_length() > 300 else 12000
            if "key" in s and p.bit_length() > 300:
                N = 250 if not c.thorough else 1500
            blocks.append((n, [f"draws {s} {c.rng.randrange(1 << 40)} {N} {width(N, 16)} {'true' if p > 2**58 else 'false'}"]))
    return blocks


def F05(c):
    exe = c.build("field")
    design(c)
    c.assumptions += ["uniformity is judged on counts of up to millions of draws at more than seven standard deviations; seeds are fixed"]
    blocks = surveys(c, ["member", "firstmember"], 4 if c.thorough else 1)
    for n, p in ALL.items():
        blocks.append((n, [f"member {c.rng.randrange(1 << 40)}" for _ in range(60)] +
                       [f"dependence member {c.rng.randrange(1 << 40)} 1000 {int(999 * (1 - 1 / p) * 0.75) if p > 2 else 350}"]))
    run_surveys(c, exe, blocks)


def run_surveys(c, exe, blocks):
    """Each block is a unit of its own; they are dealt in turn."""
    def cost(b):
        return sum(int(l.split()[3]) if l.split()[0] in ("survey", "pairs") else 100 * int(l.split()[3]) if l.split()[0] == "draws" else 1000 for l in b[1])
    blocks.sort(key=lambda b: -cost(b))
    loads = [[0, []] for _ in range(CORES)]
    for b in blocks:
        m = min(loads, key=lambda x: x[0])
        m[0] += cost(b)
        m[1] += ["field " + b[0]] + b[1]

    def one(ls):
        sc, tr = c.path("scenario"), c.path("trace")
        write_lines(sc, ls)
        c.harness(exe, [sc], tr, timeout=700)
        return tr, {}
    trs = c.pool([(lambda l=l: one(l[1])) for l in loads])
    with open(trs[0][0]) as f:
        for ln in f:
            if len(ln) < 1500:
                c.sample(json.loads(ln))
    c.extra["fields"] = sorted({n for n, _ in blocks})
    c.extra["draws"] = sum(int(l.split()[3]) for _, b in blocks for l in b if l.split()[0] in ("survey", "pairs", "draws"))
    return c.validate("FieldTrace", trs, heap="4g")


def F06(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for n, p in SHIPPED.items():
        k = int(n[8:]) if n.startswith("Mersenne") else 0
        # the modulus that is declared, and the one that numbers wrap at
        ls = [f"prime {k}", f"big {h(p)}", f"big {h(p - 1)}", f"big {h(p + 1)}", f"big {h(2 * p - 1)}"]
        blocks.append((n, ls))
    run(c, exe, blocks, heavy)


def E01(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for n, p in ALL.items():
        bits, ls = p.bit_length(), []
        if p <= (23 if c.thorough else 13):
            ls += [f"dh {h(g)} {h(a)} {h(b)}" for g in range(p) for a in range(p) for b in range(p)]
        else:
            k = (5 if bits > 1500 else 12 if bits > 300 else 60) * (15 if c.thorough else 1)
            E = [0, 1, 2, p - 1, p - 2]
            tri = [(c.rng.choice([2, 3, 5, elem(c, p)]), elem(c, p), elem(c, p)) for _ in range(k)] + [(c.rng.choice(E), c.rng.choice(E), c.rng.choice(E)) for _ in range(k)]
            ls += [f"dh {h(g)} {h(a)} {h(b)}" for g, a, b in tri]
        # private keys with long runs of zeros
        for _ in range(2 if bits > 300 else 6):
            a = ((1 << c.rng.randrange(bits)) + 1) % p
            ls.append(f"dh {h(elem(c, p))} {h(a)} {h(elem(c, p))}")
        # three and more parties: whatever path a secret takes through them
        for m in ([3, 3, 4, 5] if bits < 300 else [3]) * (8 if c.thorough else 1 if bits > 300 else 3):
            ks = [c.rng.choice([elem(c, p), elem(c, p), p - 1, 1]) for _ in range(m)]
            paths = [c.rng.sample(range(m), m) for _ in range(3 if bits < 300 else 2)]
            ls.append(f"dhmulti {h(c.rng.choice([2 % p, 3 % p, elem(c, p)]))} {','.join(map(h, ks))} {'/'.join(','.join(map(str, q)) for q in paths)}")
        k = (4 if bits > 300 else 30) * (10 if c.thorough else 1)
        ls += [f"dhkeys {c.rng.randrange(1 << 40)} {h(c.rng.choice([2 % p, 3 % p, elem(c, p)]))}" for _ in range(k)]
        blocks.append((n, ls))
    run(c, exe, blocks, lambda n: 1 + (ALL[n].bit_length() / 30) ** 2)


def E02(c):
    exe = c.build("field")
    design(c)
    c.assumptions += ["uniformity is judged on counts of up to millions of draws at more than seven standard deviations; seeds are fixed"]
    blocks = surveys(c, ["key", "firstkey"], 1.5 if c.thorough else 0.3)
    for n, p in ALL.items():
        k = (6 if p.bit_length() > 300 else 100) * (10 if c.thorough else 1)
        gs = [0, 1, 2 % p, p - 1, *(elem(c, p) for _ in range(3))]
        blocks.append((n, [f"keypair {c.rng.randrange(1 << 40)} {h(c.rng.choice(gs))}" for _ in range(k)]))
        m = 1000 if p.bit_length() < 300 else 40
        blocks.append((n, [f"dependence key {c.rng.randrange(1 << 40)} {m} {int((m - 1) * (1 - 1 / p) * 0.75) if p > 2 else 350}"]))
    run_surveys(c, exe, blocks)


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(b, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def rsa_key(c, p, bits=None):
    """n = q r < p with exponents e, d."""
    while True:
        b = bits or p.bit_length() - 1
        def prime(k):
            while True:
                q = c.rng.randrange(max(2, 1 << (k - 1)), (1 << k) + 1)
                if is_prime(q):
                    return q
        k = max(2, b // 2 - c.rng.randrange(0, max(1, b // 8)))
        q, r = prime(k), prime(max(2, b - k))
        n, phi = q * r, (q - 1) * (r - 1)
        if q == r or n >= p:
            continue
        for e in c.rng.sample([3, 5, 7, 17, 257, 65537, c.rng.randrange(1, phi), c.rng.randrange(1, phi), phi - 1, 1], 10):
            e %= phi
            if math.gcd(e, phi) == 1 and 0 < e < p:
                return n, e, pow(e, -1, phi)


def le(m, pad=0):
    return m.to_bytes(max(1, (m.bit_length() + 7) // 8) + pad, "little").hex()


def rsa_keys(c):
    """(field, key) pairs; small moduli come in all fields that can hold them."""
    keys = []
    for n, p in ALL.items():
        if p < 14:
            continue
        bits = p.bit_length()
        for _ in range((40 if c.thorough else 5) if bits < 300 else (6 if c.thorough else 1)):
            keys.append((n, rsa_key(c, p)))
        if bits > 12:
            for b in (6, 8, 9, 10, 11, 12):
                keys.append((n, rsa_key(c, p, b)))
        if bits > 130:
            for b in (64, 65, 128):
                keys.append((n, rsa_key(c, p, b)))
    return keys


def E03(c):
    exe = c.build("field")
    design(c)
    blocks = []
    c.assumptions += ["key pairs are valid: n = q r for distinct primes, e d = 1 modulo (q-1)(r-1)"]
    for i, (name, (n, e, d)) in enumerate(rsa_keys(c)):
        if n < 4200 and (n < 600 or i % 3 == 0 or c.thorough):
            ms = range(n)
        else:
            ms = [0, 1, 2, n - 1, n - 2] + [elem(c, n) for _ in range((30 if n.bit_length() < 300 else 3) * (4 if c.thorough else 1))]
            ms += [256**k for k in range(1, 40, 7) if 256**k < n] + [256**k - 1 for k in range(1, 40, 7) if 256**k < n]
        ls = []
        for m in ms:
            pad = c.rng.choice([0, 0, 0, 0, 0, 1, 5, c.rng.choice([16, 40, 64, 100, 200, 300])])
            ls.append(f"rsapair {h(n)} {h(e)} {h(d)} {le(m, pad)}")
        ls += [f"rsapair {h(n)} {h(e)} {h(d)} -"]
        blocks.append((name, ls))
    run(c, exe, blocks, lambda n: 1 + (ALL[n].bit_length() / 40) ** 2)


def E04(c):
    exe = c.build("field")
    design(c)
    blocks = []
    for i, (name, (n, e, d)) in enumerate(rsa_keys(c)):
        p = ALL[name]
        nb = (n.bit_length() + 7) // 8
        if n < 4200 and (n < 600 or i % 3 == 0 or c.thorough):
            ms = set(range(0, min(p + 10, n + 800)))
        else:
            ms = {0, 1, n - 2, n - 1} | {elem(c, n) for _ in range(4 if n.bit_length() > 300 else 20)}
        ms |= {n, n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1, p - 1, p, p + 1, 2 * p, p + n - 1, p + n, 256**nb - 1, 256**nb, 256**nb + 1, 256**(nb + 2), n << 8, (n << 8) + 1}
        ms |= {n + c.rng.randrange(p - n) for _ in range(10)} | {p + c.rng.randrange(p) for _ in range(5)}
        ls = []
        for m in sorted(ms):
            for way, x in c.rng.sample([("enc", e), ("dec", d)], 2 if n.bit_length() < 300 else 1):
                ls.append(f"rsa {way} {h(n)} {h(x)} {le(m, c.rng.choice([0, 0, 0, 0, 1, 4, c.rng.choice([16, 40, 64, 100, 200, 300])]))}")
        blocks.append((name, ls))
    run(c, exe, blocks, lambda n: 1 + (ALL[n].bit_length() / 40) ** 2)


CHECKS = dict(F01=F01, F02=F02, F03=F03, F04=F04, F05=F05, F06=F06, E01=E01, E02=E02, E03=E03, E04=E04)
