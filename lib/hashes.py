"""H01..H07: jester_hashes against spec/HashStream.tla (and Md5, Sha1, Blake2, Hash)."""
import json
from core import *

ALGS = ("md5", "sha1", "blake2b", "blake2s")
BS = dict(md5=64, sha1=64, blake2b=128, blake2s=64)
MAXK = dict(blake2b=64, blake2s=32)


def fun(c, alg, key=None, nn=None):
    """Scenario text of a hash function; BLAKE2 with a random key and digest length unless given."""
    if alg in MAXK:
        m = MAXK[alg]
        k = c.rng.choice([0, 0, 1, m - 1, m, c.rng.randrange(m + 1)]) if key is None else key
        n = c.rng.choice([m, m, m // 2, 1, c.rng.randrange(1, m + 1)]) if nn is None else nn
        return f"{alg} @{c.rng.randrange(1 << 30)}:{k} {n}"
    return f"{alg} - 0"


def msg(c, n):
    """Scenario text of n bytes: mostly random, often with some structure."""
    r = c.rng.random()
    rnd = lambda k: f"@{c.rng.randrange(1 << 30)}:{k}"
    b = c.rng.choice(["00", "00", "ff", "80", "01", "36", "5c", f"{c.rng.randrange(256):02x}"])
    if r < 0.12 or n == 0:
        return f"={b}:{n}"
    k = c.rng.choice([1, 1, 2, 4, 8, c.rng.randrange(1, n + 1)])
    k = min(k, n)
    if r < 0.24:
        return f"={b}:{k}+{rnd(n - k)}"                    # begins with a run
    if r < 0.36:
        return f"{rnd(n - k)}+={b}:{k}"                    # ends with a run
    if r < 0.42:
        p = min(n, c.rng.choice([2, 4, 8, 16, 32, 64, 128]))   # repeats itself
        s = c.rng.randrange(1 << 30)
        return "+".join([f"@{s}:{p}"] * (n // p) + [f"@{s}:{n % p}"])
    return rnd(n)


def base(c, n):
    return bytearray(c.rng.randrange(256) for _ in range(n))


def sibling(c, d, span=64):
    """A message that differs from d in one place only, or not at all."""
    d = bytearray(d)
    if d and c.rng.random() < 0.9:
        at = c.rng.choice([0, len(d) - 1, c.rng.randrange(len(d)), c.rng.randrange(len(d)), min(len(d) - 1, span // 2)])
        d[at] ^= c.rng.choice([1, 0x80, 0xff, c.rng.randrange(1, 256)])
    return d


def kin(c, d, k):
    """k messages of d's length, each different from d in one byte, the places spread all over d."""
    out = []
    for i in range(k):
        e = bytearray(d)
        at = [0, len(d) - 1][i] if i < 2 else c.rng.randrange(len(d) * (i - 2) // (k - 2), max(1, len(d) * (i - 1) // (k - 2)))
        e[min(at, len(d) - 1)] ^= c.rng.choice([1, 0x80, 0xff, c.rng.randrange(1, 256)])
        out.append(e)
    return out


def after(d, es):
    """d again before each of es: whatever is remembered of d must not be taken for theirs."""
    return [x for e in es for x in (d, e)]


def hx(d):
    return bytes(d).hex() or "-"


def run(c, exe, cases, module="HashTrace"):
    """Runs cases (lists of scenario lines) in shards and validates the recorded calls."""
    def one(sh):
        sc, tr = c.path("scenario"), c.path("trace")
        write_lines(sc, [l for case in sh for l in case])
        c.harness(exe, [sc], tr, timeout=600)
        return tr, dict(scenario_head=[l for case in sh for l in case][:3])
    sh = shards(cases)
    trs = c.pool([(lambda s=s: one(s)) for s in sh])
    for tr, _ in trs[:1]:
        with open(tr) as f:
            for line in f:
                c.sample(json.loads(line) if len(line) < 1500 else line[:1500], 3)
    return c.validate(module, trs)


def lengths(c, k, top):
    """Long lengths of every magnitude, near powers of two and anywhere; k of them (ten times that if thorough)."""
    out = []
    for _ in range(k * (6 if c.thorough else 1)):
        e = c.rng.randrange(9, (top * (8 if c.thorough else 1)).bit_length())
        out.append((1 << e) + c.rng.choice([-1, 0, 0, 1, c.rng.randrange(1 << e), c.rng.randrange(1 << e)]))
    return out + [top, top + c.rng.randrange(1, 300)]


def cuts(c, n, k):
    p = sorted(c.rng.choice([0, n, c.rng.randrange(n + 1)]) for _ in range(k))
    return [b - a for a, b in zip([0] + p, p + [n])]


def stream(c, ident, f, total, sizes):
    """A stream of pseudo-random pieces with the given sizes."""
    return ([f"open {ident} {f}"] + [f"update {ident} {msg(c, s)}" for s in sizes] + [f"finish {ident}"])


def common(c):
    c.assumptions += ["the harness passes the scenario's bytes to the code and records what it returns",
                      "digests are compared by TLC with spec/*.tla, which HashKat.tla ties to the RFC vectors"]
    c.model("HashKat", what="hash specifications against published test vectors")
    c.model("HashBuffer", "HashBufferLazy.cfg", what="block buffering design, BLAKE2 style")
    c.model("HashBuffer", "HashBufferEager.cfg", what="block buffering design, MD5/SHA-1 style")


def digests(alg, extend):
    def check(c):
        exe = c.build("hash", deep=True)
        common(c)
        bs, cases, ident = BS[alg], [], 0
        reps = 6 if c.thorough else 1
        top = (2 * bs + 10) if alg == "blake2b" else 4 * bs
        for _ in range(reps):
            for n in range(top):
                cases.append([f"digest {fun(c, alg)} {msg(c, n)}"])
        # finishing a stream, at every length around the block boundaries
        near = sorted({b * bs + d for b in range(0, 4) for d in (-9, -8, -1, 0, 1, 2, bs - 9, bs - 8) if b * bs + d >= 0})
        for _ in range(reps):
            for n in near:
                ident += 1
                cases.append(stream(c, ident, fun(c, alg), n, cuts(c, n, c.rng.randrange(4))))
        # long messages, some all alike, some of whole blocks
        for n in [5 * bs, 8 * bs, 1000, 10 * bs + 1, 17 * bs - 1] + lengths(c, 12, 1 << 16) + ([c.rng.randrange(2000, 20000) for _ in range(30)] if c.thorough else []):
            cases.append([f"digest {fun(c, alg)} {msg(c, n)}"])
        # and streamed, in a few pieces or in very many
        for n in lengths(c, 8, 1 << 15):
            ident += 1
            z = c.rng.choice([bs, bs - 1, 1000, 4096, 1])
            if z == 1:
                n %= 700
            sizes = c.rng.choice([[z] * (n // z) + [n % z], cuts(c, n, 3), cuts(c, n, 30)])
            cases.append(stream(c, ident, fun(c, alg), n, sizes))
        if alg in MAXK:
            m = MAXK[alg]
            for nn in range(1, m + 1):
                cases.append([f"digest {fun(c, alg, nn=nn)} {msg(c, c.rng.choice([0, 1, bs, c.rng.randrange(2*bs)]))}"])
            for k in range(0, m + 1):
                cases.append([f"digest {fun(c, alg, key=k, nn=m)} {msg(c, c.rng.choice([0, 0, 1, bs - 1, bs, bs + 1]))}"])
            if c.thorough:
                for nn in range(1, m + 1):
                    for k in (0, 1, m // 2, m):
                        for n in (0, 1, bs - 1, bs, bs + 1, 2 * bs):
                            cases.append([f"digest {fun(c, alg, key=k, nn=nn)} {msg(c, n)}"])
        else:
            # messages of more than 2^32 bits, by way of a chaining value the code computed itself
            big = (1 << 29) + 64 * c.rng.randrange(1, 50) + c.rng.randrange(64)
            cases.append([f"extend {alg} {big} 1048576 @7:{c.rng.randrange(120)}"])
            cases.append([f"extend {alg} {c.rng.randrange(1 << 20, 1 << 22)} 4097 @8:{c.rng.randrange(120)}"])
            if c.thorough:
                for e in (29, 30, 32):
                    cases.append([f"extend {alg} {(1 << e) - c.rng.randrange(1, 130)} 1048576 @9:{c.rng.randrange(120)}"])
        # nearly the same message, or key, one after the other
        k = 14 if c.thorough else 7
        for n in [8, bs - 1, 2 * bs, c.rng.randrange(3, 5 * bs)] * (3 if c.thorough else 1):
            f, d = fun(c, alg), base(c, n)
            cases.append([f"digest {f} {hx(x)}" for x in after(d, kin(c, d, k) + [d[:-1], d + b"\0", d[::-1], d])])
        if alg in MAXK:
            m = MAXK[alg]
            for n in [m, m, m - 1, m // 2 + 1, c.rng.randrange(2, m)] * (3 if c.thorough else 1):
                d, nn = base(c, n), c.rng.choice([m, m, c.rng.randrange(8, m)])
                x = msg(c, c.rng.choice([0, 1, bs]))
                cases.append([f"digest {alg} {hx(y)} {nn} {x}" for y in after(d, kin(c, d, k) + [d[:-1], d[::-1], d])])
                cases.append([f"digest {alg} {hx(d)} {z} {x}" for z in [nn, c.rng.randrange(1, m + 1), nn, m, nn - 1, nn]])
        for _ in range(40 if c.thorough else 8):
            cases.append([f"sizes {fun(c, alg)}"])
        deep(c, alg, cases)
        c.rng.shuffle(cases)
        run(c, exe, cases)
    return check


def deep(c, alg, cases):
    """States with counters that no message of this world reaches (needs the deeper hook)."""
    bs = BS[alg]
    top = dict(md5=61, sha1=61, blake2b=128, blake2s=64)[alg]
    near = [e for e in (16, 29, 31, 32, 33, 35, 48, 61, 63, 64, 96, 112) if e < top]
    for e in near:
        for off in (1, 2) if not c.thorough else (0, 1, 2, 3, 5):
            tot = (1 << e) - off * bs
            n = c.rng.randrange(1, 4 * bs)
            cs = cuts(c, n, c.rng.randrange(3)) or [0]
            cases.append([f"deep {fun(c, alg)} @{c.rng.randrange(1 << 30)} {tot} {','.join(map(str, cs))} {msg(c, n)}"])
    # the last lengths there are, and arbitrary ones
    cases.append([f"deep {fun(c, alg)} @5 {(1 << top) - 4 * bs} {bs - 1} {msg(c, 2 * bs - 20)}"])
    for _ in range(40 if c.thorough else 6):
        tot = c.rng.randrange(1 << c.rng.randrange(8, top)) // bs * bs
        n = c.rng.randrange(1, 3 * bs)
        cases.append([f"deep {fun(c, alg)} @{c.rng.randrange(1 << 30)} {tot} {c.rng.randrange(n)} {msg(c, n)}"])
    if c.thorough:
        cases.append([f"deepreal {fun(c, alg)} {(1 << 32) - c.rng.randrange(1, 300)} 1048576 {msg(c, 400)}"])
        cases.append([f"deepreal {fun(c, alg)} {(1 << 32) + c.rng.randrange(1, 10**8)} {1 << 30} {msg(c, 200)}"])


def h05(c):
    exe = c.build("hash", deep=False)
    common(c)
    # interleavings of several streams, generated by TLC from HashSchedule
    num = 400 if c.thorough else 40
    behs = c.simulate("HashSchedule", "HashSchedule.cfg", num, 30)
    c.extra["schedules_from_spec"] = len(behs)
    cases, start = [], 0
    for b in behs:
        start += 10
        lines = []
        for r in b:
            i = start + r["id"]
            if r["op"] == "open":
                lines.append(f"open {i} {fun(c, r['alg'])}")
            elif r["op"] == "update":
                lines.append(f"update {i} {msg(c, r['len'])}")
            else:
                lines.append(f"finish {i}")
        lines += [f"finish {start + i}" for i in (1, 2, 3)]
        cases.append(lines)
    # streams of one function side by side, at the same offsets, with contents that are nearly the same
    for alg in ALGS:
        for _ in range(120 if c.thorough else 16):
            bs, start = BS[alg], start + 10
            k = c.rng.choice([2, 2, 3])
            n = c.rng.choice([2 * bs, 3 * bs, c.rng.randrange(bs, 4 * bs)])
            d = base(c, n)
            ds = [d] + [sibling(c, d) for _ in range(k - 1)]
            f = fun(c, alg)
            step = c.rng.choice([[bs] * (n // bs + 1), [bs + 1] * (n // bs + 1), cuts(c, n, 5), [n]])
            lines = [f"open {start + i} {f}" for i in range(k)]
            o = 0
            for z in step:
                lines += [f"update {start + i} {hx(ds[i][o:o + z])}" for i in range(k)]
                o += z
            lines += [f"finish {start + i}" for i in range(k)]
            lines += [f"digest {f} {hx(x)}" for x in ds]
            cases.append(lines)
    # many streams at once
    for k in ((17, 40, 100, 300, 600) * 4 if c.thorough else (17, 40, 100, 300)):
        start += 10
        lines = [f"open {start + i} {fun(c, c.rng.choice(ALGS))}" for i in range(k)]
        for _ in range(3 * k):
            lines.append(f"update {start + c.rng.randrange(k)} {msg(c, c.rng.choice([0, 1, 63, 64, 65, 127, 128, 129, c.rng.randrange(300)]))}")
        lines += [f"finish {start + i}" for i in c.rng.sample(range(k), k)]
        start += k
        cases.append(lines)
    # the same on several threads at once
    for _ in range(60 if c.thorough else 12):
        k, lines = c.rng.choice([2, 4, 8]), ["par"]
        same = c.rng.choice(ALGS)
        for th in range(k):
            alg = same if c.rng.randrange(3) else c.rng.choice(ALGS)
            for _ in range(c.rng.choice([3, 10])):
                start += 1
                n = c.rng.randrange(6 * BS[alg])
                lines += [f"{th} {x}" for x in stream(c, start, fun(c, alg), n, cuts(c, n, c.rng.randrange(6)))]
                lines.append(f"{th} digest {fun(c, alg)} {msg(c, c.rng.randrange(2 * BS[alg]))}")
        cases.append(lines + ["endpar"])
    # one-shot against streamed, for every cut of short messages and for many cuts of longer ones
    for alg in ALGS:
        bs = BS[alg]
        f = fun(c, alg)
        for n in sorted({0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1}):
            for k in range(0, n + 1, 1 if c.thorough or n <= bs + 1 else 3):
                cases.append([f"pieces {f} {msg(c, n)} {k}"])
        for _ in range(3000 if c.thorough else 400):
            n = c.rng.choice([c.rng.randrange(4 * bs), c.rng.randrange(6000)])
            cs = cuts(c, n, c.rng.randrange(1, 9))
            cases.append([f"pieces {fun(c, alg)} {msg(c, n)} {','.join(map(str, cs))}"])
        mb = 1 << 20
        cases.append([f"longagree {f} {40 * mb + 17} {mb} {c.rng.choice([1000, 777, 4099])}"])
        cases.append([f"longagree {f} {mb + 5} {mb + 5} {c.rng.choice([1, 3, 63, 65, 127, 129])}"])
    c.rng.shuffle(cases)
    run(c, exe, cases)


def h06(c):
    exe = c.build("hash")
    common(c)
    cases = []
    for alg in ALGS:
        bs = BS[alg]
        keys = sorted({0, 1, 2, bs // 2, bs - 2, bs - 1, bs, bs + 1, bs + 2, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs + 7}
                      | {c.rng.randrange(3 * bs) for _ in range(6)})
        if c.thorough:
            keys = range(0, 3 * bs + 2)
        for k in keys:
            for n in [0, c.rng.choice([1, bs - 9, bs - 1, bs, bs + 1]), c.rng.randrange(3 * bs)][:3 if c.thorough else 2]:
                cases.append([f"hmac {fun(c, alg)} {msg(c, k)} {msg(c, n)}"])
        # keys with runs of one byte at either end, and keys and messages that are nearly the same
        for _ in range(12 if c.thorough else 2):
            for b in ("00", "ff", "36", "5c"):
                k = c.rng.choice([2, 20, bs - 1, bs, bs + 1])
                z = min(k - 1, c.rng.choice([1, 1, 2, 4, k - 1]))
                for key in (f"={b}:{z}+@{c.rng.randrange(1 << 30)}:{k - z}", f"@{c.rng.randrange(1 << 30)}:{k - z}+={b}:{z}"):
                    cases.append([f"hmac {fun(c, alg)} {key} {msg(c, c.rng.randrange(bs))}"])
            f, k, m = fun(c, alg), base(c, c.rng.choice([1, 32, bs, bs + 9])), base(c, c.rng.randrange(1, 2 * bs))
            cases.append([f"hmac {f} {hx(x)} {hx(y)}" for x, y in
                          [(k, m), (sibling(c, k), m), (k, sibling(c, m)), (sibling(c, k), sibling(c, m)), (k, m), (m, k)]])
        # keys that differ in one place of many, and messages likewise, in turn
        w = 12 if c.thorough else 6
        for n in [bs - 1, bs + 1, c.rng.choice([2 * bs, 3 * bs]), c.rng.randrange(3, 3 * bs)] * (3 if c.thorough else 1):
            f, k, m = fun(c, alg), base(c, n), base(c, c.rng.choice([3, 20]))
            cases.append([f"hmac {f} {hx(x)} {hx(m)}" for x in after(k, kin(c, k, w) + [k[:-1], k[::-1], k])])
        f, k, m = fun(c, alg), base(c, c.rng.choice([5, 32, bs + 3])), base(c, c.rng.randrange(bs, 3 * bs))
        cases.append([f"hmac {f} {hx(k)} {hx(x)}" for x in after(m, kin(c, m, w) + [m[:-1], m[::-1], m])])
        if alg in MAXK:
            d, k, m = base(c, MAXK[alg]), base(c, c.rng.choice([5, bs + 3])), base(c, 9)
            cases.append([f"hmac {alg} {hx(x)} {MAXK[alg]} {hx(k)} {hx(m)}" for x in after(d, kin(c, d, w))])
        for n in (range(0, 2 * bs + 2) if c.thorough else c.rng.sample(range(2 * bs), 14)):
            cases.append([f"hmac {fun(c, alg)} {msg(c, c.rng.choice([0, 3, bs, bs + 1]))} {msg(c, n)}"])
        # long messages and long keys
        for n in lengths(c, 8, 1 << 15):
            cases.append([f"hmac {fun(c, alg)} {msg(c, c.rng.choice([0, 16, bs, bs + 1, 200]))} {msg(c, n)}"])
        for n in lengths(c, 5, 1 << 13):
            cases.append([f"hmac {fun(c, alg)} {msg(c, n)} {msg(c, c.rng.choice([0, 5, bs, 3 * bs]))}"])
        n = c.rng.choice([1 << 10, 1 << 12]) + c.rng.choice([0, 1, bs])
        f, k, m = fun(c, alg), base(c, n), base(c, 2 * n)
        cases.append([f"hmac {f} {hx(x)} {hx(y)}" for x, y in [(k, m), (sibling(c, k), m), (k, sibling(c, m)), (k[:bs], m), (k, m)]])
    c.rng.shuffle(cases)
    run(c, exe, cases)


def edge_of(x, o, bs):
    """A length given as a number, or in terms of the digest and block lengths."""
    if isinstance(x, int):
        return x
    return max(0, {"o": o, "b": bs}.get(x[0], 0) + (int(x[1:] or 0) if x[0] in "ob" else int(x)))


def h07(c):
    exe = c.build("hash")
    common(c)
    cases = []
    osz = dict(md5=16, sha1=20)
    for alg in ALGS:
        bs = BS[alg]
        def one(L, salt=None, ikm=None, info=None, nn=None):
            f = fun(c, alg, nn=nn)
            o = osz.get(alg) or int(f.split()[2])
            L = min(L(o), 255 * o)
            edge = lambda: c.rng.choice([0, 1, 13, o - 1, o, o, o + 1, bs - 1, bs, bs + 1, c.rng.randrange(150)])
            s = edge() if salt is None else edge_of(salt, o, bs)
            k = edge() if ikm is None else edge_of(ikm, o, bs)
            i = c.rng.choice([0, edge()]) if info is None else edge_of(info, o, bs)
            cases.append([f"hkdf {f} {msg(c, s)} {msg(c, k)} {msg(c, i)} {L}"])
        for m in (0, 1, 2, 3):
            for d in (-1, 0, 1):
                one(lambda o: max(0, m * o + d))
        # every pair of notable lengths of salt and key material, and of key material and info
        for s in ("0", "1", "o", "b", "b+1"):
            for k in ("0", "1", "o-1", "o", "o+1", "b", "b+1"):
                if c.thorough or s in "0o" or c.rng.random() < 0.3:
                    one(lambda o: c.rng.choice([1, o, o + 1]), salt=s, ikm=k, info="0" if c.rng.random() < 0.5 else None)
        # derivations that are nearly the same, one after the other
        for _ in range(20 if c.thorough else 2):
            f, s, k, i = fun(c, alg), base(c, c.rng.choice([1, 16, bs])), base(c, 24), base(c, 12)
            n = c.rng.choice([10, 40])
            cases.append([f"hkdf {f} {hx(x)} {hx(y)} {hx(z)} {n}" for x, y, z in
                          [(s, k, i), (sibling(c, s), k, i), (s, sibling(c, k), i), (s, k, sibling(c, i)), (s, k, i), (k, s, i), (s, i, k)]])
        # and each of the three inputs changed in one place of many, in turn
        for at in (0, 1, 2):
            for n in [c.rng.choice([48, 100, bs + 1]), c.rng.randrange(3, 2 * bs)] * (3 if c.thorough else 1):
                f, t = fun(c, alg), [base(c, c.rng.choice([0, 8, 32])) for _ in range(3)]
                t[at] = base(c, n)
                L = c.rng.choice([1, 16, 33])
                for y in [after(t[at], kin(c, t[at], 12 if c.thorough else 5) + [t[at][:-1], t[at][::-1], t[at]])]:
                    cases.append([f"hkdf {f} {' '.join(hx(q) for q in t[:at] + [x] + t[at + 1:])} {L if alg in osz else min(L, 255 * int(f.split()[2]))}" for x in y])
        for _ in range(60 if c.thorough else 5):
            x = c.rng.random() ** 2
            one(lambda o: int(x * 6 * o))
        # long salts, key material and infos
        for n in lengths(c, 4, 1 << 12):
            w = c.rng.randrange(3)
            one(lambda o: c.rng.choice([1, o, 2 * o + 1]), salt=n if w == 0 else None, ikm=n if w == 1 else None, info=n if w == 2 else None)
        for n in (255, 256, 257, 300, 1000):
            one(lambda o: c.rng.choice([1, o, 2 * o + 1, 4 * o]), info=n)
        one(lambda o: o + 1, salt=c.rng.randrange(600, 2000), ikm=c.rng.randrange(600, 2000), info=c.rng.randrange(600, 2000))
        if c.thorough:
            for d in (-1, 0):
                for e in (255, 254, 128, 127):
                    one(lambda o: e * o + d, salt=0, ikm=5, info=3)
        elif alg in osz:
            one(lambda o: 255 * o, salt=3, ikm=5, info=1)
        else:
            # many blocks cheaply: digests of a few bytes
            one(lambda o: (255 if alg == 'blake2s' else 130) * o, salt=3, ikm=5, info=1, nn=c.rng.randrange(2, 6))
    c.rng.shuffle(cases)
    run(c, exe, cases)


CHECKS = dict(H01=digests("md5", True), H02=digests("sha1", True), H03=digests("blake2b", False),
              H04=digests("blake2s", False), H05=h05, H06=h06, H07=h07)
