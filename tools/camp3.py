"""Rendering of integer and multinomial behaviours (MzGen, MzShape) into driver scripts."""
import random
from algcamp import *

def z_value(rng):
    k = rng.random()
    if k < .25: return rng.choice([0, 1, -1, 2, -2, 3, 127, 128, 255, 256, -128, -255, -256, 4, 9, 16, 8, 27, -8, -27, 32767, 32768])
    b = rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 200, 511, 512])
    v = rng.choice([1 << b, (1 << b) - 1, (1 << b) + 1, rng.getrandbits(b), rng.getrandbits(b // 2) ** 2, rng.getrandbits(b // 3 + 1) ** 3])
    return v if rng.random() < .5 else -v
def z_inst():
    return Inst("z", ["field Z z"], "Z", lambda x, rng: ["setmpz %s %d" % (x, z_value(rng))], 10**25 + 13, has={"int"})

LEAVES = {"0", "1", "-1", "v", "-v", "h", "-h"}
def leaf(k, rng, bits=64):
    v = {"0": 0, "1": 1, "v": rng.randrange(2, 1000), "h": rng.getrandbits(rng.choice([63, 64, 65, 128, 200])) + 1}[k.lstrip("-")]
    return -v if k.startswith("-") else v

def targets(rng):
    """Structures a multinomial can be assigned to, with an element of each: (name, lines)."""
    p = nt.next_prime(rng.getrandbits(96) | 1 << 95, lambda p: p % 4 == 3)
    f = nt.irred_poly(3, p, rng)
    L = ["field F zn mont %d" % p, "elem u0 F", "field Q fi F", "elem xQ Q", "elem xF F", "field R poly F", "elem xR R"] + poly_pre("F", "R", "f0", f) + ["field K polymod f0", "elem xK K", "field QK quad K", "elem xX QK",
         "field S poly Q", "elem xS S", "field F7 zn naive 7", "elem a4 F7", "elem a6 F7", "setsi a4 1", "setsi a6 1", "field E ec F7 a4 a6 5 -", "elem xE E", "field Z z", "elem xZ Z"]
    return L
TARGETS = {"xF", "xQ", "xR", "xK", "xX", "xS", "xE", "xZ"}

def mz_header(rng): return ["field M multiz"] + targets(rng) + ["elem %s M" % r for r in ("a", "b", "c", "m0", "m1", "m2", "m3", "m4")]

def mz_walk(h, rng):
    L = []
    for o, c, a, b, k in h:
        if o == "leaf": L.append("setmpz %s %d" % (c, leaf(k, rng)))
        elif o == "settext":
            v = leaf(k, rng); base = rng.choice([2, 10, 16, 36]); t = ("-" if v < 0 else "") + inbase(abs(v), base)
            t = rng.choice(["", " ", "\n\t"]) + rng.choice([t, t, t.upper(), t + " rest" if base < 20 else t, "-" + t, "", "-", "+" + t, t[:1] + " " + t[1:]])
            L.append("setstr %s %d %s" % (c, base, t.encode().hex() or "-"))
        elif o in ("mznewlist", "mzappend", "neg", "dbl", "set", "sq", "cmp"): L.append("%s %s %s" % (o, c, a))
        elif o == "pow2": L.append("powmpz %s %s 2" % (c, a))
        elif o == "pow": L.append("powmpz %s %s %s" % (c, a, k))
        elif o in ("add", "sub", "mul", "div"): L.append("%s %s %s %s" % (o, c, a, b))
        elif o == "mulmpz": L.append("mulmpz %s %s %d" % (c, a, leaf(k, rng)))
        elif o == "mulsi": L.append("mulsi %s %s %d" % (c, a, max(min(leaf(k, rng), 2**63 - 1), -2**63)))
        elif o == "addui": L.append("addui %s %s %d" % (c, a, abs(leaf(k, rng)) % 2**64))
        elif o == "item": L.append("item %s %s %s" % (c, a, "0" if k == "first" else "last"))
        elif o in ("set0", "set1", "sign", "tobytes"): L.append("%s %s" % (o, c))
        elif o == "outstr": L.append("outstr %s %d" % (c, rng.choice([2, 10, 16])))
        elif o == "assign": L.append("setmultiz %s %s" % (c, a))
        else: raise ValueError(o)
    return L

def build(x, s, rng, d=0):
    """Lines that make register x the multinomial of shape s (m<d> is scratch)."""
    if s[0] == "0": return ["set0 " + x]
    if s[0] == "v": return ["setmpz %s %d" % (x, leaf(rng.choice(["1", "-1", "v", "-v", "h", "-h"]), rng))]
    t = "m%d" % d; L = []
    for k, y in enumerate(s[1]):
        L += build(t, y, rng, d + 1) + ["%s %s %s" % ("mzappend" if k else "mznewlist", x, t)]
    return L
def mz_shape(sc, rng):
    L = build("a", sc["a"], rng) + build("b", sc["b"], rng)
    o = sc["op"]; c = sc["al"][0]
    if c == "c": L += rng.choice([[], ["set b b"], ["setsi c 3"], ["mznewlist c a"]])
    if o == "cmp": L.append("cmp a b")
    elif o in ("neg", "sq", "dbl", "set"): L.append("%s %s %s" % (o, c, "a"))
    elif o == "assign": L += ["setmultiz %s a" % t for t in rng.sample(sorted(TARGETS), 3)]
    elif o == "ecassign":
        x, y = rng.choice([(0, 1), (0, 6), (2, 2), (2, 5), (0, 0), (1, 1), (3, 3)])
        L += ["setsi m0 %d" % (x + 7 * rng.randrange(-2, 3)), "mznewlist a m0", "setsi m0 %d" % (y + 7 * rng.randrange(-2, 3))] + rng.choice([[], ["mznewlist m0 m0"]]) + ["mzappend a m0"] + rng.choice([[], ["mzappend a b"]]) + ["setmultiz xE a", "set0 a", "setmultiz xE a"]
    else: L.append("%s %s a b" % (o, c))
    return L
def mz_jobs(tag, items, fn, seed, per):
    js = []
    for k in range(0, len(items), per):
        rng = random.Random("%s/mz/%s/%d" % (seed, tag, k)); L = mz_header(rng)
        for it in items[k:k + per]: L += fn(it, rng)
        js.append(("mz-%s-%d" % (tag, k // per), L + ["dump"], {"spec": "IntTrace"}))
    return js
def z_io_jobs(n, seed, per=150):
    """Text, byte and hash forms of integers and of integer multinomials."""
    js = []
    for k in range(0, n, per):
        rng = random.Random("%s/zio/%d" % (seed, k)); L = ["field Z z", "field M multiz", "elem a Z", "elem b Z", "elem c M", "elem d M"]
        for _ in range(per):
            x, y = rng.choice([("a", "b"), ("c", "d"), ("a", "a"), ("c", "c")]); v = z_value(rng)
            o = rng.choice(["rt", "rt", "rtstr", "rtstr", "tobytes", "outstr", "frombytes", "frombytes", "setstr", "hash", "sign", "cmp", "tosi"])
            L.append("setmpz %s %d" % (x, v))
            if rng.random() < .3: L.append("setmpz %s %d" % (y, z_value(rng)))
            if o == "rt": L.append("rt %s %s" % (y, x))
            elif o == "rtstr": L.append("rtstr %s %s %d" % (y, x, rng.choice([2, 3, 8, 10, 16, 36])))
            elif o in ("tobytes", "sign"): L.append("%s %s" % (o, x))
            elif o == "outstr": L.append("outstr %s %d" % (x, rng.choice([2, 7, 10, 16, 36])))
            elif o == "frombytes":
                m = rng.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, 16, 33, 255, 256, 300]); b = bytearray(rng.randbytes(m)) if rng.random() < .7 else bytearray(rng.choice([0, 128, 255, 127]) for _ in range(m))
                if m and rng.random() < .3: b[0] = rng.choice([0, 0x80, 0xff, 0x7f])
                L.append("frombytes %s %s" % (x, (m.to_bytes(4, "big") + bytes(b) + rng.randbytes(rng.randrange(3))).hex()))
            elif o == "setstr": L += mz_walk([("settext", x, "", "", rng.choice(sorted(LEAVES)))], rng)
            elif o == "hash": L.append("hash %s %s" % (x, rng.randbytes(rng.choice([0, 1, 2, 7, 8, 9, 20, 32])).hex() or "-"))
            elif o == "cmp": L += ["setmpz %s %d" % (y, v + rng.choice([0, 0, 1, -1, v, -2 * v]))] + ["cmp %s %s" % (x, y)]
            elif o == "tosi": L += ["setmpz %s %d" % (x, max(min(v, 2**63 - 1), -2**63)), "tosi " + x]
        js.append(("zio-%d" % (k // per), L + ["dump"], {"spec": "IntTrace"}))
    return js

# ---- randomness (RandGen) ----
RSOURCES = {"det1", "det2", "fn1", "fn2", "fne1", "file", "nofile"}
def rand_limit(k, rng):
    if k == "one": return 1
    if k == "pow2": return 1 << rng.choice([0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 160])
    if k == "pow2m1": return (1 << rng.choice([2, 8, 16, 32, 64, 128])) - 1
    if k == "pow2p1": return (1 << rng.choice([1, 8, 16, 32, 64, 128])) + 1
    if k == "small": return rng.randrange(2, 300)
    return rng.getrandbits(rng.choice([17, 33, 65, 100, 161, 512])) + 2
RLIMITS = {"one", "pow2", "pow2m1", "pow2p1", "small", "big"}
def rand_file(rng, lims):
    """Bytes of a file-backed source: some groups too large for the bounds asked for, some exactly at the edge, sometimes too few."""
    out = b""
    for _ in range(rng.choice([0, 1, 2, 6])):
        n = rng.choice(lims); w = (n.bit_length() + 7) // 8
        v = rng.choice([n, n - 1, n + 1, 0, (1 << n.bit_length()) - 1, rng.getrandbits(8 * w)])
        out += (v % (1 << 8 * w)).to_bytes(w, "big")
    return out + rng.randbytes(rng.choice([0, 0, 1, 3, 40])) + rng.choice([b"", b"\0" * rng.choice([1, 30])])
def rand_life(sc, regs, rng):
    """regs: request name -> register (or polynomial register for monic:)."""
    reqs, lims = [], []
    for r in sc["tape"]:
        k, _, a = r.partition(":")
        if k == "mpz": n = rand_limit(a, rng); reqs.append("mpzrandom %d" % n); lims.append(n)
        elif k == "bits": b = int(a); reqs.append("mpzrandomb %d" % b); lims.append(1 << b)
        elif k == "elem": reqs.append("random " + regs[a][0]); lims.append(regs[a][1])
        elif k == "monic": reqs.append("rndmonic xR %d" % rng.randrange(0, 4))
    files = {}
    L = []
    for s, n in sc["segs"]:
        safe = lambda q: not (q.startswith("random") and q.split()[1] in ("xE", "xG1", "xG2", "xGT", "xI", "xIT"))
        if s == "file":
            if s not in files or rng.random() < .5: files[s] = rand_file(rng, lims or [300])
            L.append("rng file " + (files[s].hex() or "-"))
        elif s == "nofile": L.append("rng nofile")
        else: L.append({"det": "rng det %s", "fne": "rng fn %s edge", "fn": "rng fn %s log"}[s.rstrip("12")] % s[-1])
        L += [q for q in reqs[:n] if s not in ("file", "nofile") or safe(q)]
    return L
def rand_jobs(lives, seed, per, heavy):
    js = []
    for k in range(0, len(lives), per):
        rng = random.Random("%s/rg/%d" % (seed, k))
        impl = rng.choice(["naive", "fast", "faster", "mont"]); bits = rng.choice([64, 65, 96, 127, 128, 160])
        p = nt.next_prime(rng.getrandbits(bits) | 1 << (bits - 1), lambda p: p % 4 == 3)
        q = nt.next_prime(rng.getrandbits(20) | 1 << 19); n = rng.getrandbits(90) | 1 << 89 | 1
        f = nt.irred_poly(3, p, rng)
        L = ["rng det 0", "field F zn %s %d" % (impl, p), "elem u0 F", "elem xF F", "field N zn naive %d" % n, "elem xN N", "field Q fi F", "elem xQ Q", "field R poly F", "elem xR R"] + poly_pre("F", "R", "f0", f)
        L += ["field K polymod f0", "elem xK K", "field QK quad K", "elem xX QK", "field T naive %d" % q if False else "field T zn naive %d" % q, "elem xT T", "field G3 gf3m 97 12", "elem x3 G3", "field G9 gf32m G3", "elem x9 G9", "field G27 gf33m G9", "elem x27 G27", "elem v0 T", "elem v1 T"]
        a, b = rng.randrange(1, q), rng.randrange(1, q)
        tp, ta, tb = TINY_PRIME_EC[rng.randrange(len(TINY_PRIME_EC))]
        L += ["field T2 zn naive %d" % tp, "elem w0 T2", "elem w1 T2", "setmpz w0 %d" % ta, "setmpz w1 %d" % tb, "field E ec T2 w0 w1 %d -" % (len(nt.curve_points(tp, ta, tb)) + 1), "elem xE E"]
        regs = {"F": ("xF", p), "N": ("xN", n), "Q": ("xQ", p), "K": ("xK", p), "X": ("xX", p), "T": ("xT", q), "3": ("x3", 3 ** 97), "9": ("x9", 3 ** 97), "27": ("x27", 3 ** 97), "E": ("xE", 5)}
        for g in ("G1", "G2", "GT", "Zr", "I", "IT"): regs[g] = ("x" + g, 1 << 160)
        L += ["pairing P %s/param/%s.param" % (REPO, rng.choice(heavy))] + ["elem x%s P.%s" % (g, g) for g in ("G1", "G2", "GT", "Zr")]
        if rng.random() < .3: L += ["pairing PI %s/param/i.param" % REPO, "elem xI PI.G1", "elem xIT PI.GT"]
        else: regs["I"] = regs["G1"]; regs["IT"] = regs["Zr"]
        L += ["random " + x for x in sorted({r[0] for r in regs.values()})] + ["rndmonic xR 2"]
        for sc in lives[k:k + per]: L += rand_life(sc, regs, rng)
        js.append(("rand-%d" % (k // per), L, {"spec": "RandTrace"}))
    return js
TINY_PRIME_EC = [(p, a, b) for p in (11, 13, 17, 23) for a in range(1, 4) for b in range(1, 6) if (4 * a ** 3 + 27 * b * b) % p and nt.is_prime(len(nt.curve_points(p, a, b)) + 1) and len(nt.curve_points(p, a, b)) + 1 != p]
def cover_jobs(seed):
    """Small structures of which every element must come up."""
    rng = random.Random("%s/cover" % seed); js = []
    tp, ta, tb = rng.choice(TINY_PRIME_EC); f = nt.irred_poly(3, 5, rng)
    for k, (pre, fl, size) in enumerate([
            (["field F zn naive 31"], "F", 31), (["field F zn naive 30"], "F", 30), (["field F zn fast 97"], "F", 97), (["field F zn naive 7", "field Q fi F"], "Q", 49),
            (["field F zn naive 5", "elem u0 F", "field R poly F"] + poly_pre("F", "R", "f0", f) + ["field K polymod f0"], "K", 125),
            (["field G gf3m 5 4"], "G", 243), (["field G gf3m 2 1", "field H gf32m G"], "H", 81) , (["field G gf3m 2 1", "field H gf33m G"], "H", 729),
            (["field T zn naive %d" % tp, "elem w0 T", "elem w1 T", "setmpz w0 %d" % ta, "setmpz w1 %d" % tb, "field E ec T w0 w1 %d -" % (len(nt.curve_points(tp, ta, tb)) + 1)], "E", 20)]):
        for s in ("rng det %d" % rng.randrange(1, 10 ** 6), "rng fn %d" % rng.randrange(1, 10 ** 6)):
            js.append(("cover-%d-%s" % (k, s.split()[1]), [s] + pre + ["elem x " + fl, "cover x %d" % (size * 25)], {"spec": "RandTrace"}))
    return js

# ---- discrete logarithms (DlogGen) ----
def primroot(p):
    fs = [q for q in range(2, p) if (p - 1) % q == 0 and nt.is_prime(q)]
    return next(g for g in range(1, p) if all(pow(g, (p - 1) // q, p) != 1 for q in fs))
def factor_small(n): return [q for q in range(2, n + 1) if n % q == 0 and nt.is_prime(q)]
def dlog_groups(n):
    """Cyclic groups of order n: (name, declaration lines that leave a generator in g, field)."""
    G = []
    p = n + 1
    while not (nt.is_prime(p) and (p - 1) % n == 0): p += n
    g = pow(primroot(p), (p - 1) // n, p)
    G.append(("fp", ["field F zn naive %d" % p, "elem g F", "setmpz g %d" % g, "elem b F", "elem h F"]))
    for q in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        done = False
        for a in range(0, 4):
            for b in range(0, 7):
                if (4 * a ** 3 + 27 * b * b) % q == 0: continue
                pts = nt.curve_points(q, a, b)
                if (len(pts) + 1) != n: continue
                for P in pts:
                    if nt.ec_order(P, a, q) == n:
                        G.append(("ec", ["field T zn naive %d" % q, "elem w0 T", "elem w1 T", "setsi w0 %d" % a, "setsi w1 %d" % b, "field E ec T w0 w1 %d -" % n, "elem g E", "ecset g %d %d" % P, "elem b E", "elem h E"])); done = True; break
                if done: break
            if done: break
        if done: break
    return G
def dlog_jobs(items, seed, per, variant="plain"):
    by = {}
    for n, a, k, m in items: by.setdefault(n, []).append((a, k, m))
    js = []
    for n, its in sorted(by.items()):
        for gn, pre in dlog_groups(n):
            for j in range(0, len(its), per):
                rng = random.Random("%s/dl/%s/%d/%d" % (seed, gn, n, j))
                L = ["rng fn %d" % rng.randrange(10 ** 6)] + pre + ["field Zr zn naive %d" % n, "elem x Zr"]
                for a, k, m in its[j:j + per]:
                    L += ["powmpz b g %d" % a, "powmpz h b %d" % k, "random x", "dlog%s x b h" % m]
                js.append(("dlog-%s-%d-%d" % (gn, n, j // per), L + ["dump"], {"variant": variant}))
    return js
def dlog_big(seed, count, bits, kinds=("fp", "fpc", "ec", "pair")):
    js = []
    for c in range(count):
        rng = random.Random("%s/dlb/%d" % (seed, c)); kind = kinds[c % len(kinds)]; L = ["rng fn %d" % rng.randrange(10 ** 6)]
        if kind in ("fp", "fpc"):
            n = nt.next_prime(rng.getrandbits(bits) | 1 << (bits - 1)) if kind == "fp" else rng.choice([2, 3, 4, 6, 12]) * nt.next_prime(rng.getrandbits(bits // 2) | 1 << (bits // 2 - 1)) * rng.choice([1, nt.next_prime(rng.randrange(3, 50))])
            p = n + 1
            while not (nt.is_prime(p) and p > 1 << 64): p += n * rng.randrange(1, 1 << 64)
            impl = rng.choice(["naive", "mont", "faster", "fast"])
            while True:
                g = pow(rng.randrange(2, p), (p - 1) // n, p)
                if all(pow(g, n // q, p) != 1 for q in small_factors(n)): break
            L += ["field F zn %s %d" % (impl, p), "elem g F", "setmpz g %d" % g, "elem b F", "elem h F"]
        elif kind == "ec":
            q = nt.next_prime(rng.randrange(150, 900))
            while True:
                a, b = rng.randrange(q), rng.randrange(q)
                if (4 * a ** 3 + 27 * b * b) % q == 0: continue
                n = nt.ec_count(q, a, b); P = rng.choice(nt.curve_points(q, a, b))
                if nt.ec_order(P, a, q) == n: break
            L += ["field T zn naive %d" % q, "elem w0 T", "elem w1 T", "setsi w0 %d" % a, "setsi w1 %d" % b, "field E ec T w0 w1 %d -" % n, "elem g E", "ecset g %d %d" % P, "elem b E", "elem h E"]
        else:
            t = rng.choice([nt.tiny_a(31), nt.tiny_a1(31), nt.tiny_mnt("d", 2, 31), nt.tiny_mnt("d", 6, 13)]); d = dict(l.split()[:2] for l in t.splitlines() if l.strip()); n = int(d.get("r") or d.get("n"))
            gr = rng.choice(["G1", "GT"]); L += ["pairing P @" + ",".join("=".join(l.split()[:2]) for l in t.splitlines() if l.strip()), "elem s P.G1", "elem t P.G2", "random s", "random t", "elem g P." + gr, "elem b P." + gr, "elem h P." + gr]
            L += ["pair P g s t"] if False else ["random g"]
        L += ["field Zr zn naive %d" % n, "elem x Zr"]
        for _ in range(6):
            a = rng.choice([1, 1, rng.randrange(n), rng.randrange(n)]); k = rng.choice([0, 1, n - 1, n // 2, rng.randrange(n), rng.randrange(n)])
            L += ["powmpz b g %d" % a, "powmpz h b %d" % k]
            if n < 1 << 14 or k < 3: L += ["dlogbf x b h"] if k or n < 1 << 14 else []
            L.append("dlogrho x b h")
        js.append(("dlogbig-%s-%d" % (kind, c), L + ["dump"], {}))
    return js
def small_factors(n):
    fs, q = [], 2
    while q * q <= n:
        if n % q == 0:
            fs.append(q)
            while n % q == 0: n //= q
        q += 1
    return fs + ([n] if n > 1 else [])

# ---- the C++ wrapper (behaviours of XxGen, judged by XxTrace)
class XLife(Pairing):
    G = {"p": "G1", "q": "G2", "t": "GT", "z": "Zr"}
    def R(self, x): return self.n + x if isinstance(x, str) else "%s%s%d" % (self.n, x[0], x[1])
    def open(self):
        if self.path[0] != "@":                       # data with zero bytes, equal up to the first of them
            b = self.rng.randbytes(3)
            self.hashes += [(b + t).hex() for t in (b"\0" + self.rng.randbytes(4), b"\0" + self.rng.randbytes(4), b"", b"\0")][:3] + [(b"\0" + b).hex(), "0000"]
        L = ["pairing %s %s" % (self.n, self.path)] + ["classmode %s.%s 1" % (self.n, g) for g in ("G1", "G2", "GT")]
        if self.cof: L.append("cofac %s.G2 %d" % (self.n, self.cof))
        for g in "pqtz":
            for k in (1, 2): L += ["elem %s %s.%s" % (self.R((g, k)), self.n, self.G[g])] + self.val((g, k))
        return L
    def val(self, x):
        g, X = x[0], self.R(x)
        if g == "t": return ["pair %s %s %s %s" % (self.n, X, self.R(("p", 1)), self.R(("q", 1)))]
        if g == "z" or self.type == "i" or self.rng.random() < .6: return ["random " + X]
        return ["hash %s %s" % (X, self.rng.choice(self.hashes))]
    def xstep(self, s):
        o, rng, R = s[0], self.rng, self.R
        if o == "xpcopy": return ["xpcopy " + self.n]
        x = s[1]; X = R(x)
        if o == "new": return ["elem %s %s.%s" % (X, self.n, self.G[x[0]])] + (self.val(x) if x[0] != "t" and rng.random() < .5 else [])
        if o == "copy": return ["xcopy %s %s" % (X, R(s[2]))]
        if o == "del": return ["clear " + X]
        if o in ("set0", "set1"): return ["%s %s" % (o, X)]
        if o == "random": return ["random " + X] if x[0] != "t" else ["set1 " + X]
        if o in ("hash", "setsi", "setmpz"):
            if x[0] == "z": return ["hash %s %s" % (X, rng.choice(self.hashes))] if o == "hash" else ["setsi %s %d" % (X, rng.choice([0, 1, -1, 5, -77, 2**40, -2**63, 2**63 - 1]))] if o == "setsi" else ["setmpz %s %d" % (X, rng.choice([-1, 1]) * self.sc())]
            return self.val(x) if x[0] != "t" else []
        if o in ("mulmpz", "powmpz"): return ["%s %s %s %d" % (o, X, R(s[2]), self.sc())]
        if o == "xsize": return ["xsize %s %s %s" % (X, R(s[2]), s[3])] if self.type != "i" or x[0] == "z" else []
        if o == "xpair": return ["xpair %s %s %s %s" % (self.n, X, R(s[2]), R(s[3]))]
        if x[0] == "t" and o in ("add", "sub", "neg", "dbl"): o = {"add": "mul", "sub": "div", "neg": "inv", "dbl": "sq"}[o] if rng.random() < .7 else o
        return [" ".join([o] + [R(y) for y in s[1:]])]

def xx_jobs(params, hs, seed, per):
    js = []
    for a, p in enumerate(params):
        for j in range(per):
            rng = random.Random("%s/xx/%s/%d" % (seed, p, j)); P = XLife("P", p, rng)
            L = ["rng fn %d" % rng.randrange(10**6)] + P.open()
            for s in hs[(a * per + j) % len(hs)]: L += P.xstep(s)
            nm = os.path.basename(p) if "\n" not in p else "tiny%d" % a
            js.append(("xx-%s-%d" % (nm, j), L + ["dump"] + P.close(), {"spec": "XxTrace", "driver": "drvxx", "variant": "asan" if j % 4 == 3 else "plain"}))
    return js

# ---- curve construction and counting (BuildGen)
def build_curve(it, rng, k, big=False, impl=None):
    """One curve, built as the generator says, twisted, mapped into an extension; points drawn and multiplied by the order counted."""
    p, f, a, b, n, c, tw, ext, ne = it
    impl = impl or rng.choice(["naive", "fast", "fp"]); F, E = "F%d" % k, "E%d" % k
    L = ["field %s zn %s %d" % (F, impl, p)] + ["elem %s%d %s" % (x, k, F) for x in "ab"] + ["setmpz a%d %d" % (k, a), "setmpz b%d %d" % (k, b)]
    cof = "-" if not c else str(c); r = n if not c else n // c
    if f == "ab": L.append("field %s ec %s a%d b%d %d %s" % (E, F, k, k, r, cof))
    elif f == "b": L.append("field %s ecb %s b%d %d %s" % (E, F, k, r, cof))
    else: L.append("field %s ecj %s a%d %d %s" % (E, F, k, r, cof))
    L += ["setmpz a%d %d" % (k, rng.randrange(p)), "setmpz b%d %d" % (k, rng.randrange(p))]            # the curve keeps its own coefficients
    if tw and f == "ab" and rng.random() < .3: L += ["elem o%d %s" % (k, E), "clear o%d" % k]
    L += ["twist %s" % E] * tw
    if tw and rng.random() < .5: L += ["getnqr %s a%d" % (F, k)]
    def points(E, t, r, n):
        o = ["elem %s%d %s" % (x, k, E) for x in (t + "P", t + "Q", t + "R")]; P, Q, R = ["%s%d" % (x, k) for x in (t + "P", t + "Q", t + "R")]
        return o + ["random " + P, "random " + Q, "add %s %s %s" % (R, P, Q), "dbl %s %s" % (R, R), "sub %s %s %s" % (R, R, P), "mulmpz %s %s %d" % (R, P, r), "mulmpz %s %s %d" % (Q, Q, n), "clear " + P, "clear " + Q, "clear " + R]
    L += points(E, "x", r, n)
    if ext > 1:
        K, M = "K%d" % k, "M%d" % k
        if ext == 2 and rng.random() < .7: L.append("field %s quad %s" % (K, F))
        else: L += ["field R%d poly %s" % (k, F)] + poly_pre(F, "R%d" % k, "f%d" % k, nt.irred_poly(ext, p, rng), t="a%d" % k) + ["field %s polymod f%d" % (K, k), "clear f%d" % k]
        cf = c if c and ne % c == 0 and rng.random() < .5 else 0; re_ = ne // cf if cf else ne
        L.append("field %s ecmap %s %s %d %s" % (M, E, K, re_, cf or "-")); L += points(M, "y", re_, ne)
        L += ["fclear " + M, "fclear " + K]
    L += ["clear a%d" % k, "clear b%d" % k, "fclear " + E]
    if ext > 1 and any(x.startswith("field R%d" % k) for x in L): L.append("fclear R%d" % k)
    return L + ["fclear " + F]
def build_jobs(items, mode, seed, per, variant="plain"):
    js = []
    for j in range(0, len(items), per):
        rng = random.Random("%s/build/%s/%d" % (seed, mode, j)); L = ["rng fn %d" % rng.randrange(10 ** 6)]
        for k, it in enumerate(items[j:j + per]):
            if mode in ("curve", "big"): L += build_curve(it, rng, k, impl=rng.choice(["naive", "fast", "faster", "mont"]) if mode == "big" else None)
            elif mode == "trace": L.append("tracen %d %d %d %d" % tuple(it))
            elif mode == "factor": L.append("tdiv %d %s %d" % (it[0], it[1] or "-", it[2]))
            else:
                p, how, v, again = it; F = "F%d" % k
                L += ["field %s zn %s %d" % (F, rng.choice(["naive", "fast", "fp"]), p), "elem v%d %s" % (k, F)]
                if how == "reset": L += ["getnqr %s v%d" % (F, k)]
                if how != "free": L += ["setmpz v%d %d" % (k, v), "setnqr %s v%d" % (F, k), "setmpz v%d %d" % (k, rng.randrange(p))]
                L += ["getnqr %s v%d" % (F, k)]
                for q in range(1 + again):
                    Q = "Q%d_%d" % (k, q); x, y = "x%d_%d" % (k, q), "y%d_%d" % (k, q)
                    L += ["field %s quad %s" % (Q, F), "elem %s %s" % (x, Q), "elem %s %s" % (y, Q), "random " + x, "random " + y, "mul %s %s %s" % (y, y, x), "sq %s %s" % (x, x)]
                    L += ["clear " + x, "clear " + y, "fclear " + Q]
                L += ["getnqr %s v%d" % (F, k), "clear v%d" % k, "fclear " + F]
        js.append(("build-%s-%d" % (mode, j // per), L, {"variant": variant}))
    return js
def build_big(names, texts, seed, count):
    """Curves of the supplied parameter sets (their orders are part of the parameters): the twist and the extension curves have the orders the trace gives."""
    out = []; rng = random.Random("%s/bbig" % seed)
    for nm in names:
        d = dict(l.split() for l in texts(nm).splitlines() if len(l.split()) == 2)
        if "a" not in d or "b" not in d or "n" not in d: continue
        q, n, a, b = [int(d[x]) for x in ("q", "n", "a", "b")]
        for _ in range(count):
            tw = rng.randrange(3); m = 2 * q + 2 - n if tw % 2 else n; t = q + 1 - m; ext = rng.choice([1, 1, 2, 3]); u, v = 2, t
            for _ in range(ext - 1): u, v = v, t * v - q * u
            w = rng.randrange(1, q)
            out.append([q, "ab", a * pow(w, 4, q) % q, b * pow(w, 6, q) % q, m, rng.choice([0] + [c for c in range(2, 30) if m % c == 0]), tw, ext, q ** ext + 1 - v])
    rng.shuffle(out); return out
def build_nums(seed, count):
    rng = random.Random("%s/bnums" % seed); ps = [x for x in range(2, 1000) if nt.is_prime(x)]; out = []
    for _ in range(count):
        n = 1
        for _ in range(rng.randrange(0, 6)): n *= rng.choice(ps if rng.random() < .5 else ps[:6]) ** rng.choice([1, 1, 1, 2, 3, 7])
        big = rng.random(); lim = rng.choice([0, 0, 1, 2, 3, 7, 30, 100, 500, 997, 1000])
        if big < .4: n *= nt.next_prime(rng.getrandbits(rng.choice([20, 40, 64, 100])))
        elif big < .6: n *= nt.next_prime(rng.getrandbits(40)) * nt.next_prime(rng.getrandbits(45)); lim = lim or 300
        out.append([n, lim, rng.choice([0, 0, 0, 1, 2, 3])])
    return out
def build_traces(seed, count):
    rng = random.Random("%s/btr" % seed); out = []
    for _ in range(count):
        q = nt.next_prime(rng.getrandbits(rng.choice([20, 64, 160, 512]))); s = int(q ** .5) if q < 2 ** 50 else 2 ** (q.bit_length() // 2 - 1)
        out.append([q, rng.choice([0, 1, -1, 2, s, -s, rng.randrange(-2 * s, 2 * s + 1)]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 24]), rng.randrange(3)])
    return out
